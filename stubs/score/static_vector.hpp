#pragma once
#include <vector>
#include <cstddef>
namespace score::cpp { template <class T, std::size_t N> class static_vector : public std::vector<T> { public: using std::vector<T>::vector; }; }
