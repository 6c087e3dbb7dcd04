#pragma once
#include "score/json/json_parser.h"
namespace score::json { class JsonWriter { public: score::Result<std::string> ToBuffer(const Object&); score::Result<std::string> ToBuffer(const List&); score::Result<std::string> ToBuffer(const Any&); score::ResultBlank ToFile(const Object&, std::string_view); }; }
