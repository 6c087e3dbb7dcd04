#pragma once
#define DISABLE_WARNING_PUSH
#define DISABLE_WARNING_POP
#define DISABLE_WARNING_FREE_NONHEAP_OBJECT
#define DISABLE_WARNING_TAUTOLOGICAL_POINTER_COMPARE
#define DISABLE_WARNING_MAYBE_UNINITIALIZED
