#pragma once
#include "score/analysis/tracing/generic_trace_library/interface_types/generic_trace_api.h"
