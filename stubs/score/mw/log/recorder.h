#pragma once
#include "score/mw/log/runtime.h"
