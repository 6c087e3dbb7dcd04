#pragma once
#include "score/os/errno.h"
#include "score/mw/log/logging.h"
