#pragma once
#include "score/os/utils/inotify/inotify_instance.h"
