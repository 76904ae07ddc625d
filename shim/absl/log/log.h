#pragma once
#include "absl/log/absl_check.h"
