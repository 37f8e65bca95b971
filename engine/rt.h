#pragma once
#include <vector>
#include "expr.h"
extern bool sxrt_arena_on;
sx::u64 sxrt_eval(sx::E e, const std::vector<long>& in);
