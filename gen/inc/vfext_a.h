#pragma once
typedef unsigned short vfx_small_t;
typedef long long vfx_wide_t;
