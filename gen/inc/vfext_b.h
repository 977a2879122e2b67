#pragma once
typedef struct { int a; short b; unsigned char c; } vfx_pair_t;
