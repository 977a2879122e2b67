#pragma once
typedef signed char vfx_byte_t;
