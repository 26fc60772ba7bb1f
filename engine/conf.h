// Configurations that take instruction sets away from the library after the standard headers have been seen.
#pragma once
#include <array>
#include <bit>
#include <bitset>
#include <climits>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iosfwd>
#include <limits>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#if VK_CONF >= 3 // 32 bit ARM (v7, v8, v7 as if with -ffast-math), with 64 bit pointers
#include <arm_neon.h>
#undef __aarch64__
#undef __ARM_ARCH
#define __ARM_ARCH (VK_CONF == 4 ? 8 : 7)
#if VK_CONF == 5
#define __FAST_MATH__ 1
#endif
#else
#include <immintrin.h>
#undef __MMX__
#undef __SSE2__
#undef __SSE3__
#undef __x86_64__
#undef __amd64__
#if VK_CONF == 1 // no SIMD at all
#undef __SSE__
#endif // VK_CONF == 2: SSE (float only)
#endif
