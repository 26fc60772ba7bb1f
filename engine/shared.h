// Interface between kernel libraries (compiled against /repo) and the driver.
#pragma once
#include <cstddef>
#include <cstdint>
#include <limits>
#include <type_traits>

namespace vk {
enum TypeId : uint8_t {
  TI_none, TI_schar, TI_uchar, TI_char, TI_short, TI_ushort, TI_int, TI_uint, TI_long, TI_ulong,
  TI_llong, TI_ullong, TI_wchar, TI_c16, TI_c32, TI_float, TI_double, TI_ldouble, TI_bool, TI_count
};
template <class T> struct tid { static constexpr TypeId value = TI_none; };
#define VK_TID(T, I) template <> struct tid<T> { static constexpr TypeId value = I; };
VK_TID(signed char, TI_schar) VK_TID(unsigned char, TI_uchar) VK_TID(char, TI_char)
VK_TID(short, TI_short) VK_TID(unsigned short, TI_ushort) VK_TID(int, TI_int)
VK_TID(unsigned int, TI_uint) VK_TID(long, TI_long) VK_TID(unsigned long, TI_ulong)
VK_TID(long long, TI_llong) VK_TID(unsigned long long, TI_ullong) VK_TID(wchar_t, TI_wchar)
VK_TID(char16_t, TI_c16) VK_TID(char32_t, TI_c32) VK_TID(float, TI_float)
VK_TID(double, TI_double) VK_TID(long double, TI_ldouble) VK_TID(bool, TI_bool)
#undef VK_TID

// every value of From is a value of To
template <class From, class To> constexpr bool vpres()
{
  if constexpr (std::is_same_v<From, bool>) return true;
  else if constexpr (std::is_floating_point_v<From> && !std::is_floating_point_v<To>) return false;
  else if constexpr (std::is_signed_v<From> && !std::is_signed_v<To>) return false;
  else return std::numeric_limits<From>::digits <= std::numeric_limits<To>::digits
	      && (!std::is_floating_point_v<From> || std::numeric_limits<From>::max_exponent <= std::numeric_limits<To>::max_exponent);
}
enum ArgKind : uint8_t { AK_NONE, AK_REG, AK_SCALAR, AK_MEM };
enum ArgDir : uint8_t { AD_IN = 1, AD_INOUT = 3 };

// A simd or simd_mask type. Lanes are exchanged as arrays of T (masks: arrays of 0/1 bytes).
// Routes of make: 0 load, 1 element-wise writes into storage that holds arbitrary bytes,
// 2 generator constructor (masks: load into storage that holds arbitrary bytes).
struct RegClass {
  uint8_t type;   // element type (for masks: the element type of the associated simd)
  uint8_t mask;
  uint16_t n;
  uint32_t size, align;
  void (*make)(int route, const void* lanes, void* reg);
  void (*read)(int route, const void* reg, void* lanes);
};
struct Arg {
  uint8_t kind, dir, type;
  uint16_t n;        // lanes (scalar: 1)
  uint32_t align;    // AK_MEM: required alignment
  const RegClass* rc;
};
constexpr int MAXARGS = 6;
struct Kernel {
  const char* op;
  uint8_t T, U;
  uint8_t nargs;
  void (*fn)(void* const*);
  Arg args[MAXARGS];
};
struct Table { const char* abi; const Kernel* k; int count; };
struct Lib { const char* name; const Table* t; int count; };
} // namespace vk
