// Deterministic value generators for lanes of every type.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <string>
#include "shared.h"
using namespace vk;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x = 1) : s(x) {}
  uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  uint32_t below(uint32_t n) { return uint32_t((uint64_t(uint32_t(next())) * n) >> 32); }
  bool chance(int pct) { return below(100) < uint32_t(pct); }
};
inline uint64_t hash64(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull)
{ auto b = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ull; } h ^= h >> 29; return h; }
inline uint64_t hashs(const char* s, uint64_t h = 0xcbf29ce484222325ull) { return hash64(s, strlen(s), h); }

inline size_t tsize(int t)
{
  switch (t) {
    case TI_schar: case TI_uchar: case TI_char: case TI_bool: return 1;
    case TI_short: case TI_ushort: case TI_c16: return 2;
    case TI_int: case TI_uint: case TI_wchar: case TI_c32: case TI_float: return 4;
    case TI_ldouble: return 16;
    default: return 8;
  }
}
inline size_t tcmpsize(int t) { return t == TI_ldouble ? 10 : tsize(t); }
inline bool tfloat(int t) { return t == TI_float || t == TI_double || t == TI_ldouble; }
inline bool tsigned(int t)
{ switch (t) { case TI_schar: case TI_char: case TI_short: case TI_int: case TI_long: case TI_llong: case TI_wchar: return true; default: return tfloat(t); } }
inline const char* tname(int t)
{
  static const char* n[] = {"none", "schar", "uchar", "char", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong",
    "wchar_t", "char16_t", "char32_t", "float", "double", "ldouble", "bool"};
  return n[t];
}
inline void putint(int t, uint64_t v, void* p) { memset(p, 0, tsize(t)); memcpy(p, &v, tsize(t) > 8 ? 8 : tsize(t)); }
inline uint64_t getint(int t, const void* p)
{
  uint64_t v = 0; memcpy(&v, p, tsize(t) > 8 ? 8 : tsize(t));
  if (tsigned(t) && tsize(t) < 8) { int sh = 64 - 8 * int(tsize(t)); v = uint64_t(int64_t(v << sh) >> sh); }
  return v;
}
inline void putfp(int t, long double v, void* p)
{
  if (t == TI_float) { float f = float(v); memcpy(p, &f, 4); }
  else if (t == TI_double) { double f = double(v); memcpy(p, &f, 8); }
  else { memset(p, 0, 16); memcpy(p, &v, 10); }
}
inline long double getfp(int t, const void* p)
{
  if (t == TI_float) { float f; memcpy(&f, p, 4); return f; }
  if (t == TI_double) { double f; memcpy(&f, p, 8); return f; }
  long double f; memset(&f, 0, sizeof f); memcpy(&f, p, 10); return f;
}
inline bool isnan_bits(int t, const void* p)
{
  if (t == TI_float) { uint32_t u; memcpy(&u, p, 4); return (u & 0x7fffffffu) > 0x7f800000u; }
  if (t == TI_double) { uint64_t u; memcpy(&u, p, 8); return (u & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; }
  uint64_t m; uint16_t e; memcpy(&m, p, 8); memcpy(&e, (const char*)p + 8, 2);
  return (e & 0x7fff) == 0x7fff && (m << 1) != 0;
}
inline void quieten(int t, void* p)
{
  if (!isnan_bits(t, p)) return;
  if (t == TI_float) ((unsigned char*)p)[2] |= 0x40;
  else if (t == TI_double) ((unsigned char*)p)[6] |= 0x08;
  else { ((unsigned char*)p)[7] |= 0xc0; }
}

// value profiles
enum Prof { P_MIX, P_UNIFORM, P_BOUND, P_SMALL, P_POW2, P_SPECIAL, P_MODERATE, P_HALF, P_CONV, P_TINY, P_UNIT, P_SUBN, P_TRIG, P_COUNT };

inline void gen_int(Rng& r, int t, int prof, void* p)
{
  int bits = 8 * int(tsize(t));
  uint64_t v;
  if (prof == P_MIX) prof = r.below(5);
  switch (prof) {
    case P_BOUND: {
      static const int64_t d[] = {0, 1, -1, 2, -2};
      uint64_t base;
      switch (r.below(6)) {
	case 0: base = 0; break;
	case 1: base = ~0ull >> (64 - bits + 1); break;          // max signed
	case 2: base = 1ull << (bits - 1); break;                // min signed
	case 3: base = ~0ull; break;
	case 4: base = 1ull << (bits / 2); break;
	default: base = 1ull << r.below(bits); break;
      }
      v = base + uint64_t(d[r.below(5)]);
      break;
    }
    case P_SMALL: case P_HALF: case P_UNIT: v = uint64_t(int64_t(r.below(41)) - 20); if (!tsigned(t)) v = r.below(41); break;
    case P_TINY: v = tsigned(t) ? uint64_t(int64_t(r.below(7)) - 3) : r.below(7); break;
    case P_POW2: v = 1ull << r.below(bits); if (r.chance(40)) v = 0 - v; break;
    case P_MODERATE: v = r.next() >> (64 - bits / 2); if (tsigned(t) && r.chance(50)) v = 0 - v; break;
    default: v = r.next(); if (r.chance(30)) v >>= r.below(bits); break;
  }
  putint(t, v, p);
}
inline long double fp_max(int t) { return t == TI_float ? (long double)std::numeric_limits<float>::max() : t == TI_double ? (long double)std::numeric_limits<double>::max() : std::numeric_limits<long double>::max(); }
inline void gen_fp_bits(Rng& r, int t, void* p)
{
  uint64_t v = r.next();
  if (t == TI_float) { uint32_t u = uint32_t(v); memcpy(p, &u, 4); }
  else if (t == TI_double) memcpy(p, &v, 8);
  else {
    uint16_t e = uint16_t(r.next());
    memset(p, 0, 16);
    if ((e & 0x7fff) == 0) v &= ~(1ull << 63); else v |= 1ull << 63;
    memcpy(p, &v, 8); memcpy((char*)p + 8, &e, 2);
  }
}
inline void gen_fp(Rng& r, int t, int prof, void* p)
{
  if (prof == P_TRIG) {
    static const long double pio2 = 1.5707963267948966192313216916397514421L;
    long double v;
    uint64_t k = r.next() >> (64 - (1 + r.below(36)));
    switch (r.below(6)) {
      case 0: v = pio2 * k; break;                                  // quadrant boundaries
      case 1: v = pio2 * k + pio2 * .5L; break;                     // series changes
      case 2: v = pio2 * (r.next() >> 11) * 0x1p-53L * 8; break;
      case 3: v = (long double)(r.next() >> 11) * 0x1p-53L * (1ull << r.below(40)); break;
      case 4: { static const long double th[] = {393382, 527449, 2147483648.L, 3373259426.27L, 0.25L * 3.14159265358979323846L, 1e15L, 1e22L, 0x1p30L}; v = th[r.below(8)]; break; }
      default: v = __builtin_ldexpl(1 + (r.next() >> 11) * 0x1p-53L, int(r.below(60)) - 40); break;
    }
    if (r.chance(40)) v *= 1 + (int(r.below(9)) - 4) * (t == TI_float ? 0x1p-23L : 0x1p-52L);
    if (r.chance(50)) v = -v;
    putfp(t, v, p);
    return;
  }
  if (prof == P_MIX) { static const int q[] = {P_UNIFORM, P_SPECIAL, P_SMALL, P_MODERATE, P_HALF, P_POW2, P_SUBN, P_MODERATE, P_UNIT}; prof = q[r.below(9)]; }
  int mant = t == TI_float ? 23 : t == TI_double ? 52 : 63;
  int emax = t == TI_float ? 127 : t == TI_double ? 1023 : 16383;
  auto sgn = [&](long double v) { return r.chance(50) ? -v : v; };
  switch (prof) {
    case P_UNIFORM: gen_fp_bits(r, t, p); break;
    case P_BOUND: case P_SPECIAL: {
      long double v;
      long double dmin = t == TI_float ? (long double)std::numeric_limits<float>::denorm_min() : t == TI_double ? (long double)std::numeric_limits<double>::denorm_min() : std::numeric_limits<long double>::denorm_min();
      long double nmin = t == TI_float ? (long double)std::numeric_limits<float>::min() : t == TI_double ? (long double)std::numeric_limits<double>::min() : std::numeric_limits<long double>::min();
      switch (r.below(16)) {
	case 0: case 1: v = 0; break;
	case 2: v = dmin; break;
	case 3: v = nmin; break;
	case 4: v = nmin - dmin; break;
	case 5: v = fp_max(t); break;
	case 6: case 7: v = __builtin_infl(); break;
	case 8: case 9: v = __builtin_nanl(""); break;
	case 10: v = 1; break;
	case 11: v = 0.5L; break;
	case 12: v = 1 - ldexpl(1, -mant - 1); break;
	case 13: v = 1 + ldexpl(1, -mant); break;
	case 14: v = 0.5L - ldexpl(1, -mant - 2); break;
	default: v = ldexpl(1, mant - 1 + int(r.below(4))) + (int(r.below(5)) - 2) * 0.5L; break;
      }
      v = sgn(v);
      putfp(t, v, p);
      if (v != v && r.chance(50)) { ((unsigned char*)p)[t == TI_float ? 3 : t == TI_double ? 7 : 9] ^= 0x80; ((unsigned char*)p)[0] = uint8_t(r.next()); }
      break;
    }
    case P_SMALL: putfp(t, (long double)(int(r.below(41)) - 20), p); break;
    case P_TINY: putfp(t, (long double)(int(r.below(7)) - 3), p); break;
    case P_HALF: putfp(t, (long double)(int64_t(r.next() >> (64 - 1 - r.below(mant + 2)))) * 0.5L * (r.chance(50) ? 1 : -1), p); break;
    case P_POW2: putfp(t, sgn(ldexpl(1, int(r.below(2 * emax)) - emax)), p); break;
    case P_MODERATE: {
      long double m = 1 + ldexpl((long double)(r.next() >> 1), -63);
      putfp(t, sgn(ldexpl(m, int(r.below(40)) - 20)), p); break;
    }
    case P_UNIT: {
      long double m = ldexpl((long double)(r.next() >> 1), -63);
      putfp(t, sgn(m), p); break;
    }
    case P_CONV: {
      long double m = 1 + ldexpl((long double)(r.next() >> 1), -63);
      if (r.chance(20)) m = 1;
      if (r.chance(20)) m = 2 - ldexpl(1, -mant);
      putfp(t, sgn(ldexpl(m, int(r.below(68)) - 3)), p); break;
    }
    case P_SUBN: {
      gen_fp_bits(r, t, p);
      uint32_t e = r.below(4); // tiny exponents
      if (t == TI_float) { uint32_t u; memcpy(&u, p, 4); u = (u & 0x807fffffu) | (e << 23); memcpy(p, &u, 4); }
      else if (t == TI_double) { uint64_t u; memcpy(&u, p, 8); u = (u & 0x800fffffffffffffull) | (uint64_t(e) << 52); memcpy(p, &u, 8); }
      else { uint64_t m; memcpy(&m, p, 8); uint16_t ee = uint16_t(e | (r.chance(50) ? 0x8000 : 0)); if (e) m |= 1ull << 63; else m &= ~(1ull << 63); memcpy(p, &m, 8); memcpy((char*)p + 8, &ee, 2); }
      break;
    }
  }
  quieten(t, p);
}
inline void gen_lane(Rng& r, int t, int prof, void* p)
{
  if (t == TI_bool) { *(unsigned char*)p = r.below(2); return; }
  if (tfloat(t)) gen_fp(r, t, prof, p); else gen_int(r, t, prof, p);
}
inline std::string lane_str(int t, const void* p)
{
  char b[80];
  if (t == TI_bool) return *(const unsigned char*)p == 1 ? "true" : *(const unsigned char*)p == 0 ? "false" : "bad-bool";
  if (tfloat(t)) {
    if (t == TI_float) { float f; memcpy(&f, p, 4); snprintf(b, sizeof b, "%a", double(f)); }
    else if (t == TI_double) { double f; memcpy(&f, p, 8); snprintf(b, sizeof b, "%a", f); }
    else snprintf(b, sizeof b, "%La", getfp(t, p));
  }
  else if (tsigned(t)) snprintf(b, sizeof b, "%lld", (long long)getint(t, p));
  else snprintf(b, sizeof b, "%llu", (unsigned long long)getint(t, p));
  return b;
}
