// Property-based testing driver: runs the kernels of one library against the oracles.
#include <dlfcn.h>
#include <fcntl.h>
#include <fenv.h>
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <algorithm>
#include <deque>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>
#include "gen.h"
#include "oracle.h"
using namespace vo;
thread_local int vo::wn = 0;
thread_local int vo::wa[MAXARGS];
struct OList { const OEntry* e; int n; };
extern OList oracle_lists[];
extern const int oracle_list_count;

static std::map<std::string, const OEntry*> omap;
static std::string okey(const char* op, int T, int U) { return std::string(op) + "/" + std::to_string(T) + "/" + std::to_string(U); }

// ---------------------------------------------------------------- memory
constexpr size_t PG = 4096, MEMSZ = 2 * PG;
struct MemArea { unsigned char* base; }; // RW area of MEMSZ bytes between two inaccessible pages
static MemArea mem_areas[MAXARGS];
static unsigned char* reg_arena[MAXARGS];
static void init_areas()
{
  for (auto& m : mem_areas) {
    auto p = (unsigned char*)mmap(nullptr, MEMSZ + 4 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(p + 2 * PG, MEMSZ, PROT_READ | PROT_WRITE);
    m.base = p + 2 * PG;
  }
  for (auto& r : reg_arena) r = (unsigned char*)aligned_alloc(PG, 4 * PG);
}
// ---------------------------------------------------------------- faults
static sigjmp_buf jb;
static volatile sig_atomic_t in_kernel = 0;
static volatile int last_sig;
static void on_sig(int s)
{
  if (in_kernel) { last_sig = s; in_kernel = 0; siglongjmp(jb, 1); }
  if (s == SIGALRM) return;
  signal(s, SIG_DFL); raise(s);
}
static int call_kernel(void (*fn)(void* const*), void* const* p)
{
  if (sigsetjmp(jb, 1)) { feenableexcept(0); return last_sig; }
  in_kernel = 1;
  fn(p);
  in_kernel = 0;
  return 0;
}
static void arm_timer() { struct itimerval it = {{2, 0}, {2, 0}}; setitimer(ITIMER_VIRTUAL, &it, nullptr); }
// A kernel that loops forever is noticed by two consecutive ticks inside one call.
static volatile uint64_t call_no, tick_call;
static void on_tick(int)
{
  if (in_kernel && tick_call == call_no) { last_sig = SIGVTALRM; in_kernel = 0; siglongjmp(jb, 1); }
  tick_call = call_no;
}
// ---------------------------------------------------------------- cases
struct ArgVal {
  std::vector<unsigned char> lanes; // n * tsize
  int route = 0;                    // REG
  int place = 0;                    // MEM: 0 middle, 1 end at the guard page, 2 start at the guard page
  int off = 0;                      // MEM middle: offset in units of the alignment
};
struct Case { std::vector<ArgVal> a; uint64_t garbage = 0; int gkind = 0; int rmode = 0; int rroute = 0; };
struct Outcome {
  bool defined = true, bad = false;
  std::string why;
  std::vector<std::vector<unsigned char>> want, got;
};
static bool opt_fenv = false;
static int max_fail_per_kernel = 1;

static void fill_garbage(unsigned char* p, size_t n, const Case& c, uint64_t salt)
{
  switch (c.gkind) {
    case 0: memset(p, 0xff, n); return;
    case 1: memset(p, 0, n); return;
    case 3: { // signalling NaNs / alternating values
      static const uint32_t w[] = {0x7fa00000u, 0x7ff40000u, 0x7f800001u, 0x00000001u, 0x80000000u};
      uint32_t x = w[(c.garbage + salt) % 5];
      if (opt_fenv) { // no signalling NaNs; zeros, infinities and quiet NaNs instead
	static const uint32_t wq[] = {0, 0x7fe00000u, 0x7f800000u, 0x7ff00000u, 0x80000000u};
	x = wq[(c.garbage + salt) % 5];
	for (size_t i = 0; i + 4 <= n; i += 4) memcpy(p + i, i % 8 == 0 && x == 0x7ff00000u ? &wq[0] : &x, 4);
	return;
      }
      for (size_t i = 0; i + 4 <= n; i += 4) memcpy(p + i, &x, 4);
      return;
    }
    default: { Rng g(c.garbage + salt); for (size_t i = 0; i < n; ++i) p[i] = uint8_t(g.next());
      if (opt_fenv) // random but no signalling NaN, neither as float nor as double
	for (size_t i = 0; i + 4 <= n; i += 4) { p[i + 2] &= 0x77; p[i + 3] &= 0xbf; }
    }
  }
}
static const int rmodes[] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO};

// evaluates the oracle; fills want (copies of all args, inout modified). false: undefined
static bool eval_oracle(const Kernel& k, const OEntry& o, const Case& c, std::vector<std::vector<unsigned char>>& want, std::vector<char>* lanedef, int* flags = nullptr)
{
  want.resize(k.nargs);
  for (int i = 0; i < k.nargs; ++i) want[i] = c.a[i].lanes;
  void* p[MAXARGS];
  if (c.rmode) fesetround(rmodes[c.rmode]);
  if (flags) feclearexcept(FE_ALL_EXCEPT);
  bool ok = true;
  alignas(16) unsigned char tmp[MAXARGS][16];
  if (o.whole) {
    for (int i = 0; i < k.nargs; ++i) p[i] = want[i].data();
    wn = 1;
    for (int i = 0; i < k.nargs; ++i) wa[i] = k.args[i].n;
    for (int i = 0; i < k.nargs; ++i) if (k.args[i].kind == AK_REG) { wn = k.args[i].n; break; }
    ok = o.fn(p);
  } else {
    int n = 1;
    for (int i = 0; i < k.nargs; ++i) if (k.args[i].kind != AK_SCALAR) { n = k.args[i].n; break; }
    if (lanedef) lanedef->assign(n, 1);
    for (int l = 0; l < n; ++l) {
      for (int i = 0; i < k.nargs; ++i) {
	size_t s = tsize(k.args[i].type);
	memcpy(tmp[i], want[i].data() + (k.args[i].n == n && k.args[i].kind != AK_SCALAR ? l * s : 0), s);
	p[i] = tmp[i];
      }
      bool d = o.fn(p);
      if (!d) { ok = false; if (lanedef) (*lanedef)[l] = 0; else break; }
      else
	for (int i = 0; i < k.nargs; ++i)
	  if (k.args[i].dir == AD_INOUT) {
	    size_t s = tsize(k.args[i].type);
	    memcpy(want[i].data() + (k.args[i].n == n ? l * s : 0), tmp[i], s);
	  }
    }
  }
  if (flags) *flags = fetestexcept(FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW);
  if (c.rmode) fesetround(FE_TONEAREST);
  return ok;
}
static bool lane_equal(int t, const void* g, const void* w, uint32_t attr)
{
  if (memcmp(g, w, tcmpsize(t)) == 0) return true;
  if (tfloat(t)) {
    if (isnan_bits(t, g) && isnan_bits(t, w)) return true;
    if ((attr & AT_ZEQ) && getfp(t, g) == 0 && getfp(t, w) == 0) return true;
  }
  return false;
}
static unsigned char* place_mem(const Arg& a, const ArgVal& v, const unsigned char* sel, int area)
{
  // sel: per lane accessibility requirement (nullptr: all)
  size_t s = tsize(a.type), n = a.n;
  unsigned char* b = mem_areas[area].base;
  size_t al = a.align;
  if (v.place == 1) {
    int skip = 0;
    if (sel) while (skip < int(n) && !sel[n - 1 - skip]) ++skip; // only elements up to the last selected one exist
    uintptr_t x = uintptr_t(b) + MEMSZ - (n - skip) * s;
    return (unsigned char*)(x & ~uintptr_t(al - 1));
  }
  if (v.place == 2) {
    // elements before the first selected one exist unless nothing is selected
    uintptr_t x = uintptr_t(b);
    return (unsigned char*)((x + al - 1) & ~uintptr_t(al - 1));
  }
  uintptr_t x = uintptr_t(b) + PG - 512 + v.off * al;
  return (unsigned char*)(x & ~uintptr_t(al - 1));
}
static const unsigned char* mask_sel(const Kernel& k, const Case& c)
{ // for memory operations: the mask argument tells which elements must be accessible
  for (int i = 0; i < k.nargs; ++i) if (k.args[i].kind == AK_REG && k.args[i].type == TI_bool && k.args[i].dir == AD_IN && k.args[i].rc->mask) return c.a[i].lanes.data();
  return nullptr;
}
static bool is_masked_mem(const Kernel& k) { return strncmp(k.op, "msk_", 4) == 0; }

static Outcome run_case(const Kernel& k, const OEntry& o, const Case& c)
{
  Outcome r;
  int oflags = 0;
  if (!eval_oracle(k, o, c, r.want, nullptr, opt_fenv ? &oflags : nullptr)) { r.defined = false; return r; }
  if (o.attr & AT_FINITE)
    for (int i = 0; i < k.nargs; ++i)
      if (tfloat(k.args[i].type))
	for (int l = 0; l < k.args[i].n; ++l) { double f = (double)getfp(k.args[i].type, r.want[i].data() + l * tsize(k.args[i].type)); if (!std::isfinite(f)) { r.defined = false; return r; } }
  void* p[MAXARGS];
  const unsigned char* sel = is_masked_mem(k) ? mask_sel(k, c) : nullptr;
  std::vector<unsigned char> memexp[MAXARGS];
  for (int i = 0; i < k.nargs; ++i) {
    const Arg& a = k.args[i];
    if (a.kind == AK_REG) {
      unsigned char* q = reg_arena[i] + 256;
      fill_garbage(reg_arena[i], 256 + a.rc->size + 64, c, i);
      p[i] = q;
    } else if (a.kind == AK_SCALAR) {
      p[i] = reg_arena[i] + 256;
      memcpy(p[i], c.a[i].lanes.data(), tsize(a.type));
    } else {
      fill_garbage(mem_areas[i].base, MEMSZ, c, 100 + i);
      unsigned char* q = place_mem(a, c.a[i], sel, i);
      size_t s = tsize(a.type);
      memexp[i].assign(mem_areas[i].base, mem_areas[i].base + MEMSZ);
      for (int l = 0; l < a.n; ++l) {
	unsigned char* e = q + l * s;
	if (e < mem_areas[i].base || e + s > mem_areas[i].base + MEMSZ) continue;
	memcpy(e, c.a[i].lanes.data() + l * s, tcmpsize(a.type));
	size_t offs = e - mem_areas[i].base;
	memcpy(&memexp[i][offs], e, s);
	bool changed = memcmp(c.a[i].lanes.data() + l * s, r.want[i].data() + l * s, tcmpsize(a.type)) != 0;
	if (changed || (a.dir == AD_INOUT && (!sel || sel[l]))) memcpy(&memexp[i][offs], r.want[i].data() + l * s, tcmpsize(a.type));
      }
      p[i] = q;
    }
  }
  ++call_no;
  // make registers
  struct MK { const RegClass* rc; int route; const void* l; void* r; };
  static const Kernel* kk; static const Case* cc; static void* const* pp;
  kk = &k; cc = &c; pp = p;
  int sig = call_kernel([](void* const*) {
    for (int i = 0; i < kk->nargs; ++i)
      if (kk->args[i].kind == AK_REG) kk->args[i].rc->make(cc->a[i].route, cc->a[i].lanes.data(), pp[i]);
  }, p);
  if (sig) { r.bad = true; r.why = std::string("signal ") + std::to_string(sig) + " while constructing operands"; return r; }
  unsigned char inreg[MAXARGS][1024];
  for (int i = 0; i < k.nargs; ++i)
    if (k.args[i].kind == AK_REG && k.args[i].dir == AD_IN && k.args[i].rc->size <= 1024) memcpy(inreg[i], p[i], k.args[i].rc->size);
  ++call_no;
  if (c.rmode) fesetround(rmodes[c.rmode]);
  if (opt_fenv) feclearexcept(FE_ALL_EXCEPT);
  sig = call_kernel(k.fn, p);
  int kflags = opt_fenv ? fetestexcept(FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW) : 0;
  if (c.rmode) fesetround(FE_TONEAREST);
  if (sig) { r.bad = true; r.why = std::string("signal ") + std::to_string(sig) + (sig == SIGVTALRM ? " (does not terminate)" : sig == SIGFPE ? " (SIGFPE)" : sig == SIGSEGV ? " (SIGSEGV)" : ""); return r; }
  if (opt_fenv && (kflags & ~oflags)) {
    r.bad = true;
    r.why = "raised";
    if (kflags & ~oflags & FE_INVALID) r.why += " FE_INVALID";
    if (kflags & ~oflags & FE_DIVBYZERO) r.why += " FE_DIVBYZERO";
    if (kflags & ~oflags & FE_OVERFLOW) r.why += " FE_OVERFLOW";
    r.why += " though no element's scalar operation does";
    return r;
  }
  r.got.resize(k.nargs);
  for (int i = 0; i < k.nargs; ++i) {
    const Arg& a = k.args[i];
    r.got[i] = c.a[i].lanes;
    if (a.kind == AK_REG) {
      if (a.dir == AD_IN) {
	if (a.rc->size <= 1024 && memcmp(inreg[i], p[i], a.rc->size)) { r.bad = true; r.why = "const operand " + std::to_string(i) + " modified"; return r; }
	continue;
      }
      static const RegClass* rc; static int rr; static void* src; static void* dst;
      rc = a.rc; rr = c.rroute; src = p[i]; dst = r.got[i].data();
      ++call_no;
      sig = call_kernel([](void* const*) { rc->read(rr, src, dst); }, p);
      if (sig) { r.bad = true; r.why = "signal " + std::to_string(sig) + " while reading the result"; return r; }
      // storage after the object must be untouched
      unsigned char ref[64];
      fill_garbage(ref, 64, c, i);
    } else if (a.kind == AK_SCALAR) {
      if (a.dir == AD_INOUT) memcpy(r.got[i].data(), p[i], tsize(a.type));
    } else {
      unsigned char* q = (unsigned char*)p[i];
      unsigned char* base = mem_areas[i].base;
      size_t s = tsize(a.type);
      bool isf = tfloat(a.type);
      for (int l = 0; l < a.n; ++l) {
	unsigned char* e = q + l * s;
	if (e < base || e + s > base + MEMSZ) continue;
	memcpy(r.got[i].data() + l * s, e, tcmpsize(a.type));
	size_t offs = e - base;
	if (isf && lane_equal(a.type, e, &memexp[i][offs], o.attr)) memcpy(&memexp[i][offs], e, tcmpsize(a.type));
	if (a.type == TI_ldouble && a.dir == AD_INOUT) memcpy(&memexp[i][offs + 10], e + 10, 6); // padding bytes
      }
      if (memcmp(base, memexp[i].data(), MEMSZ)) {
	size_t d = 0;
	while (base[d] == memexp[i][d]) ++d;
	long rel = long(base + d - q);
	r.bad = true;
	r.why = "memory operand " + std::to_string(i) + ": byte " + std::to_string(rel) + " relative to the array (of " + std::to_string(a.n * s) + " bytes) has an unexpected value";
      }
    }
  }
  int n = 1;
  for (int i = 0; i < k.nargs; ++i) if (k.args[i].kind != AK_SCALAR) { n = k.args[i].n; break; }
  for (int i = 0; i < k.nargs && !r.bad; ++i) {
    const Arg& a = k.args[i];
    if (a.dir != AD_INOUT || a.kind == AK_MEM) continue;
    size_t s = tsize(a.type);
    for (int l = 0; l < a.n; ++l) {
      bool eq;
      if ((o.attr & AT_CUSTOM) && o.cmp) {
	void* in[MAXARGS];
	for (int j = 0; j < k.nargs; ++j) in[j] = (void*)(c.a[j].lanes.data() + (k.args[j].n == n && k.args[j].kind != AK_SCALAR ? l * tsize(k.args[j].type) : 0));
	eq = o.cmp(i, r.got[i].data() + l * s, r.want[i].data() + l * s, in);
      }
      else eq = lane_equal(a.type, r.got[i].data() + l * s, r.want[i].data() + l * s, o.attr | (c.rmode ? AT_ZEQ : 0));
      if (!eq) {
	r.bad = true;
	r.why = "result " + std::to_string(i) + " element " + std::to_string(l) + ": got " + lane_str(a.type, r.got[i].data() + l * s) + ", expected " + lane_str(a.type, r.want[i].data() + l * s);
	break;
      }
    }
  }
  return r;
}

static void gen_mask(Rng& r, std::vector<unsigned char>& v)
{
  size_t n = v.size();
  switch (r.below(8)) {
    case 0: std::fill(v.begin(), v.end(), 0); break;
    case 1: std::fill(v.begin(), v.end(), 1); break;
    case 2: std::fill(v.begin(), v.end(), 0); v[r.below(n)] = 1; break;
    case 3: std::fill(v.begin(), v.end(), 1); v[r.below(n)] = 0; break;
    case 4: { size_t k = r.below(n + 1); for (size_t i = 0; i < n; ++i) v[i] = i < k; break; }
    case 5: { size_t k = r.below(n + 1); for (size_t i = 0; i < n; ++i) v[i] = i >= k; break; }
    default: for (auto& x : v) x = r.below(2);
  }
}
static int pick_prof(Rng& r, int t, uint32_t attr)
{
  if (attr & AT_EXACTFOLD) return r.chance(50) ? P_TINY : P_SMALL;
  if (tfloat(t)) {
    if (attr & AT_FINITE) { static const int q[] = {P_SMALL, P_MODERATE, P_UNIT, P_TINY}; return q[r.below(4)]; }
    if (attr & AT_CONVINT) { static const int q[] = {P_CONV, P_CONV, P_HALF, P_SMALL, P_MODERATE, P_SPECIAL}; return q[r.below(6)]; }
    if (attr & AT_TRIG) { static const int q[] = {P_TRIG, P_TRIG, P_TRIG, P_UNIT, P_MIX, P_SPECIAL, P_MODERATE, P_SUBN}; return q[r.below(8)]; }
    if (attr & AT_MODERATE) { static const int q[] = {P_MODERATE, P_MODERATE, P_UNIT, P_SMALL, P_CONV, P_MIX, P_HALF}; return q[r.below(7)]; }
    if (attr & AT_UNIT) { static const int q[] = {P_UNIT, P_UNIT, P_UNIT, P_SMALL, P_MODERATE, P_SPECIAL}; return q[r.below(6)]; }
    static const int q[] = {P_MIX, P_MIX, P_MIX, P_UNIFORM, P_SPECIAL, P_SMALL, P_HALF, P_MODERATE, P_SUBN};
    return q[r.below(9)];
  }
  static const int q[] = {P_MIX, P_MIX, P_UNIFORM, P_UNIFORM, P_BOUND, P_SMALL, P_POW2, P_MODERATE};
  return q[r.below(8)];
}
static void gen_shift(Rng& r, int t, int width, void* p)
{
  uint32_t v = r.chance(85) ? r.below(width) : (r.chance(50) ? width - 1 : 8 * r.below(width / 8));
  putint(t, v, p);
}
static void gen_special_attr(Rng& r, const Kernel& k, const OEntry& o, int i, std::vector<unsigned char>& L)
{
  const Arg& a = k.args[i];
  size_t s = tsize(a.type);
  bool last = i == k.nargs - 1;
  if ((o.attr & AT_SHIFT) && last) {
    int width = tsize(k.T) == 8 ? 64 : 32;
    for (int l = 0; l < a.n; ++l) gen_shift(r, a.type, width, &L[l * s]);
    if (r.chance(25)) for (int l = 1; l < a.n; ++l) memcpy(&L[l * s], &L[0], s);
  }
  else if ((o.attr & AT_SMALLEXP) && !tfloat(a.type) && a.type != TI_bool) {
    int lim = r.chance(50) ? 20 : r.chance(50) ? 300 : r.chance(50) ? 3000 : 40000;
    for (int l = 0; l < a.n; ++l) putint(a.type, uint64_t(int64_t(r.below(2 * lim + 1)) - lim), &L[l * s]);
  }
  else if ((o.attr & AT_ORDER) && !tfloat(a.type) && a.type != TI_bool) {
    for (int l = 0; l < a.n; ++l) putint(a.type, r.below(5), &L[l * s]);
  }
}
static bool gen_case(Rng& r, const Kernel& k, const OEntry& o, Case& c)
{
  c.a.assign(k.nargs, {});
  c.garbage = r.next();
  c.gkind = r.below(4);
  c.rmode = (o.attr & AT_ROUNDMODE) && r.chance(50) ? r.below(4) : 0;
  c.rroute = r.chance(20);
  int firstv = -1;
  for (int i = 0; i < k.nargs; ++i) {
    const Arg& a = k.args[i];
    size_t s = tsize(a.type);
    auto& L = c.a[i].lanes;
    L.assign(a.n * s, 0);
    c.a[i].route = r.chance(40) ? 0 : r.chance(70) ? 1 : 2;
    c.a[i].place = r.below(3);
    c.a[i].off = int(r.below(std::max(1u, std::min(64u, unsigned(1024 / k.args[i].align)))));
    if (a.type == TI_bool) { if (a.kind == AK_SCALAR) L[0] = r.below(2); else gen_mask(r, L); continue; }
    int prof = pick_prof(r, a.type, o.attr);
    for (int l = 0; l < a.n; ++l) gen_lane(r, a.type, prof, &L[l * s]);
    gen_special_attr(r, k, o, i, L);
    if (a.kind != AK_SCALAR && r.chance(8)) for (int l = 1; l < a.n; ++l) memcpy(&L[l * s], &L[0], s);
    if (firstv >= 0 && k.args[firstv].type == a.type && a.n == k.args[firstv].n && r.chance(o.attr & AT_CLOSE ? 60 : 15)) {
      auto& F = c.a[firstv].lanes;
      for (int l = 0; l < a.n; ++l) {
	if (r.chance(30)) continue;
	memcpy(&L[l * s], &F[l * s], s);
	switch (r.below(5)) {
	  case 0: if (tfloat(a.type)) L[l * s + tcmpsize(a.type) - 1] ^= 0x80; else putint(a.type, 0 - getint(a.type, &L[l * s]), &L[l * s]); break;
	  case 1: if (!tfloat(a.type)) putint(a.type, getint(a.type, &L[l * s]) + 1, &L[l * s]); else if (a.type != TI_ldouble) L[l * s] ^= 1; break;
	  case 2: if (!tfloat(a.type)) putint(a.type, getint(a.type, &L[l * s]) ^ (1ull << r.below(8 * s)), &L[l * s]); break;
	  default: break;
	}
	if (tfloat(a.type)) quieten(a.type, &L[l * s]);
      }
    }
    if ((o.attr & AT_SHIFT) && i == k.nargs - 1) gen_special_attr(r, k, o, i, L);
    if (o.attr & AT_FINITE || o.attr & AT_NONAN)
      if (tfloat(a.type)) for (int l = 0; l < a.n; ++l) if (isnan_bits(a.type, &L[l * s])) putfp(a.type, 1, &L[l * s]);
    if (a.kind == AK_REG && firstv < 0 && a.dir == AD_IN) firstv = i;
    if (a.kind == AK_REG && firstv < 0 && i + 1 < k.nargs && k.args[i + 1].kind == AK_REG && k.nargs == 2) firstv = i;
  }
  if (o.attr & AT_ORDERED) {
    auto &A = c.a[2].lanes, &B = c.a[3].lanes;
    int t = k.args[2].type; size_t s = tsize(t);
    for (int l = 0; l < k.args[2].n; ++l) {
      bool sw = tfloat(t) ? getfp(t, &A[l * s]) > getfp(t, &B[l * s]) : tsigned(t) ? int64_t(getint(t, &A[l * s])) > int64_t(getint(t, &B[l * s])) : getint(t, &A[l * s]) > getint(t, &B[l * s]);
      if (sw) std::swap_ranges(&A[l * s], &A[l * s] + s, &B[l * s]);
    }
  }
  // make every element defined by construction: regenerate undefined elements, then fall back to 1
  std::vector<std::vector<unsigned char>> want;
  std::vector<char> def;
  static const int back[] = {P_MIX, P_MODERATE, P_CONV, P_MODERATE, P_SMALL, P_CONV, P_SMALL, P_TINY, P_UNIT, P_TINY};
  for (int tries = 0; tries < 14; ++tries) {
    if (eval_oracle(k, o, c, want, &def)) return true;
    int prof = back[tries % 10];
    if (o.whole) {
      for (int i = 0; i < k.nargs; ++i) {
	const Arg& a = k.args[i];
	if (a.type == TI_bool) continue;
	size_t s = tsize(a.type);
	for (int l = 0; l < a.n; ++l) if (tries >= 12) { if (tfloat(a.type)) putfp(a.type, 1, &c.a[i].lanes[l * s]); else putint(a.type, 1, &c.a[i].lanes[l * s]); } else gen_lane(r, a.type, prof, &c.a[i].lanes[l * s]);
	gen_special_attr(r, k, o, i, c.a[i].lanes);
      }
      continue;
    }
    int bad = std::count(def.begin(), def.end(), 0);
    bool rescalar = bad * 2 > int(def.size()) || tries > 6;
    for (int i = 0; i < k.nargs; ++i) {
      const Arg& a = k.args[i];
      if (a.type == TI_bool) continue;
      size_t s = tsize(a.type);
      if (a.kind == AK_SCALAR) {
	if (rescalar && !(o.attr & (AT_SHIFT | AT_SMALLEXP | AT_ORDER))) { if (tries >= 12) { if (tfloat(a.type)) putfp(a.type, 1, c.a[i].lanes.data()); else putint(a.type, 1, c.a[i].lanes.data()); } else gen_lane(r, a.type, prof, c.a[i].lanes.data()); }
	else if (rescalar) gen_special_attr(r, k, o, i, c.a[i].lanes);
	continue;
      }
      bool special = (((o.attr & AT_SHIFT) && i == k.nargs - 1) || ((o.attr & (AT_SMALLEXP | AT_ORDER)) && !tfloat(a.type)));
      for (int l = 0; l < a.n && l < int(def.size()); ++l) {
	if (def[l]) continue;
	if (special) gen_special_attr(r, k, o, i, c.a[i].lanes);
	else if (tries >= 12) { if (tfloat(a.type)) putfp(a.type, 1, &c.a[i].lanes[l * s]); else putint(a.type, 1, &c.a[i].lanes[l * s]); }
	else gen_lane(r, a.type, prof, &c.a[i].lanes[l * s]);
      }
    }
  }
  return eval_oracle(k, o, c, want, nullptr);
}
// ---------------------------------------------------------------- shrinking
static bool fails(const Kernel& k, const OEntry& o, const Case& c) { Outcome r = run_case(k, o, c); return r.defined && r.bad; }
static void shrink(const Kernel& k, const OEntry& o, Case& c)
{
  int budget = 3000;
  auto attempt = [&](Case& t) { if (--budget < 0) return false; if (fails(k, o, t)) { c = t; return true; } return false; };
  { Case t = c; t.rmode = 0; if (c.rmode) attempt(t); }
  { Case t = c; t.rroute = 0; if (c.rroute) attempt(t); }
  { Case t = c; t.gkind = 1; attempt(t); }
  for (int i = 0; i < k.nargs; ++i) {
    { Case t = c; t.a[i].route = 0; if (c.a[i].route) attempt(t); }
    { Case t = c; t.a[i].place = 0; t.a[i].off = 0; attempt(t); }
  }
  for (int round = 0; round < 2; ++round)
    for (int i = 0; i < k.nargs; ++i) {
      const Arg& a = k.args[i];
      size_t s = tsize(a.type);
      { Case t = c; std::fill(t.a[i].lanes.begin(), t.a[i].lanes.end(), 0); attempt(t); }
      for (int l = 0; l < a.n; ++l) {
	unsigned char z[16] = {0}, one[16];
	if (a.type == TI_bool) { memset(one, 0, 16); one[0] = 0; }
	else if (tfloat(a.type)) putfp(a.type, 1, one); else putint(a.type, 1, one);
	if (memcmp(&c.a[i].lanes[l * s], z, tcmpsize(a.type)) == 0) continue;
	Case t = c; memcpy(&t.a[i].lanes[l * s], z, s);
	if (attempt(t)) continue;
	if (memcmp(&c.a[i].lanes[l * s], one, tcmpsize(a.type)) == 0) continue;
	t = c; memcpy(&t.a[i].lanes[l * s], one, s);
	if (attempt(t)) continue;
	if (a.type != TI_bool && !tfloat(a.type)) { // halve magnitude
	  for (int q = 0; q < 8; ++q) {
	    t = c; uint64_t v = getint(a.type, &c.a[i].lanes[l * s]);
	    uint64_t h = tsigned(a.type) ? uint64_t(int64_t(v) / 2) : v / 2;
	    putint(a.type, h, &t.a[i].lanes[l * s]);
	    if (!attempt(t)) break;
	  }
	}
	else if (tfloat(a.type)) {
	  long double v = getfp(a.type, &c.a[i].lanes[l * s]);
	  if (v == v) { t = c; putfp(a.type, truncl(v), &t.a[i].lanes[l * s]); if (memcmp(&t.a[i].lanes[l * s], &c.a[i].lanes[l * s], s)) attempt(t); }
	}
      }
    }
}
// ---------------------------------------------------------------- output
static std::string hex(const std::vector<unsigned char>& v) { std::string r; char b[3]; for (auto x : v) { sprintf(b, "%02x", x); r += b; } return r; }
static std::vector<unsigned char> unhex(const std::string& s) { std::vector<unsigned char> v; for (size_t i = 0; i + 1 < s.size(); i += 2) v.push_back((unsigned char)strtol(s.substr(i, 2).c_str(), nullptr, 16)); return v; }
static std::string esc(const std::string& s) { std::string r; for (char ch : s) { if (ch == '"' || ch == '\\') r += '\\'; r += ch; } return r; }
static std::string lanes_str(int t, int n, const std::vector<unsigned char>& v)
{ std::string r = "["; for (int l = 0; l < n; ++l) { if (l) r += ", "; r += lane_str(t, &v[l * tsize(t)]); } return r + "]"; }
static std::string describe(const Kernel& k, const Case& c)
{
  std::string r;
  for (int i = 0; i < k.nargs; ++i) {
    const Arg& a = k.args[i];
    if (i) r += "; ";
    r += "arg" + std::to_string(i) + "=";
    r += a.kind == AK_SCALAR ? lane_str(a.type, c.a[i].lanes.data()) : lanes_str(a.type, a.n, c.a[i].lanes);
    if (a.kind == AK_MEM) r += c.a[i].place == 1 ? "@end-of-page" : c.a[i].place == 2 ? "@start-of-page" : "";
    if (a.kind == AK_REG && c.a[i].route == 1) r += "(element-wise)";
  }
  if (c.rmode) r += "; rounding=" + std::to_string(c.rmode);
  return r;
}
static std::string case_json(const Case& c)
{
  std::string r = "\"garbage\":\"" + std::to_string(c.garbage) + "\",\"gkind\":" + std::to_string(c.gkind) + ",\"rmode\":" + std::to_string(c.rmode) + ",\"rroute\":" + std::to_string(c.rroute) + ",\"args\":[";
  for (size_t i = 0; i < c.a.size(); ++i) {
    if (i) r += ",";
    r += "{\"hex\":\"" + hex(c.a[i].lanes) + "\",\"route\":" + std::to_string(c.a[i].route) + ",\"place\":" + std::to_string(c.a[i].place) + ",\"off\":" + std::to_string(c.a[i].off) + "}";
  }
  return r + "]";
}
struct Failure { std::string json; };
static std::vector<std::string> failures;
static uint64_t n_eval, n_nontriv, n_discard, n_kernels, n_missing, n_lanes;
static std::vector<std::string> samples;
static std::map<std::string, uint64_t> per_op;

static FILE* status_f;
static void status(const Kernel& k, const char* abi, const Case* c)
{
  if (!status_f) return;
  (void)c;
  char b[256];
  int n = snprintf(b, sizeof b, "%-20s %-10s %-10s %-40s\n", k.op, tname(k.T), tname(k.U), abi);
  pwrite(fileno(status_f), b, n, 0);
}
static bool confirm(const Kernel& k, const OEntry& o, const Case& c) { for (int i = 0; i < 3; ++i) if (!fails(k, o, c)) return false; return true; }
static void report(const Kernel& k, const OEntry& o, const char* abi, const Case& c0)
{
  Case c = c0;
  if (run_case(k, o, c).why.find("does not terminate") == std::string::npos) shrink(k, o, c);
  if (!confirm(k, o, c)) { c = c0; if (!confirm(k, o, c)) { failures.push_back("{\"kind\":\"flaky\",\"op\":\"" + std::string(k.op) + "\"}"); return; } }
  Outcome r = run_case(k, o, c);
  std::string j = "{\"kind\":\"case\",\"op\":\"" + std::string(k.op) + "\",\"T\":\"" + tname(k.T) + "\",\"U\":\"" + tname(k.U) + "\",\"abi\":\"" + abi + "\",\"why\":\"" + esc(r.why) + "\",\"inputs\":\"" + esc(describe(k, c)) + "\"";
  std::string outs;
  for (int i = 0; i < k.nargs; ++i) if (k.args[i].dir == AD_INOUT && r.got.size() == k.nargs) outs += (outs.empty() ? "" : "; ") + std::string("got") + std::to_string(i) + "=" + lanes_str(k.args[i].type, k.args[i].n, r.got[i]) + " want" + std::to_string(i) + "=" + lanes_str(k.args[i].type, k.args[i].n, r.want[i]);
  j += ",\"outputs\":\"" + esc(outs) + "\"," + case_json(c) + "}";
  failures.push_back(j);
}
static const OEntry* find_oracle(const Kernel& k) { auto it = omap.find(okey(k.op, k.T, k.U)); return it == omap.end() ? nullptr : it->second; }

static std::vector<std::string> excl; // op names excluded
static bool op_selected(const char* op, const std::vector<std::string>& only)
{
  if (!only.empty() && std::find(only.begin(), only.end(), op) == only.end()) return false;
  return std::find(excl.begin(), excl.end(), op) == excl.end();
}
static uint32_t attr_or = 0, attr_skip = 0;

static void run_ops(const Lib* lib, uint64_t seed, int cases, const std::vector<std::string>& only)
{
  uint64_t libh = hashs(lib->name, seed * 0x9e3779b97f4a7c15ull + 77);
  for (int t = 0; t < lib->count; ++t)
    for (int ki = 0; ki < lib->t[t].count; ++ki) {
      const Kernel& k = lib->t[t].k[ki];
      if (!k.op || !op_selected(k.op, only)) continue;
      const OEntry* op = find_oracle(k);
      if (!op) { ++n_missing; fprintf(stderr, "no oracle for %s %s %s\n", k.op, tname(k.T), tname(k.U)); continue; }
      if (op->attr & attr_skip) continue;
      OEntry o = *op; o.attr |= attr_or;
      ++n_kernels;
      Rng r(hashs(k.op, hashs(lib->t[t].abi, libh + k.T * 131 + k.U * 17)));
      r.next();
      status(k, lib->t[t].abi, nullptr);
      std::unordered_set<uint64_t> seen;
      int nf = 0;
      uint64_t before = n_eval;
      int maxn = 1;
      for (int i = 0; i < k.nargs; ++i) maxn = std::max<int>(maxn, k.args[i].n);
      int want_cases = cases * (maxn >= 16 ? 1 : maxn >= 4 ? 2 : 3) / 2;
      if (want_cases < 8) want_cases = 8;
      for (int ci = 0; ci < want_cases; ++ci) {
	Case c;
	if (!gen_case(r, k, o, c)) { ++n_discard; continue; }
	Outcome res = run_case(k, o, c);
	if (!res.defined) { ++n_discard; continue; }
	++n_eval;
	n_lanes += maxn;
	// non-trivial: some input lanes differ from each other or from zero, and the case is new
	uint64_t h = 1469598103934665603ull; bool triv = true;
	for (int i = 0; i < k.nargs; ++i) {
	  auto& L = c.a[i].lanes; h = hash64(L.data(), L.size(), h);
	  if (k.args[i].dir == AD_INOUT && k.nargs > 1 && i == 0) continue;
	  for (auto b : L) if (b) { triv = false; break; }
	}
	if (!triv && seen.insert(h).second) ++n_nontriv;
	if (res.bad) {
	  if (nf++ < max_fail_per_kernel) report(k, o, lib->t[t].abi, c);
	  break;
	}
	if (samples.size() < 3 && (h & 1023) == 7) samples.push_back(std::string(k.op) + "<" + tname(k.T) + (k.U ? std::string(",") + tname(k.U) : std::string()) + "," + lib->t[t].abi + "> " + describe(k, c));
      }
      per_op[k.op] += n_eval - before;
    }
}
// ---------------------------------------------------------------- histories
struct Step { int t, k; int reg[MAXARGS]; Case c; bool load = false; int cls = -1, ridx = 0; };
struct HReg { std::vector<unsigned char> lanes; unsigned char* raw; };
struct HState {
  std::vector<const RegClass*> classes;
  std::vector<std::vector<HReg>> regs;
};
constexpr int POOL = 4;
static HState hs;
static bool opt_plan = false;           // histories are written out as programs (vlib/progs.py)
static std::vector<std::string> plans;
static std::vector<std::vector<unsigned char>> rec_in, rec_want;
static bool nan_sign_op(const char* op)
{ return strstr(op, "signbit") || strstr(op, "copysign"); }
static int class_of(const RegClass* rc)
{
  for (size_t i = 0; i < hs.classes.size(); ++i) if (hs.classes[i] == rc) return int(i);
  return -1;
}
static size_t rc_type(const RegClass* rc) { return rc->mask ? size_t(TI_bool) : size_t(rc->type); }
static void hist_init(const Lib* lib)
{
  for (int t = 0; t < lib->count; ++t)
    for (int ki = 0; ki < lib->t[t].count; ++ki) {
      const Kernel& k = lib->t[t].k[ki];
      if (!k.op) continue;
      for (int i = 0; i < k.nargs; ++i)
	if (k.args[i].kind == AK_REG && class_of(k.args[i].rc) < 0) {
	  hs.classes.push_back(k.args[i].rc);
	  hs.regs.emplace_back();
	  for (int j = 0; j < POOL; ++j) {
	    HReg h; h.raw = (unsigned char*)aligned_alloc(256, (k.args[i].rc->size + 511) / 256 * 256);
	    h.lanes.assign(k.args[i].rc->n * tsize(rc_type(k.args[i].rc)), 0);
	    hs.regs.back().push_back(h);
	  }
	}
    }
}
static bool do_load(int cls, int ri, const Case& c, std::string& why)
{
  const RegClass* rc = hs.classes[cls];
  HReg& h = hs.regs[cls][ri];
  static const RegClass* src_; static int route_; static const void* l_; static void* r_;
  if (c.a[0].route) fill_garbage(h.raw, rc->size, c, 3);
  src_ = rc; route_ = c.a[0].route; l_ = c.a[0].lanes.data(); r_ = h.raw;
  ++call_no;
  int sig = call_kernel([](void* const*) { src_->make(route_, l_, r_); }, nullptr);
  h.lanes = c.a[0].lanes;
  if (sig) { why = "signal " + std::to_string(sig) + " in construction"; return false; }
  return true;
}
static bool check_reg(int cls, int ri, int route, uint32_t attr, std::string& why)
{
  const RegClass* rc = hs.classes[cls];
  HReg& h = hs.regs[cls][ri];
  int ty = int(rc_type(rc)); size_t s = tsize(ty);
  static unsigned char* buf = (unsigned char*)aligned_alloc(256, 8192);
  memset(buf, 0x5a, 2048);
  static const RegClass* rc_; static int ro_; static void* raw_;
  rc_ = rc; ro_ = route; raw_ = h.raw;
  ++call_no;
  int sig = call_kernel([](void* const*) { rc_->read(ro_, raw_, buf); }, nullptr);
  if (sig) { why = "signal " + std::to_string(sig) + " reading a variable"; return false; }
  for (int l = 0; l < rc->n; ++l)
    if (!lane_equal(ty, buf + l * s, &h.lanes[l * s], attr)) {
      why = std::string("element ") + std::to_string(l) + " is " + lane_str(ty, buf + l * s) + ", expected " + lane_str(ty, &h.lanes[l * s]);
      return false;
    }
  // adopt the value (NaN payloads, signs of equal zeros)
  if (tfloat(ty) && memcmp(buf, h.lanes.data(), h.lanes.size())) for (int l = 0; l < rc->n; ++l) memcpy(&h.lanes[l * s], buf + l * s, tcmpsize(ty));
  return true;
}
// returns: 0 ok, 1 skipped (undefined), 2 mismatch
static int do_step(const Lib* lib, Step& st, std::string& why)
{
  if (st.load) return do_load(st.cls, st.ridx, st.c, why) ? (check_reg(st.cls, st.ridx, st.c.rroute, 0, why) ? 0 : 2) : 2;
  const Kernel& k = lib->t[st.t].k[st.k];
  const OEntry* o = find_oracle(k);
  Case c = st.c;
  for (int i = 0; i < k.nargs; ++i)
    if (k.args[i].kind == AK_REG) c.a[i].lanes = hs.regs[class_of(k.args[i].rc)][st.reg[i]].lanes;
  std::vector<std::vector<unsigned char>> want;
  if (o->attr & AT_NONAN) // the result for NaN is not specified
    for (int i = 0; i < k.nargs; ++i) {
      int ty = k.args[i].kind == AK_REG ? int(rc_type(k.args[i].rc)) : int(k.args[i].type);
      if (tfloat(ty)) for (size_t l = 0; (l + 1) * tsize(ty) <= c.a[i].lanes.size(); ++l) if (isnan_bits(ty, &c.a[i].lanes[l * tsize(ty)])) return 1;
    }
  if (!eval_oracle(k, *o, c, want, nullptr)) return 1;
  if (opt_plan) {
    for (int i = 0; i < k.nargs; ++i) {
      int ty = k.args[i].kind == AK_REG ? int(rc_type(k.args[i].rc)) : int(k.args[i].type);
      if (!tfloat(ty)) continue;
      size_t sz = tsize(ty);
      for (size_t l = 0; (l + 1) * sz <= want[i].size(); ++l) {
	if ((o->attr & AT_ZEQ) && k.args[i].dir == AD_INOUT && getfp(ty, &want[i][l * sz]) == 0) return 1; // either zero is right: cannot be continued from
	if (nan_sign_op(k.op) && isnan_bits(ty, &c.a[i].lanes[l * sz])) return 1;
      }
    }
    rec_in.assign(k.nargs, {}); for (int i = 0; i < k.nargs; ++i) rec_in[i] = c.a[i].lanes;
    rec_want = want;
  }
  void* p[MAXARGS];
  unsigned char inreg[MAXARGS][1024];
  unsigned char* mbase[MAXARGS] = {};
  const unsigned char* sel = is_masked_mem(k) ? mask_sel(k, c) : nullptr;
  for (int i = 0; i < k.nargs; ++i) {
    const Arg& a = k.args[i];
    if (a.kind == AK_REG) {
      p[i] = hs.regs[class_of(a.rc)][st.reg[i]].raw;
      if (a.dir == AD_IN && a.rc->size <= 1024) memcpy(inreg[i], p[i], a.rc->size);
    } else if (a.kind == AK_SCALAR) {
      p[i] = reg_arena[i] + 256; memcpy(p[i], c.a[i].lanes.data(), tsize(a.type));
    } else {
      unsigned char* q = place_mem(a, c.a[i], sel, i);
      size_t s = tsize(a.type);
      for (int l = 0; l < a.n; ++l) {
	unsigned char* e = q + l * s;
	if (e < mem_areas[i].base || e + s > mem_areas[i].base + MEMSZ) continue;
	memcpy(e, c.a[i].lanes.data() + l * s, s);
      }
      p[i] = q; mbase[i] = q;
    }
  }
  ++call_no;
  int sig = call_kernel(k.fn, p);
  if (sig) { why = "signal " + std::to_string(sig); return 2; }
  for (int i = 0; i < k.nargs; ++i) {
    const Arg& a = k.args[i];
    if (a.kind == AK_REG) {
      if (a.dir == AD_IN) { if (a.rc->size <= 1024 && memcmp(inreg[i], p[i], a.rc->size)) { why = "const operand modified"; return 2; } continue; }
      hs.regs[class_of(a.rc)][st.reg[i]].lanes = want[i];
      if (!check_reg(class_of(a.rc), st.reg[i], st.c.rroute, o->attr, why)) { why = "variable " + std::to_string(st.reg[i]) + " " + why; return 2; }
    } else if (a.dir == AD_INOUT) {
      size_t s = tsize(a.type);
      for (int l = 0; l < a.n; ++l) {
	const unsigned char* e = a.kind == AK_MEM ? mbase[i] + l * s : (unsigned char*)p[i] + l * s;
	if (a.kind == AK_MEM && (e < mem_areas[i].base || e + s > mem_areas[i].base + MEMSZ)) continue;
	if (!lane_equal(a.type, e, &want[i][l * s], o->attr)) { why = "result " + std::to_string(i) + " element " + std::to_string(l) + " is " + lane_str(a.type, e) + ", expected " + lane_str(a.type, &want[i][l * s]); return 2; }
      }
    }
  }
  return 0;
}
static bool hist_reset(std::string& why)
{
  for (size_t c = 0; c < hs.classes.size(); ++c)
    for (int j = 0; j < POOL; ++j) {
      memset(hs.regs[c][j].raw, 0, hs.classes[c]->size);
      Case z; z.a.resize(1); z.gkind = 1;
      z.a[0].lanes.assign(hs.regs[c][j].lanes.size(), 0);
      if (!do_load(int(c), j, z, why)) return false;
    }
  return true;
}
static bool replay_hist(const Lib* lib, std::vector<Step>& steps, size_t& failed_at, std::string& why)
{
  failed_at = 0;
  if (!hist_reset(why)) return true;
  for (size_t i = 0; i < steps.size(); ++i) {
    int r = do_step(lib, steps[i], why);
    if (r == 2) { failed_at = i; return true; }
  }
  // every variable still holds its value
  for (size_t c = 0; c < hs.classes.size(); ++c)
    for (int j = 0; j < POOL; ++j)
      if (!check_reg(int(c), j, 1, 0, why)) { why = "at the end: variable of class " + std::to_string(c) + " " + why; failed_at = steps.size() - 1; return true; }
  return false;
}
static std::string step_str(const Lib* lib, const Step& s)
{
  if (s.load) { const RegClass* rc = hs.classes[s.cls]; return std::string(rc->mask ? "m" : "v") + "<" + tname(rc->type) + "," + std::to_string(rc->n) + ">#" + std::to_string(s.ridx) + (s.c.a[0].route == 1 ? " =(element-wise) " : " = ") + lanes_str(int(rc_type(rc)), rc->n, s.c.a[0].lanes); }
  const Kernel& k = lib->t[s.t].k[s.k];
  std::string r = std::string(k.op) + "<" + tname(k.T) + (k.U ? std::string(",") + tname(k.U) : "") + "," + lib->t[s.t].abi + ">(";
  for (int i = 0; i < k.nargs; ++i) {
    const Arg& a = k.args[i];
    if (i) r += ", ";
    if (a.kind == AK_REG) r += std::string(a.rc->mask ? "m" : "v") + "<" + tname(a.rc->type) + "," + std::to_string(a.rc->n) + ">#" + std::to_string(s.reg[i]);
    else r += lanes_str(a.type, a.n, s.c.a[i].lanes);
  }
  return r + ")";
}
static Step load_step(Rng& r, int cls, int ri)
{
  Step s; s.load = true; s.t = s.k = 0; memset(s.reg, 0, sizeof s.reg); s.cls = cls; s.ridx = ri;
  const RegClass* rc = hs.classes[cls];
  s.c.a.resize(1);
  int ty = int(rc_type(rc));
  auto& L = s.c.a[0].lanes;
  L.assign(rc->n * tsize(ty), 0);
  if (rc->mask) gen_mask(r, L);
  else { int prof = pick_prof(r, ty, r.chance(50) ? AT_EXACTFOLD : 0); for (int l = 0; l < rc->n; ++l) gen_lane(r, ty, prof, &L[l * tsize(ty)]); }
  s.c.a[0].route = r.below(3);
  s.c.garbage = r.next(); s.c.gkind = r.below(4); s.c.rroute = r.below(2);
  return s;
}
static std::string plan_json(const Lib* lib, std::vector<Step>& steps)
{
  std::string why, j = "[";
  if (!hist_reset(why)) return "";
  bool first = true;
  for (auto& s : steps) {
    if (do_step(lib, s, why)) return ""; // not reproducible
    if (!first) j += ",";
    first = false;
    if (s.load) {
      j += "{\"load\":1,\"cls\":" + std::to_string(s.cls) + ",\"ridx\":" + std::to_string(s.ridx) + ",\"lanes\":\"" + hex(s.c.a[0].lanes) + "\"}";
      continue;
    }
    const Kernel& k = lib->t[s.t].k[s.k];
    j += "{\"load\":0,\"t\":" + std::to_string(s.t) + ",\"op\":\"" + k.op + "\",\"attr\":" + std::to_string(find_oracle(k)->attr) + ",\"text\":\"" + esc(step_str(lib, s)) + "\",\"args\":[";
    for (int i = 0; i < k.nargs; ++i) {
      const Arg& a = k.args[i];
      int cls = a.kind == AK_REG ? class_of(a.rc) : -1;
      const auto& w = a.dir != AD_INOUT ? rec_want[i] : cls >= 0 ? hs.regs[cls][s.reg[i]].lanes : rec_want[i];
      j += std::string(i ? "," : "") + "{\"kind\":" + std::to_string(a.kind) + ",\"inout\":" + (a.dir == AD_INOUT ? "1" : "0") + ",\"cls\":" + std::to_string(cls) + ",\"ridx\":" + std::to_string(s.reg[i])
	+ ",\"ty\":\"" + tname(a.kind == AK_REG ? int(rc_type(a.rc)) : int(a.type)) + "\",\"n\":" + std::to_string(a.kind == AK_REG ? a.rc->n : a.n) + ",\"align\":" + std::to_string(a.align)
	+ ",\"in\":\"" + hex(rec_in[i]) + "\",\"want\":\"" + (a.dir == AD_INOUT ? hex(w) : "") + "\"}";
    }
    j += "]}";
  }
  return j + "]";
}
static std::string classes_json(const Lib* lib)
{
  std::string j = "[";
  for (size_t c = 0; c < hs.classes.size(); ++c)
    [&] {
      for (int t = 0; t < lib->count; ++t)
	for (int ki = 0; ki < lib->t[t].count; ++ki) {
	  const Kernel& k = lib->t[t].k[ki];
	  if (!k.op) continue;
	  for (int i = 0; i < k.nargs; ++i)
	    if (k.args[i].kind == AK_REG && k.args[i].rc == hs.classes[c]) {
	      j += std::string(c ? "," : "") + "{\"t\":" + std::to_string(t) + ",\"op\":\"" + k.op + "\",\"arg\":" + std::to_string(i) + ",\"ty\":\"" + tname(int(rc_type(hs.classes[c]))) + "\",\"elem\":\"" + tname(hs.classes[c]->type) + "\",\"n\":" + std::to_string(hs.classes[c]->n) + ",\"mask\":" + std::to_string(hs.classes[c]->mask) + "}";
	      return;
	    }
	}
    }();
  return j + "]";
}
static std::string steps_json(const Lib* lib, const std::vector<Step>& steps)
{
  std::string j = "[";
  for (size_t i = 0; i < steps.size(); ++i) {
    auto& s = steps[i];
    if (i) j += ",";
    j += std::string("{\"load\":") + (s.load ? "1" : "0") + ",\"cls\":" + std::to_string(s.cls) + ",\"ridx\":" + std::to_string(s.ridx) + ",\"t\":" + std::to_string(s.t) + ",\"k\":" + std::to_string(s.k) + ",\"reg\":[";
    for (int q = 0; q < MAXARGS; ++q) j += (q ? "," : "") + std::to_string(s.reg[q]);
    j += "]," + case_json(s.c) + "}";
  }
  (void)lib;
  return j + "]";
}
static void run_hist(const Lib* lib, uint64_t seed, int nhist, int maxlen)
{
  hist_init(lib);
  struct KR { int t, k; };
  std::vector<KR> ks;
  for (int t = 0; t < lib->count; ++t)
    for (int ki = 0; ki < lib->t[t].count; ++ki) {
      const Kernel& k = lib->t[t].k[ki];
      if (!k.op || !op_selected(k.op, {})) continue;
      const OEntry* o = find_oracle(k);
      if (!o) { ++n_missing; fprintf(stderr, "no oracle for %s\n", k.op); continue; }
      if (o->attr & (AT_HISTORY_SKIP | AT_CUSTOM | AT_ORDERED)) continue;
      ks.push_back({t, ki}); ++n_kernels;
    }
  if (ks.empty()) return;
  uint64_t libh = hashs(lib->name, seed * 0x9e3779b97f4a7c15ull + 99);
  std::unordered_set<uint64_t> seen;
  for (int hN = 0; hN < nhist; ++hN) {
    Rng r(libh + uint64_t(hN) * 0x2545f4914f6cdd1dull); r.next();
    std::vector<Step> steps;
    std::string why;
    bool bad = false;
    // focus on few classes so that operations compose
    for (size_t c = 0; c < hs.classes.size() && !bad; ++c)
      for (int j = 0; j < POOL && !bad; ++j) { steps.push_back(load_step(r, int(c), j)); bad = do_step(lib, steps.back(), why) == 2; }
    size_t base = steps.size();
    int len = 3 + r.below(maxlen - 2);
    int done = 0; uint64_t hh = 1; size_t distinct_ops = 0; std::unordered_set<int> ops;
    // restrict to one table most of the time
    int focus = r.chance(opt_plan ? 35 : 70) ? int(r.below(lib->count)) : -1;
    std::vector<KR> cand;
    for (auto& q : ks) if (focus < 0 || q.t == focus) cand.push_back(q);
    if (cand.empty()) cand = ks;
    for (int tries = 0; !bad && done < len && tries < len * 20; ++tries) {
      if (r.chance(6)) { Step s = load_step(r, int(r.below(hs.classes.size())), int(r.below(POOL))); steps.push_back(s); bad = do_step(lib, steps.back(), why) == 2; continue; }
      KR q = cand[r.below(cand.size())];
      const Kernel& k = lib->t[q.t].k[q.k];
      const OEntry* o = find_oracle(k);
      Step s; s.t = q.t; s.k = q.k;
      memset(s.reg, 0, sizeof s.reg);
      if (!gen_case(r, k, *o, s.c)) continue; // scalars and memory contents
      s.c.rmode = 0;
      // registers: distinct for in-out operands of the same class
      for (int i = 0; i < k.nargs; ++i) {
	if (k.args[i].kind != AK_REG) continue;
	for (int z = 0; z < 20; ++z) {
	  s.reg[i] = r.below(POOL);
	  bool clash = false;
	  for (int j = 0; j < i; ++j) if (k.args[j].kind == AK_REG && k.args[j].rc == k.args[i].rc && s.reg[j] == s.reg[i] && (k.args[i].dir == AD_INOUT || k.args[j].dir == AD_INOUT)) clash = true;
	  if (!clash) break;
	  s.reg[i] = -1;
	}
	if (s.reg[i] < 0) { // pick any free one
	  for (int v = 0; v < POOL; ++v) { bool clash = false; for (int j = 0; j < i; ++j) if (k.args[j].kind == AK_REG && k.args[j].rc == k.args[i].rc && s.reg[j] == v) clash = true; if (!clash) { s.reg[i] = v; break; } }
	  if (s.reg[i] < 0) s.reg[i] = 0;
	}
      }
      bool usable = true;
      for (int i = 0; i < k.nargs; ++i) for (int j = 0; j < i; ++j)
	if (k.args[j].kind == AK_REG && k.args[i].kind == AK_REG && k.args[j].rc == k.args[i].rc && s.reg[j] == s.reg[i] && (k.args[i].dir == AD_INOUT || k.args[j].dir == AD_INOUT)) usable = false;
      if (!usable) continue;
      // operands with a constrained domain (shift counts, ...) get fresh values as an explicit load step
      if (o->attr & (AT_SHIFT | AT_SMALLEXP | AT_EXACTFOLD)) {
	for (int i = 0; i < k.nargs; ++i)
	  if (k.args[i].kind == AK_REG && (k.args[i].dir == AD_IN) && !k.args[i].rc->mask && ((o->attr & AT_EXACTFOLD) || i == k.nargs - 1)) {
	    if ((o->attr & AT_EXACTFOLD) && !tfloat(k.T) && r.chance(80)) continue;
	    Step ls = load_step(r, class_of(k.args[i].rc), s.reg[i]);
	    ls.c.a[0].lanes = s.c.a[i].lanes;
	    steps.push_back(ls);
	    if (do_step(lib, steps.back(), why) == 2) bad = true;
	  }
	if (bad) break;
      }
      for (int i = 0; i < k.nargs; ++i) if (k.args[i].kind == AK_REG) s.c.a[i].lanes.clear();
      status(k, lib->t[q.t].abi, nullptr);
      steps.push_back(s);
      int res = do_step(lib, steps.back(), why);
      if (res == 1) { steps.pop_back(); continue; }
      ++done; ++n_lanes;
      hh = hash64(&q, sizeof q, hh); ops.insert(q.t * 1000 + q.k);
      if (res == 2) bad = true;
    }
    (void)base; distinct_ops = ops.size();
    if (opt_plan && !bad && done) { std::string pj = plan_json(lib, steps); if (!pj.empty()) plans.push_back(pj); }
    if (!bad) for (size_t c = 0; c < hs.classes.size() && !bad; ++c) for (int j = 0; j < POOL && !bad; ++j) if (!check_reg(int(c), j, 1, 0, why)) bad = true;
    ++n_eval; per_op["steps"] += done;
    if (distinct_ops >= 3 && seen.insert(hh).second) ++n_nontriv;
    if (samples.size() < 2 && done >= 3 && done <= 8 && !bad) {
      std::string sm; for (size_t i = base; i < steps.size() && sm.size() < 900; ++i) sm += step_str(lib, steps[i]) + "; "; samples.push_back(sm);
    }
    if (bad) {
      size_t at; int budget = 1500;
      auto failsH = [&](std::vector<Step>& v) { std::string w; size_t f; return replay_hist(lib, v, f, w); };
      std::vector<Step> orig = steps;
      bool ok = failsH(steps);
      for (int round = 0; round < 3 && ok; ++round)
	for (int i = int(steps.size()) - 1; i >= 0 && budget > 0; --i) { auto t = steps; t.erase(t.begin() + i); --budget; if (failsH(t)) steps = t; }
      for (size_t i = 0; ok && i < steps.size(); ++i) if (steps[i].load) {
	int ty = int(rc_type(hs.classes[steps[i].cls])); size_t s = tsize(ty);
	{ auto t = steps; t[i].c.a[0].route = 0; if (failsH(t)) steps = t; }
	for (size_t l = 0; l * s < steps[i].c.a[0].lanes.size() && budget > 0; ++l) { auto t = steps; memset(&t[i].c.a[0].lanes[l * s], 0, s); --budget; if (failsH(t)) steps = t; }
      }
      int conf = 0; for (int i = 0; i < 3; ++i) conf += failsH(steps);
      std::string w2; at = 0;
      if (conf == 3) {
	replay_hist(lib, steps, at, w2);
	std::string d; for (auto& s : steps) d += step_str(lib, s) + "; ";
	const Step& fs = steps[std::min(at, steps.size() - 1)];
	const Kernel* fk = fs.load ? nullptr : &lib->t[fs.t].k[fs.k];
	failures.push_back("{\"kind\":\"hist\",\"op\":\"" + std::string(fk ? fk->op : "load") + "\",\"T\":\"" + tname(fk ? fk->T : hs.classes[fs.cls]->type) + "\",\"U\":\"" + tname(fk ? fk->U : 0) + "\",\"abi\":\"" + esc(lib->t[fs.load ? 0 : fs.t].abi) + "\",\"why\":\"" + esc(w2) + "\",\"inputs\":\"" + esc(d) + "\",\"outputs\":\"\",\"steps\":" + steps_json(lib, steps) + "}");
	if (failures.size() > 6) return;
      }
      else failures.push_back("{\"kind\":\"flaky\",\"op\":\"history\"}");
    }
  }
}
// ---------------------------------------------------------------- replay of a single case
// text format: op T U abi garbage gkind rmode rroute nargs then per arg: hex route place off
static int replay_case(const Lib* lib, const char* file)
{
  FILE* f = fopen(file, "r");
  char op[128], T[32], U[32]; char abi[256];
  unsigned long long g; int gk, rm, rr, na;
  if (!f || fscanf(f, "%127s %31s %31s %255s %llu %d %d %d %d", op, T, U, abi, &g, &gk, &rm, &rr, &na) != 9) return 2;
  Case c; c.garbage = g; c.gkind = gk; c.rmode = rm; c.rroute = rr;
  for (int i = 0; i < na; ++i) { static char h[8192]; ArgVal v; if (fscanf(f, "%8191s %d %d %d", h, &v.route, &v.place, &v.off) != 4) return 2; v.lanes = unhex(h); c.a.push_back(v); }
  for (int t = 0; t < lib->count; ++t)
    for (int ki = 0; ki < lib->t[t].count; ++ki) {
      const Kernel& k = lib->t[t].k[ki];
      if (!k.op || strcmp(k.op, op) || strcmp(tname(k.T), T) || strcmp(tname(k.U), U) || strcmp(lib->t[t].abi, abi)) continue;
      Outcome r = run_case(k, *find_oracle(k), c);
      printf("%s<%s,%s> %s\n  %s\n", op, T, abi, describe(k, c).c_str(), r.bad ? ("VIOLATED: " + r.why).c_str() : r.defined ? "held" : "undefined inputs");
      return r.bad ? 1 : 0;
    }
  printf("kernel not found\n");
  return 2;
}
static int replay_hist_file(const Lib* lib, const char* file)
{
  hist_init(lib);
  FILE* f = fopen(file, "r"); int n;
  if (!f || fscanf(f, "%d", &n) != 1) return 2;
  std::vector<Step> steps(n);
  for (auto& s : steps) {
    int ld, na; unsigned long long g;
    if (fscanf(f, "%d %d %d %d %d", &ld, &s.cls, &s.ridx, &s.t, &s.k) != 5) return 2;
    s.load = ld;
    for (int q = 0; q < MAXARGS; ++q) if (fscanf(f, "%d", &s.reg[q]) != 1) return 2;
    if (fscanf(f, "%llu %d %d %d %d", &g, &s.c.gkind, &s.c.rmode, &s.c.rroute, &na) != 5) return 2;
    s.c.garbage = g;
    for (int i = 0; i < na; ++i) { static char h[8192]; ArgVal v; if (fscanf(f, "%8191s %d %d %d", h, &v.route, &v.place, &v.off) != 4) return 2; if (h[0] != '-') v.lanes = unhex(h); s.c.a.push_back(v); }
  }
  size_t at = 0; std::string why;
  bool bad = replay_hist(lib, steps, at, why);
  for (auto& s : steps) printf("  %s\n", step_str(lib, s).c_str());
  printf("%s\n", bad ? ("VIOLATED at step " + std::to_string(at) + ": " + why).c_str() : "held");
  return bad;
}
int main(int argc, char** argv)
{
  std::string so, out = "/dev/stdout", mode = "ops", rep, st;
  uint64_t seed = 1; int cases = 100, maxlen = 24;
  std::vector<std::string> only;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto v = [&] { return std::string(argv[++i]); };
    if (a == "--seed") seed = strtoull(v().c_str(), nullptr, 0);
    else if (a == "--cases") cases = atoi(v().c_str());
    else if (a == "--maxlen") maxlen = atoi(v().c_str());
    else if (a == "--out") out = v();
    else if (a == "--mode") mode = v();
    else if (a == "--only") only.push_back(v());
    else if (a == "--exclude") excl.push_back(v());
    else if (a == "--attr-or") attr_or = strtoul(v().c_str(), nullptr, 0);
    else if (a == "--attr-skip") attr_skip = strtoul(v().c_str(), nullptr, 0);
    else if (a == "--status") st = v();
    else if (a == "--replay") rep = v();
    else so = a;
  }
  if (!st.empty()) status_f = fopen(st.c_str(), "w+");
  opt_fenv = mode == "fenv";
  for (int i = 0; i < oracle_list_count; ++i)
    for (int j = 0; j < oracle_lists[i].n; ++j) { auto& e = oracle_lists[i].e[j]; if (e.op) omap[okey(e.op, e.T, e.U)] = &e; }
  init_areas();
  struct sigaction sa = {}; sa.sa_handler = on_sig; sa.sa_flags = SA_NODEFER | SA_ONSTACK;
  static unsigned char stk[1 << 16];
  stack_t ss = {}; ss.ss_sp = stk; ss.ss_size = sizeof stk; sigaltstack(&ss, nullptr);
  for (int s : {SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGABRT, SIGTRAP}) sigaction(s, &sa, nullptr);
  sa.sa_handler = on_tick; sigaction(SIGVTALRM, &sa, nullptr);
  void* h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "%s\n", dlerror()); return 3; }
  auto get = (const Lib* (*)())dlsym(h, "vk_lib");
  const Lib* lib = get();
  arm_timer();
  if (!rep.empty()) return mode == "hist" ? replay_hist_file(lib, rep.c_str()) : replay_case(lib, rep.c_str());
  opt_plan = mode == "plan";
  if (mode == "hist" || opt_plan) run_hist(lib, seed, cases, maxlen);
  else run_ops(lib, seed, cases, only);
  FILE* f = fopen(out.c_str(), "w");
  fprintf(f, "{\"evaluations\":%llu,\"nontrivial\":%llu,\"discarded\":%llu,\"kernels\":%llu,\"missing\":%llu,\"elements\":%llu,\"per_op\":{", (unsigned long long)n_eval, (unsigned long long)n_nontriv, (unsigned long long)n_discard, (unsigned long long)n_kernels, (unsigned long long)n_missing, (unsigned long long)n_lanes);
  bool first = true;
  for (auto& q : per_op) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", q.first.c_str(), (unsigned long long)q.second); first = false; }
  fprintf(f, "},\"samples\":[");
  for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", esc(samples[i]).c_str());
  fprintf(f, "],\"failures\":[");
  for (size_t i = 0; i < failures.size(); ++i) fprintf(f, "%s%s", i ? "," : "", failures[i].c_str());
  fprintf(f, "]");
  if (opt_plan) {
    fprintf(f, ",\"classes\":%s,\"plans\":[", classes_json(lib).c_str());
    for (size_t i = 0; i < plans.size(); ++i) fprintf(f, "%s%s", i ? ",\n" : "", plans[i].c_str());
    fprintf(f, "]");
  }
  fprintf(f, "}\n");
  fclose(f);
  return 0;
}
