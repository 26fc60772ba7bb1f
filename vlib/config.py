"""Instruction-set configurations, element types and ABI tags under test."""
import os, re

def cpu_flags():
    try:
        for l in open('/proc/cpuinfo'):
            if l.startswith('flags'):
                return set(l.split(':')[1].split())
    except OSError:
        pass
    return set()

# name: (compiler flags, cpu flags needed to run, int width, narrow-int width, float width)
ISA = {
    'sse2':   (['-march=x86-64'], {'sse2'}, 16, 16, 16),
    'ssse3':  (['-march=x86-64', '-mssse3'], {'ssse3'}, 16, 16, 16),
    'sse41':  (['-march=x86-64', '-msse4.1'], {'sse4_1'}, 16, 16, 16),
    'sse42':  (['-march=x86-64-v2'], {'sse4_2', 'popcnt'}, 16, 16, 16),
    'avx':    (['-march=x86-64-v2', '-mavx'], {'avx'}, 16, 16, 32),
    'avx2':   (['-march=x86-64-v3'], {'avx2', 'fma', 'bmi1', 'bmi2', 'abm'}, 32, 32, 32),
    'knl':    (['-march=x86-64-v3', '-mavx512f', '-mavx512cd'], {'avx512f', 'avx512cd', 'avx2', 'fma', 'bmi2'}, 64, 32, 64),
    'skx':    (['-march=skylake-avx512', '-mno-mwaitx', '-mno-clwb', '-mno-pku'], {'avx512f', 'avx512bw', 'avx512dq', 'avx512vl', 'avx512cd'}, 64, 64, 64),
    'bwdq':   (['-march=x86-64-v3', '-mavx512f', '-mavx512bw', '-mavx512dq'], {'avx512f', 'avx512bw', 'avx512dq'}, 64, 64, 64),
    'f_vl':   (['-march=x86-64-v3', '-mavx512f', '-mavx512vl'], {'avx512f', 'avx512vl'}, 64, 32, 64),
    'avx2b':  (['-march=x86-64-v2', '-mavx2'], {'avx2'}, 32, 32, 32),
    'bw_vl':  (['-march=x86-64-v3', '-mavx512f', '-mavx512vl', '-mavx512bw'], {'avx512f', 'avx512vl', 'avx512bw'}, 64, 64, 64),
    # foreign targets, see xarch.py; never selected from the processor's flags
    'neon64': ([], {'foreign'}, 16, 16, 16),
    'neon7': ([], {'foreign'}, 16, 16, 16), 'neon7f': ([], {'foreign'}, 16, 16, 16), 'neon8': ([], {'foreign'}, 16, 16, 16),
    'ppc8': ([], {'foreign'}, 16, 16, 16), 'ppc10': ([], {'foreign'}, 16, 16, 16),
}
QUICK_ISAS = ['skx', 'avx2', 'sse2', 'knl', 'sse41', 'avx', 'ssse3']
# bwdq and f_vl are combinations no processor has; they are only run when asked for (VERIF_ISAS)
ALL_ISAS = QUICK_ISAS + ['sse42', 'bw_vl', 'avx2b']

def usable(isas):
    f = cpu_flags()
    return [i for i in isas if ISA[i][1] <= f]

TYPES = {
    'schar': ('signed char', 1), 'uchar': ('unsigned char', 1), 'char': ('char', 1),
    'short': ('short', 2), 'ushort': ('unsigned short', 2), 'char16_t': ('char16_t', 2),
    'int': ('int', 4), 'uint': ('unsigned int', 4), 'wchar_t': ('wchar_t', 4), 'char32_t': ('char32_t', 4),
    'long': ('long', 8), 'ulong': ('unsigned long', 8), 'llong': ('long long', 8), 'ullong': ('unsigned long long', 8),
    'float': ('float', 4), 'double': ('double', 8), 'ldouble': ('long double', 16),
}
BASE = ['schar', 'uchar', 'short', 'ushort', 'int', 'uint', 'long', 'ulong', 'float', 'double']
ALIAS = ['char', 'char16_t', 'wchar_t', 'char32_t', 'llong', 'ullong']
FP = ['float', 'double', 'ldouble']
INTS = ['schar', 'uchar', 'short', 'ushort', 'int', 'uint', 'long', 'ulong']
ALLT = BASE + ALIAS + ['ldouble']
isfp = lambda t: t in FP

def width(t, isa):
    _, _, iw, nw, fw = ISA[isa][:5]
    s = TYPES[t][1]
    if t == 'ldouble': return 0
    if t == 'double' and isa in ('neon7', 'neon7f', 'neon8'): return 8
    if s == 8 and isa in ('neon7', 'neon7f'): return 8
    if t == 'float' and isa == 'neon7': return 4
    if isfp(t): return fw
    return nw if s <= 2 else iw

def max_fixed(t, isa):
    if TYPES[t][1] == 1 and width(t, isa) == 64: return 64
    return 32

def V_scalar(t): return ('scalar', 'stdx::simd<%s, stdx::simd_abi::scalar>' % TYPES[t][0], 1)
def V_native(t, isa): return ('native', 'stdx::native_simd<%s>' % TYPES[t][0], max(1, width(t, isa) // TYPES[t][1]))
def V_compat(t): return ('compatible', 'stdx::simd<%s>' % TYPES[t][0], max(1, 16 // TYPES[t][1]) if t != 'ldouble' else 1)
def V_deduce(t, n): return ('deduce<%d>' % n, 'stdx::simd<%s, stdx::simd_abi::deduce_t<%s, %d>>' % (TYPES[t][0], TYPES[t][0], n), n)
def V_fixed(t, n): return ('fixed_size<%d>' % n, 'stdx::fixed_size_simd<%s, %d>' % (TYPES[t][0], n), n)

def abis(t, isa, level='quick'):
    """List of (label, C++ type, N). level: 'one' (native, one partial, one fixed), 'quick', 'full'."""
    s = TYPES[t][1]; W = width(t, isa); mx = max_fixed(t, isa)
    out = []
    if t == 'ldouble':
        return [V_scalar(t), V_fixed(t, 3)] + ([V_fixed(t, 1), V_fixed(t, 8)] if level == 'full' else [])
    nat = W // s
    if level == 'one':
        out = [V_native(t, isa)]
        if nat >= 4: out.append(V_deduce(t, nat - 1))
        out.append(V_fixed(t, min(mx, nat + 1)))
        return out
    if isa in ('sse2', 'skx') or level == 'full': out.append(V_scalar(t))
    seen = set()
    def ded(n):
        if n >= 2 and n not in seen: seen.add(n); out.append(V_deduce(t, n))
    c = 2
    while c <= W:
        if c // s >= 2: ded(c // s)
        if c // s >= 4:
            ded(c // s - 1)
            if c == W or level == 'full': ded(c // s // 2 + 1)
            if level == 'full' and c // s >= 8: ded(c // s - 3)
        c *= 2
    fx = []
    for n in ([nat + 1, min(3 * nat - 1, 13 if s >= 8 else mx)] + ([mx] if s == 1 else [])
              + ([1, 3, nat, mx, 2 * nat - 1, 2 * nat] if level == 'full' else [])):
        if 1 <= n <= mx and n not in fx: fx.append(n)
    if level == 'quick' and nat <= mx and nat >= 4 and s in (2, 8): fx.append(nat)
    out += [V_fixed(t, n) for n in fx]
    return out
