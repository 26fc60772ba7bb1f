"""C22: the operation catalogue under build configurations other than the default one."""
import os
from . import config as C
from .core import Job

AT_ZEQ, AT_FINITE, AT_NOFAST = 2, 32768, 65536
# groups over one simd type; the last two need a second type
G_INT = ['arith', 'cmp', 'mask', 'where', 'reduce', 'minmax', 'ref', 'tofix', 'split']
G_FP = G_INT + ['mathx', 'mathr', 'mathc', 'mathe', 'mathsc']
G_PAIR = ['mem', 'mmem', 'cast']

class Conf:
    def __init__(self, name, flags=(), std='gnu++17', opt='-O2', isas=None, cxx=None, width=None, dargs=(), groups=None, fast=False, pairs=True, on_demand=False, xarch=None):
        self.name, self.flags, self.std, self.opt, self.isas, self.cxx, self.width, self.dargs, self.groups, self.fast, self.pairs, self.on_demand, self.xarch = name, list(flags), std, opt, isas, cxx, width, list(dargs), groups, fast, pairs, on_demand, xarch

# operations that are not exact (or observe the sign of zero) when -ffast-math lets the compiler change values
X = lambda l: [y for o in l for y in ('--exclude', o)]
NOSZ_SKIP = X(['sin_odd', 'm_signbit', 'q_signbit', 'w_signbit'])
FAST_SKIP = NOSZ_SKIP + X(['divide', 'a_div', 'a_div_s', 'div_c3', 'div_c8', 'div_vs', 'div_sv', 'rm_div', 'w_div', 'w_div_s', 'm_sin', 'm_cos', 'cos_even'])
CONFS = [
    Conf('nosimd', ['-DVK_CONF=1'], isas=['sse2'], width=lambda t: 0),
    Conf('sse1', ['-DVK_CONF=2'], isas=['sse2'], width=lambda t: 16 if t == 'float' else 0),
    Conf('strict17', std='c++17'),
    Conf('gnu20', std='gnu++20'),
    Conf('strict23', std='c++23'),
    Conf('noinline', ['-D_GLIBCXX_SIMD_NO_ALWAYS_INLINE']),
    Conf('maskcast', ['-D_GLIBCXX_SIMD_ENABLE_IMPLICIT_MASK_CAST']),
    Conf('staticcast', ['-D_GLIBCXX_SIMD_ENABLE_STATIC_CAST']),
    Conf('noshiftopt', ['-D_GLIBCXX_SIMD_NO_SHIFT_OPT']),
    Conf('debug', ['-D_GLIBCXX_DEBUG', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_DEBUG_UB']),
    Conf('O0', opt='-O0'),
    Conf('O3', opt='-O3'),
    Conf('Os', opt='-Os'),
    Conf('noexc', ['-fno-exceptions', '-fno-rtti', '-fno-math-errno', '-fno-trapping-math']),
    Conf('pic', ['-fno-inline', '-fno-strict-aliasing', '-fwrapv']),
    Conf('fast', ['-ffast-math'], dargs=['--attr-or', str(AT_FINITE | AT_ZEQ)] + FAST_SKIP, fast=True, pairs=False),
    Conf('finite', ['-ffinite-math-only'], dargs=['--attr-or', str(AT_FINITE)], fast=True, pairs=False),
    Conf('nosignedzero', ['-fno-signed-zeros', '-fno-trapping-math', '-fno-math-errno'], dargs=['--attr-or', str(AT_FINITE | AT_ZEQ)] + NOSZ_SKIP, fast=True, pairs=False),
    Conf('clang', cxx='clang++-18', std='c++17', isas=['sse2', 'ssse3', 'sse41', 'avx', 'avx2'], on_demand=True), # not a supported compiler
    Conf('w128', ['-mprefer-vector-width=128', '-mno-fma'], isas=['skx', 'avx2', 'knl']),
]
BYNAME = {c.name: c for c in CONFS}

def abis(t, isa, conf, level):
    if conf.width is None: return C.abis(t, isa, level)
    W = conf.width(t); s = C.TYPES[t][1]
    if W == 0:
        l = [C.V_scalar(t), ('native', 'stdx::native_simd<%s>' % C.TYPES[t][0], 1)] + [C.V_fixed(t, n) for n in ((3, 8) if level != 'full' else (1, 2, 3, 4, 7, 8, 16, 31, 32))]
        return l
    return [C.V_scalar(t), ('native', 'stdx::native_simd<%s>' % C.TYPES[t][0], W // s), C.V_deduce(t, 3), C.V_deduce(t, 2), C.V_fixed(t, 5)] + ([C.V_fixed(t, n) for n in (1, 4, 8, 32)] if level == 'full' else [])

def pick(seed, salt, items, k):
    from .checks import pick as p
    return p(seed, salt, items, k)

def conf_jobs(env, conf, types, isas, level, cases, npair, group_filter=None):
    jobs = []
    for isa in isas:
        for t in types:
            groups = [g for g in (G_FP if C.isfp(t) else G_INT) if not group_filter or g in group_filter]
            ab = abis(t, isa, conf, level)
            if not ab: continue
            base = dict(flags=C.ISA[isa][0] + conf.flags, isa=isa, cases=cases, std=conf.std, opt=conf.opt, cxx=conf.cxx, dargs=conf.dargs, xarch=conf.xarch)
            fl = base.pop('flags'); i_ = base.pop('isa')
            # heavy groups on their own
            for part in ([g for g in groups if g in ('arith', 'cmp', 'minmax', 'reduce')], [g for g in groups if g in ('where', 'mask', 'ref', 'tofix')], [g for g in groups if g in ('mathx', 'mathr')], [g for g in groups if g in ('mathc', 'mathe', 'mathsc')], [g for g in groups if g == 'split']):
                if not part: continue
                sel = ab if part != ['split'] else [x for x in ab if x[2] in (2, 3, 4, 8, 16, 6, 12)][:2]
                if 'mathr' in part: fl2 = fl + ['-frounding-math']
                else: fl2 = fl
                tabs = [(lab, g, v, None) for g in part for lab, v, n in sel]
                if tabs: jobs.append(Job('%s-%s-%s-%s-%s' % (conf.name, '-'.join(part), isa, t, conf.opt), part, tabs, fl2, i_, **base))
            if conf.pairs:
                for g in ('mem', 'mmem'):
                    us = pick(env.seed, (conf.name, g, isa, t), [u for u in C.BASE if u != t], npair) + [t]
                    tabs = [(lab, g, v, C.TYPES[u][0]) for u in us for lab, v, n in pick(env.seed, (conf.name, g, isa, t, u), ab, 2 if npair < 5 else 9)]
                    jobs.append(Job('%s-%s-%s-%s-%s' % (conf.name, g, isa, t, conf.opt), [g], tabs, fl, i_, **base))
                us = pick(env.seed, (conf.name, 'cast', isa, t), C.BASE, npair)
                tabs = []
                for u in us:
                    for lab, v, n in pick(env.seed, (conf.name, 'c', isa, t, u), ab, 2 if npair < 5 else 9):
                        ws = [x for x in abis(u, isa, conf, 'full') if x[2] == n and x[1] != v]
                        if n <= C.max_fixed(u, isa): ws.append(C.V_fixed(u, n))
                        ws = [w for w in dict.fromkeys(ws) if w[1] != v]
                        if u == t: ws = [w for w in ws if w[0].startswith('fixed') != lab.startswith('fixed')]
                        for w in ws[:2]: tabs.append(('%s->%s' % (lab, w[0]), 'cast', v, w[1]))
                if tabs: jobs.append(Job('%s-cast-%s-%s-%s' % (conf.name, isa, t, conf.opt), ['cast'], tabs, fl, i_, **base))
    return jobs

def order(env, jobs):
    # the thorough product does not fit into the time limit: a random part of it is explored
    if env.tier == 'quick': jobs.sort(key=lambda j: -len(j.tables))
    else:
        import random
        random.Random('order %d' % env.seed).shuffle(jobs)

def c22(env, std_isas):
    from .core import run_jobs
    quick = env.tier == 'quick'
    sel = os.environ.get('VERIF_CONFS')
    tsel = os.environ.get('VERIF_TYPES')
    jobs = []
    for k, conf in enumerate(CONFS):
        if conf.name not in sel.split(',') if sel else conf.on_demand: continue
        isas = [i for i in (conf.isas or std_isas) if i in C.usable(list(C.ISA))]
        if quick and not sel: isas = pick(env.seed, (conf.name, 'isa'), isas, 1)
        types = C.ALLT if not quick else C.BASE if conf.width else sorted(pick(env.seed, (conf.name, 't'), C.INTS, 3) + pick(env.seed, (conf.name, 'f'), ['float', 'double'], 1))
        if tsel: types = tsel.split(',')
        if conf.fast: types = [t for t in types if C.isfp(t)]
        jobs += conf_jobs(env, conf, types, isas, 'one' if quick else 'quick', 40 if quick else 300, 2 if quick else 10, conf.groups)
    order(env, jobs)
    return run_jobs(env, jobs, groups=sorted(set(G_FP)), pairs={g: [(a, b) for a in C.ALLT for b in C.ALLT] for g in G_PAIR},
                    extra_cov=dict(configurations=[c.name for c in CONFS]))

# the C library's remainder() loses the sign of a zero result where g++ (the oracle's compiler) uses fprem1
FOREIGN = [Conf(t, std='c++17', xarch=t, isas=[t], dargs=X(['m_remainder', 'm_remainder_vs', 'm_remainder_sv'])) for t in ('neon64', 'neon7', 'neon7f', 'neon8', 'ppc8', 'ppc10')]
FTYPES = [t for t in C.ALLT if t not in ('ldouble', 'wchar_t')] # the types that are the same on all targets
def c21(env):
    """The implementations for other architectures."""
    from .core import run_jobs
    quick = env.tier == 'quick'
    sel, tsel = os.environ.get('VERIF_ISAS'), os.environ.get('VERIF_TYPES')
    jobs = []
    for conf in FOREIGN:
        if sel and conf.name not in sel.split(','): continue
        types = tsel.split(',') if tsel else [t for t in FTYPES if t in C.BASE] if quick else FTYPES
        if conf.name == 'neon7f': types = [t for t in types if t in ('float', 'int')]
        jobs += conf_jobs(env, conf, types, conf.isas, 'quick' if quick else 'full', 60 if quick else 1000, 3 if quick else 10)
    order(env, jobs)
    return run_jobs(env, jobs, groups=sorted(set(G_FP)), pairs={g: [(a, b) for a in C.ALLT for b in C.ALLT] for g in G_PAIR},
                    extra_cov=dict(targets=[c.name for c in FOREIGN]))
