"""One function per property: which operations, types, ABIs and configurations are explored."""
import os
from . import config as C
from .core import Job, run_jobs, RULE, HRULE
CHECKS = {}
def check(p):
    def d(f): CHECKS[p] = f; return f
    return d

def isas(env):
    sel = os.environ.get('VERIF_ISAS')
    l = C.usable(list(C.ISA) if sel else C.QUICK_ISAS if env.tier == 'quick' else C.ALL_ISAS)
    return [i for i in l if not sel or i in sel.split(',')]
def tsel(types):
    sel = os.environ.get('VERIF_TYPES')
    return [t for t in types if not sel or t in sel.split(',')]
def std_jobs(env, groups, types, level=None, alias_level='one', cases=None, mode='ops', tag='', flags=(), only_isas=None, std='gnu++17', opts=None, maxtab=14, **kw):
    """The usual cross product: one library per (isa, type[, chunk of ABIs])."""
    quick = env.tier == 'quick'
    level = level or ('quick' if quick else 'full')
    cases = cases or (60 if quick else 600)
    opts = opts or (['-O2'] if quick else ['-O2', '-O1', '-O3'])
    jobs = []
    for isa in (only_isas if only_isas is not None else isas(env)):
        for t in tsel(types):
            lv = alias_level if t in C.ALIAS and level != 'full' else level
            ab = C.abis(t, isa, lv)
            for o in opts:
                for i in range(0, len(ab), maxtab):
                    tabs = [(lab, g, v, None) for g in groups for lab, v, n in ab[i:i + maxtab]]
                    jobs.append(Job('%s%s-%s-%s%s-%d' % ('-'.join(groups), tag, isa, t, o, i), groups, tabs, C.ISA[isa][0] + list(flags), isa, cases=cases, mode=mode, std=std, opt=o, **kw))
    # expensive libraries first
    jobs.sort(key=lambda j: -len(j.tables))
    return jobs

@check('C01')
def c01(env):
    return run_jobs(env, std_jobs(env, ['arith'], C.ALLT))

@check('C02')
def c02(env):
    return run_jobs(env, std_jobs(env, ['cmp'], C.ALLT))

@check('C03')
def c03(env):
    return run_jobs(env, std_jobs(env, ['mask'], C.ALLT))

@check('C04')
def c04(env):
    return run_jobs(env, std_jobs(env, ['where'], C.ALLT))

@check('C09')
def c09(env):
    return run_jobs(env, std_jobs(env, ['reduce'], C.ALLT))

@check('C10')
def c10(env):
    return run_jobs(env, std_jobs(env, ['minmax'], C.ALLT))

@check('C14')
def c14(env):
    return run_jobs(env, std_jobs(env, ['ref'], C.ALLT))

import hashlib
def pick(seed, salt, items, k):
    """k of the items, a different choice per seed and salt."""
    h = lambda x: hashlib.md5(('%s/%s/%s' % (seed, salt, x)).encode()).hexdigest()
    return sorted(items, key=lambda x: h(x))[:k]
def same_size_abi(lab, t, u, n, isa):
    return None
def mem_jobs(env, group, ts, us, level, tag='', cases=None, per_lib=18, abi_pick=None, flags=(), opt='-O2'):
    quick = env.tier == 'quick'
    jobs = []
    for isa in isas(env):
        for t in tsel(ts):
            ab = C.abis(t, isa, level)
            tabs = []
            for u in us:
                if u == 'ldouble' and t not in ('float', 'double', 'ldouble', 'int', 'long', 'schar'): continue
                sel = ab if not abi_pick else pick(env.seed, (isa, t, u), ab, abi_pick)
                for lab, v, n in sel: tabs.append((lab, group, v, C.TYPES[u][0]))
            for i in range(0, len(tabs), per_lib):
                jobs.append(Job('%s%s-%s-%s-%d' % (group, tag, isa, t, i), [group], tabs[i:i + per_lib], C.ISA[isa][0] + list(flags), isa, cases=cases or (40 if quick else 300), opt=opt))
    return jobs
def run_mem(env, group):
    quick = env.tier == 'quick'
    us = C.BASE + ['ldouble', 'char', 'char16_t', 'wchar_t', 'char32_t']
    if quick:
        jobs = mem_jobs(env, group, C.BASE, C.BASE, 'quick', abi_pick=2)
    else:
        jobs = mem_jobs(env, group, C.ALLT, us, 'full')
    return run_jobs(env, jobs, groups=[], pairs={group: [(a, b) for a in C.ALLT for b in C.ALLT]})

@check('C05')
def c05(env):
    return run_mem(env, 'mem')

@check('C06')
def c06(env):
    return run_mem(env, 'mmem')

def deducible(t, n, isa):
    """Does deduce_t<t, n> give something other than fixed_size?"""
    s = C.TYPES[t][1]
    return n == 1 or (n >= 2 and n * s <= C.width(t, isa) and t != 'ldouble')
def best(t, n, isa):
    return C.V_scalar(t) if n == 1 else C.V_deduce(t, n) if deducible(t, n, isa) else C.V_fixed(t, n)
def pair_jobs(env, group, pairs_tabs, per_lib=24, cases=None, tag='', opt='-O2', flags=(), dargs=(), merge=False):
    """pairs_tabs: {isa: [(label, V, W), ...]}"""
    quick = env.tier == 'quick'
    jobs = []
    for isa, by in pairs_tabs.items():
        if merge: by = {'all': [x for l in by.values() for x in l]}
        for t, tabs in by.items():
            for i in range(0, len(tabs), per_lib):
                jobs.append(Job('%s%s-%s-%s-%d' % (group, tag, isa, t, i), [group], [(l, group, v, w) for l, v, w in tabs[i:i + per_lib]], C.ISA[isa][0] + list(flags), isa, cases=cases or (40 if quick else 300), opt=opt, dargs=dargs))
    jobs.sort(key=lambda j: -len(j.tables))
    return jobs
def cast_tabs(env, isa, t, us, ns_of, mixed=True):
    tabs = []
    for u in us:
        if u == t and u != 'ldouble': pass
        for k, n in enumerate(ns_of(t, u)):
            if n > C.max_fixed(t, isa) and not deducible(t, n, isa): continue
            if n > C.max_fixed(u, isa) and not deducible(u, n, isa): continue
            vs, ws = [best(t, n, isa)], [best(u, n, isa)]
            if n <= 32:
                if vs[0][0].startswith('deduce') or n == 1: vs.append(C.V_fixed(t, n))
                if ws[0][0].startswith('deduce') or n == 1: ws.append(C.V_fixed(u, n))
            combos = [(v, w) for v in vs for w in ws if v[1] != w[1]]
            if mixed == 'rotate' and len(combos) > 1:
                combos = [combos[0]] + pick(env.seed, (isa, t, u, n), combos[1:], 1 if k % 2 == 0 else 0)
            for v, w in combos: tabs.append(('%s->%s' % (v[0], w[0]), v[1], w[1]))
    return tabs
ALLPAIRS = [(a, b) for a in C.ALLT for b in C.ALLT]
@check('C07')
def c07(env):
    quick = env.tier == 'quick'
    jobs = []
    us = C.BASE if quick else C.ALLT
    def ns_full(t, u): return [1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64]
    def ns_quick(isa):
        def f(t, u):
            W = 64 if isa in ('skx', 'knl') else 32 if isa in ('avx2', 'avx') else 16
            big = W // min(C.TYPES[t][1], C.TYPES[u][1]); small = max(1, W // max(C.TYPES[t][1], C.TYPES[u][1]))
            l = []
            for n in (small, big, pick(env.seed, (isa, t, u), [x for x in (2, 4, 8, 16, 32) if x not in (small, big) and x <= W // C.TYPES[t][1]] or [small], 1)[0],
                      pick(env.seed, (isa, t, u, 'o'), [x for x in (3, 5, 6, 7, 9, 11, 13, 15, 17, 23, 31) if x < big + 4] or [3], 1)[0]):
                if n not in l: l.append(n)
            return l
        return f
    for isa in isas(env):
        if quick:
            ku = len(us) if isa in ('skx', 'avx2', 'sse2') else 4
            jobs += pair_jobs(env, 'cast', {isa: {t: cast_tabs(env, isa, t, pick(env.seed, ('cu', isa, t), us, ku), ns_quick(isa), 'rotate') for t in tsel(C.BASE)}})
            jobs += pair_jobs(env, 'castx', {isa: {t: pick(env.seed, (isa, t), cast_tabs(env, isa, t, C.ALLT, ns_quick(isa), True), 6 if isa in ('skx', 'avx2', 'sse2') else 3) for t in tsel(C.ALLT)}}, merge=True)
            jobs += pair_jobs(env, 'resize', {isa: {t: resize_tabs(env, isa, t, 4) for t in tsel(C.BASE)}}, dargs=RZ_ONLY, merge=True)
        else:
            jobs += pair_jobs(env, 'cast', {isa: {t: cast_tabs(env, isa, t, us, ns_full) for t in tsel(C.ALLT)}})
            jobs += pair_jobs(env, 'castx', {isa: {t: cast_tabs(env, isa, t, us, lambda a, b: pick(env.seed, (isa, a, b), ns_full(a, b), 5)) for t in tsel(C.ALLT)}})
            jobs += pair_jobs(env, 'resize', {isa: {t: resize_tabs(env, isa, t, 60) for t in tsel(C.ALLT)}}, dargs=RZ_ONLY)
    jobs += std_jobs(env, ['tofix'], C.ALLT)
    return run_jobs(env, jobs, groups=['tofix'], pairs={g: ALLPAIRS for g in ('cast', 'castx', 'resize')})
RZ_ONLY = ['--only', 'rz_simd', '--only', 'rz_mask', '--only', 'rz_mask_cmp', '--only', 'rz_mask_not']
CAT_ONLY = ['--only', 'cat_vw', '--only', 'cat_wv', '--only', 'cat_vwv', '--only', 'cat_split']
def resize_tabs(env, isa, t, k, same_type=False):
    W = 64 if isa in ('skx', 'knl') else 32 if isa in ('avx2', 'avx') else 16
    s = C.TYPES[t][1]
    ns = [n for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 15, 16, 17, 24, 31, 32, 33, 63, 64) if n <= C.max_fixed(t, isa)]
    l = []
    for a in ns:
        for b in ns:
            if a == b: continue
            for v in [best(t, a, isa)] + ([C.V_fixed(t, a)] if a <= 32 else []):
                for w in [best(t, b, isa)] + ([C.V_fixed(t, b)] if b <= 32 else []):
                    l.append(('%s->%s' % (v[0], w[0]), v[1], w[1]))
    l = list(dict.fromkeys(l))
    r = pick(env.seed, ('rz', isa, t), l, k)
    if not same_type: # masks also change the element type
        for u in pick(env.seed, ('rzu', isa, t), [x for x in C.BASE if x != t], 3):
            a, b = pick(env.seed, ('rzn', isa, t, u), ns, 2)
            if b > C.max_fixed(u, isa): b = 5
            v, w = best(t, a, isa), best(u, b, isa)
            r.append(('%s->%s' % (v[0], w[0]), v[1], w[1]))
    return r

@check('C08')
def c08(env):
    quick = env.tier == 'quick'
    jobs = []
    for isa in isas(env):
        jobs += pair_jobs(env, 'resize', {isa: {t: resize_tabs(env, isa, t, 5 if quick else 60, True) for t in tsel(C.BASE)}}, dargs=CAT_ONLY)
        for t in tsel(C.BASE + ([] if quick else ['ldouble'] + C.ALIAS)):
            mx = C.max_fixed(t, isa)
            W = C.width(t, isa); s = C.TYPES[t][1]
            tabs = [best(t, n, isa) for n in ([W // s, 2 * W // s, 3 * W // s, W // s // 2, 6, W // s * 3 // 4] if quick else [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 18, 20, 24, 27, 30, 31, 32, 36, 48, 60, 63, 64]) if 1 <= n and (n <= mx or (t != 'ldouble' and deducible(t, n, isa)))]
            tabs += [C.V_fixed(t, n) for n in ([4, min(12, mx)] if quick else [1, 2, 3, 4, 6, 8, 12, 16, 24, 32]) if n <= mx]
            tabs = list(dict.fromkeys(tabs))
            if quick: tabs = pick(env.seed, ('sp', isa, t), tabs, 4 if isa in ('skx', 'sse2', 'avx2') else 2)
            for i in range(0, len(tabs), 4):
                jobs.append(Job('split-%s-%s-%d' % (isa, t, i), ['split'], [(lab, 'split', v, None) for lab, v, n in tabs[i:i + 4]], C.ISA[isa][0], isa, cases=30 if quick else 300))
    return run_jobs(env, jobs, groups=['split'], pairs={'resize': ALLPAIRS})

# ------------------------------------------------------------------ math
SINTS = ['schar', 'short', 'int', 'long', 'llong', 'char', 'wchar_t']
def math_jobs(env, group, **kw):
    jobs = std_jobs(env, [group], C.FP, **kw)
    return jobs
@check('C11')
def c11(env):
    jobs = std_jobs(env, ['mathx'], C.FP, maxtab=6) + std_jobs(env, ['mathx'], SINTS, tag='-i', maxtab=20)
    jobs += std_jobs(env, ['mathr'], C.FP, flags=['-frounding-math'], maxtab=8)
    return run_jobs(env, jobs)
@check('C12')
def c12(env):
    jobs = std_jobs(env, ['mathc'], C.FP, maxtab=6) + std_jobs(env, ['mathc'], C.INTS, tag='-i', level='one', maxtab=20)
    return run_jobs(env, jobs)
@check('C20')
def c20(env):
    return run_jobs(env, std_jobs(env, ['mathe'], C.FP, maxtab=8))
@check('C19')
def c19(env):
    quick = env.tier == 'quick'
    jobs = std_jobs(env, ['libm'], C.FP, maxtab=6)
    jobs += std_jobs(env, ['special'], C.FP, level='one' if quick else 'quick', maxtab=3, flags=['-ffp-contract=off'], cases=30 if quick else 300, only_isas=[i for i in isas(env) if not quick or i in ('sse2', 'skx')])
    return run_jobs(env, jobs)
@check('C13')
def c13(env):
    return run_jobs(env, std_jobs(env, ['mathsc'], C.FP, maxtab=6, cases=100 if env.tier == 'quick' else 2000))

# ------------------------------------------------------------------ floating-point environment
DIV_ONLY = [x for o in ('divide', 'mod', 'div_vs', 'div_sv', 'mod_vs', 'mod_sv', 'a_div', 'a_mod', 'a_div_s', 'a_mod_s', 'div_c3', 'div_c8', 'mod_c10') for x in ('--only', o)]
@check('C18')
def c18(env):
    quick = env.tier == 'quick'
    return run_jobs(env, std_jobs(env, ['arith'], [t for t in C.ALLT], mode='fenv', tag='-div', cases=150 if quick else 3000, dargs=DIV_ONLY))

# ------------------------------------------------------------------ histories
HGROUPS = ['arith', 'cmp', 'mask', 'where', 'reduce', 'minmax', 'ref']
@check('C17')
def c17(env):
    """Sequences over the variables of two simd types of equal size (and their masks), connected by casts."""
    quick = env.tier == 'quick'
    jobs = []
    for isa in isas(env):
        for t in tsel(C.BASE if quick else C.ALLT):
            W = C.width(t, isa) or 16; s = C.TYPES[t][1]
            full = W // s
            cand = sorted({n for n in (full, full - 1, full // 2 + 1, full // 2, full + 1, 3, 2 * full, 2 * full - 1, 5) if n >= 2})
            okn = lambda x, n: n <= C.max_fixed(x, isa) or (x != 'ldouble' and deducible(x, n, isa))
            cand = [n for n in cand if okn(t, n)]
            for k, n in enumerate(pick(env.seed, ('h', isa, t), cand, 1 if quick else len(cand))):
                u = pick(env.seed, ('hu', isa, t, n), [x for x in C.BASE if x != t and okn(x, n)], 1)
                if not u: continue
                u = u[0]
                vs = [best(t, n, isa)] + ([C.V_fixed(t, n)] if n <= 32 else [])
                ws = [best(u, n, isa)] + ([C.V_fixed(u, n)] if n <= 32 else [])
                v = pick(env.seed, ('hv', isa, t, n), vs, 1)[0] if n <= full else vs[0]
                w = pick(env.seed, ('hw', isa, t, n), ws, 1)[0]
                tabs = [(x[0], g, x[1], None) for x in (v, w) for g in HGROUPS]
                tabs += [('%s->%s' % (v[0], w[0]), 'cast', v[1], w[1]), ('%s->%s' % (w[0], v[0]), 'cast', w[1], v[1])]
                jobs.append(Job('hist-%s-%s-%d' % (isa, t, k), HGROUPS + ['cast'], tabs, C.ISA[isa][0], isa, cases=400 if quick else 6000, mode='hist', maxlen=24 if quick else 48))
    return run_jobs(env, jobs, groups=HGROUPS, pairs={'cast': ALLPAIRS}, rule=HRULE)

# ------------------------------------------------------------------ installation
from . import install
@check('C23')
def c23(env):
    return install.c23(env)

# ------------------------------------------------------------------ compile-time interface
from . import probes
@check('C15')
def c15(env):
    return probes.c15(env)

# ------------------------------------------------------------------ literal operands and optimisation levels
from . import progs
PGROUPS = HGROUPS + ['mathr', 'mathc']
@check('C16')
def c16(env):
    """Straight-line programs over the variables of two simd types; the plan itself runs at -O0."""
    quick = env.tier == 'quick'
    jobs = []
    for isa in isas(env):
        for t in tsel(C.BASE if quick else C.ALLT):
            W = C.width(t, isa) or 16; s = C.TYPES[t][1]; full = max(1, W // s)
            okn = lambda x, n: n >= 1 and (n <= C.max_fixed(x, isa) or (x != 'ldouble' and deducible(x, n, isa)))
            cand = [n for n in sorted({full, full - 1, full // 2 + 1, full // 2, full + 1, 3, 2 * full - 1, 1}) if okn(t, n)]
            sel = [full] if okn(t, full) else []
            sel += [n for n in pick(env.seed, ('p', isa, t), cand, 1 if quick else len(cand)) if n not in sel]
            for k, n in enumerate(sel[:1] if quick and not pick(env.seed, ('pp', isa), [0, 1], 1)[0] else sel):
                groups = HGROUPS + (['mathr', 'mathc'] if C.isfp(t) else [])
                v = best(t, n, isa) if n <= full else C.V_fixed(t, n)
                tabs = [(v[0], g, v[1], None) for g in groups]
                u = pick(env.seed, ('pu', isa, t, n), [x for x in C.BASE if x != t and okn(x, n)], 1)
                if u:
                    w = best(u[0], n, isa)
                    tabs += [('%s->%s' % (v[0], w[0]), 'cast', v[1], w[1])]
                jobs.append(Job('prog-%s-%s-%d' % (isa, t, k), groups + (['cast'] if u else []), tabs, C.ISA[isa][0], isa, cases=110 if quick else 300, mode='plan', maxlen=16 if quick else 30, opt='-O0'))
    opts = lambda j: pick(env.seed, ('po', j.name), ['-O1', '-O3', '-O2 -fno-inline-small-functions', '-Os', '-Og'], 1) + ['-O2'] if quick else ['-O1', '-O2', '-O3', '-Os', '-Og']
    return progs.run(env, jobs, opts, PGROUPS, C.ALLT, {'cast': ALLPAIRS}, 60)

# ------------------------------------------------------------------ build configurations
from . import confs
@check('C22')
def c22(env):
    return confs.c22(env, isas(env))

@check('C21')
def c21(env):
    return confs.c21(env)
