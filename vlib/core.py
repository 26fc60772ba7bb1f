"""Builds kernel libraries from /repo, runs the driver, aggregates, writes evidence and replays."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, threading
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ENG = os.path.join(VERIF, 'engine')
REPO = os.environ.get('SIMD_REPO', '/repo')
NPROC = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 4)
from . import config as C, xarch

CXX = 'g++'
OSTD = ['-std=gnu++17']

class Env:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        base = os.path.join(VERIF, '.work'); os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + '-', dir=base)
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.pch = {}
        self.limit = float(os.environ.get('VERIF_LIMIT', '820' if tier == 'quick' else '14400'))
    def left(self): return self.limit - (time.time() - self.t0)
    def cleanup(self):
        if not os.environ.get('VERIF_KEEP'): shutil.rmtree(self.dir, ignore_errors=True)

def sh(cmd, timeout=None, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=env)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return -999, '', 'timeout'

class CheckError(Exception): pass

def resource_problem(rc, err):
    return rc == -999 or rc < 0 or re.search(r'Killed|virtual memory exhausted|cannot allocate|No space left|out of memory|internal compiler error: (Killed|Segmentation)', err) is not None

class Job:
    """One kernel library: tables of (inc group, V, W) compiled with flags and run by the driver."""
    def __init__(self, name, groups, tables, flags, isa, cases=60, mode='ops', maxlen=24, std='gnu++17', opt='-O2', dargs=(), timeout=600, pre='', cxx=None, xarch=None):
        self.name, self.groups, self.tables, self.flags, self.isa = name, list(groups), tables, list(flags), isa
        self.cases, self.mode, self.maxlen, self.std, self.opt, self.dargs, self.timeout, self.pre, self.cxx = cases, mode, maxlen, std, opt, list(dargs), timeout, pre, cxx or CXX
        self.xarch = xarch # foreign target (xarch.TARGETS): compiled with clang to IR, run here
        # tables: list of (abi label, group, V expr, W expr or None)
    def source(self):
        o = [self.pre, '#include "kern.h"', 'namespace vk {']
        for g in self.groups: o.append('#include "ops/%s.inc"' % g)
        o.append('#include "list_kern.h"')
        for g in self.groups:
            o.append('template <class V, class W = V> inline constexpr Kernel tab_%s[] = {\n#include "ops/%s.inc"\n};' % (g, g))
        o.append('static const Table tabs[] = {')
        for lab, g, v, w in self.tables:
            ty = 'tab_%s<%s>' % (g, v if w is None else v + ', ' + w)
            o.append(' {"%s", %s, int(std::size(%s))},' % (lab.replace(' ', ''), ty, ty))
        o.append('};')
        o.append('static const Lib lib = {"%s", tabs, int(std::size(tabs))};\n} // namespace' % self.name)
        o.append('extern "C" __attribute__((visibility("default"))) const vk::Lib* vk_lib() { return &vk::lib; }\n')
        return '\n'.join(o)
    def cflags(self):
        return ['-std=' + self.std, self.opt] + self.flags + ['-w', '-fPIC', '-fvisibility=hidden', '-I' + REPO] + (['-fno-gnu-unique'] if 'clang' not in self.cxx else [])
    def spec(self):
        return dict(name=self.name, groups=self.groups, tables=self.tables, flags=self.flags, isa=self.isa, cases=self.cases,
                    mode=self.mode, maxlen=self.maxlen, std=self.std, opt=self.opt, dargs=self.dargs, pre=self.pre, cxx=self.cxx, xarch=self.xarch)

def oracle_source(group, types, pairs):
    o = ['#include "oracle.h"', 'namespace vo {', '#include "ops/%s.inc"' % group, '#include "list_oracle.h"',
         'template <class T, class U = void> constexpr OEntry otab[] = {\n#include "ops/%s.inc"\n};\n}' % group,
         'struct OList { const vo::OEntry* e; int n; };']
    tag = hashlib.md5((group + str(types) + str(pairs)).encode()).hexdigest()[:10]
    items = [C.TYPES[t][0] for t in types] + ['%s, %s' % (C.TYPES[a][0], C.TYPES[b][0]) for a, b in pairs]
    o.append('extern const OList ol_%s[] = {' % tag)
    for it in items: o.append(' {vo::otab<%s>, int(std::size(vo::otab<%s>))},' % (it, it))
    o.append('};')
    return tag, len(items), '\n'.join(o) + '\n'

def build_driver(env, groups, types, pairs):
    """Compiles oracles and driver (never sees the library under test)."""
    tasks, tags = [], []
    def cc(src, obj, extra):
        rc, out, err = sh([CXX] + extra + ['-I' + ENG, '-c', src, '-o', obj], timeout=800)
        if rc: raise CheckError('cannot build %s: %s' % (src, err[-2000:]))
        return obj
    oflags = OSTD + ['-O1', '-w', '-ffp-contract=off', '-frounding-math', '-march=x86-64']
    srcs = [(os.path.join(ENG, 'driver.cpp'), OSTD + ['-O1', '-w'])]
    chunks = []
    for g in groups:
        for i in range(0, len(types), 5): chunks.append((g, types[i:i + 5], []))
    for g, ps in pairs.items():
        for i in range(0, len(ps), 40): chunks.append((g, [], ps[i:i + 40]))
    for g, ts, ps in chunks:
        tag, n, text = oracle_source(g, ts, ps)
        f = os.path.join(env.dir, 'oracle_%s.cpp' % tag)
        open(f, 'w').write(text)
        srcs.append((f, oflags)); tags.append((tag, n))
    f = os.path.join(env.dir, 'olist.cpp')
    with open(f, 'w') as fh:
        fh.write('#include "oracle.h"\nstruct OList { const vo::OEntry* e; int n; };\n')
        for t, n in tags: fh.write('extern const OList ol_%s[%d];\n' % (t, n))
        fh.write('static OList make(int i);\nextern OList oracle_lists[%d];\nOList oracle_lists[%d];\n' % (max(1, sum(n for _, n in tags)), max(1, sum(n for _, n in tags))))
        fh.write('extern const int oracle_list_count = %d;\nstatic int init = [] { int k = 0;\n' % sum(n for _, n in tags))
        for t, n in tags: fh.write(' for (int i = 0; i < %d; ++i) oracle_lists[k++] = ol_%s[i];\n' % (n, t))
        fh.write(' return k; }();\n')
    srcs.append((f, OSTD + ['-O0', '-w']))
    with cf.ThreadPoolExecutor(NPROC) as ex:
        objs = list(ex.map(lambda s: cc(s[0], os.path.join(env.dir, os.path.basename(s[0]) + '.o'), s[1]), srcs))
    exe = os.path.join(env.dir, 'driver')
    rc, out, err = sh([CXX] + objs + ['-o', exe, '-ldl', '-lm'])
    if rc: raise CheckError('cannot link driver: ' + err[-2000:])
    return exe

def pch_for(env, job):
    key = ' '.join(job.cflags()) + job.pre
    if job.pre or job.cxx != CXX or job.xarch: return None
    with env.lock:
        ent = env.pch.setdefault(key, [threading.Lock(), None])
    with ent[0]:
        if ent[1] is None:
            d = os.path.join(env.dir, 'pch_' + hashlib.md5(key.encode()).hexdigest()[:10]); os.makedirs(d)
            rc, out, err = sh([CXX] + job.cflags() + ['-I' + ENG, '-x', 'c++-header', os.path.join(ENG, 'kern.h'), '-o', os.path.join(d, 'kern.h.gch')], timeout=300)
            ent[1] = d if rc == 0 else False
    return ent[1] or None

def compile_job(env, job):
    d = os.path.join(env.dir, 'j_' + hashlib.md5(job.name.encode()).hexdigest()[:12]); os.makedirs(d, exist_ok=True)
    src = os.path.join(d, 'k.cpp'); so = os.path.join(d, 'k.so')
    open(src, 'w').write(job.source())
    err = ''
    if job.xarch: return compile_xarch(env, job, src, so)
    for attempt in range(3):
        pch = pch_for(env, job) if attempt == 0 else None
        cmd = [job.cxx] + job.cflags() + (['-I' + pch] if pch else []) + ['-I' + ENG, '-shared', src, '-o', so]
        rc, out, err = sh(cmd, timeout=max(60, min(700, env.left() + 60)))
        if rc == 0: return so, None
        if rc == -999: break
        if attempt and not resource_problem(rc, err): break
        time.sleep(1)
    return None, (rc, err)

def compile_xarch(env, job, src, so):
    tflags = xarch.TARGETS[job.xarch][0]
    ll = so[:-3] + '.ll'
    rc, out, err = sh(['clang++-18'] + tflags + ['-std=' + job.std, '-O1', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', '-ferror-limit=0'] + job.flags
                      + ['-w', '-fPIC', '-fvisibility=hidden', '-I' + REPO, '-I' + ENG, '-S', '-emit-llvm', src, '-o', ll], timeout=300)
    if rc: return None, (rc, err)
    text, unknown = xarch.to_x86(open(ll).read(), job.xarch)
    if unknown: return None, ('unsupported', 'no model of ' + ' '.join(sorted(set(unknown))))
    x = so[:-3] + '.x86.ll'; open(x, 'w').write(text)
    rc, out, err = sh(['clang++-18', job.opt, '-w', '-fPIC', '-shared', x, '-o', so], timeout=300)
    if rc: return None, ('unsupported', 'translated module does not compile: ' + err[:400])
    return so, None

def confirm_xarch(job, src_dir, ops):
    """Which of the operations does the target's own compiler reject?"""
    _, cxx, fl, _ = xarch.TARGETS[job.xarch]
    src = os.path.join(src_dir, 'k.cpp')
    if not cxx: return [], ''
    rc, out, err = sh([cxx, '-std=' + job.std, '-O0', '-fsyntax-only', '-w'] + fl + ['-I' + REPO, '-I' + ENG, src], timeout=300)
    if rc == 0 or resource_problem(rc, err) or ' error: ' not in err: return [], ''
    bad = compile_error_ops(err)
    return [o for o in ops if o in bad or not bad], err

def compile_error_ops(err):
    """Names of the operations (K_<name>) whose instantiation the compiler was working on at each error."""
    ops, ctx = [], []
    if 'note: in instantiation of' in err: # clang: the context follows the error
        for part in re.split(r'^.* error: ', err, flags=re.M)[1:]:
            names = re.findall(r'\bK_(\w+)<', part)
            if names and names[0] not in ops: ops.append(names[0])
        return ops
    for l in err.splitlines():
        if re.match(r'.*: In (static member |member )?(function|instantiation|substitution)|.*: In .* of ', l): ctx = []
        ctx.append(l)
        if ' error: ' in l:
            names = [m for c in ctx for m in re.findall(r'\bK_(\w+)<', c)]
            if names and names[-1] not in ops: ops.append(names[-1])
    return ops

def job_type(job):
    for t in C.TYPES:
        if '-%s-' % t in job.name: return t
    return ''

def run_job(env, exe, job):
    if env.left() < 20: return dict(job=job, skipped=True)
    t0 = time.time()
    so, cerr = compile_job(env, job)
    cfails, base_pre, unconfirmed = [], job.pre, []
    while so is None:
        rc, err = cerr
        if rc == 'unsupported': return dict(job=job, unsupported=err)
        if resource_problem(rc, err):
            if env.left() < 60: return dict(job=job, skipped=True)
            return dict(job=job, error='compiler failed for lack of resources: ' + err[-500:])
        m = re.search(r'^.*error:.*$', err, re.M)
        if not m: return dict(job=job, error='compiler failed: ' + err[-800:])
        ops = compile_error_ops(err)
        new = [o for o in ops if o not in [f['op'] for f in cfails] + unconfirmed]
        alarm = new or ['compile']
        if job.xarch: # clang is not the compiler the library is written for: only report what the target's g++ rejects as well
            alarm, e2 = confirm_xarch(job, os.path.join(env.dir, 'j_' + hashlib.md5(job.name.encode()).hexdigest()[:12]), alarm)
            unconfirmed += [o for o in new if o not in alarm]
            if not new and not alarm: return dict(job=job, unsupported='clang: ' + m.group(0)[:300])
            if e2: err = e2; m = re.search(r'^.*error:.*$', err, re.M)
        for o in alarm:
            cfails.append(dict(kind='compile', op=o, T=job_type(job), U='', abi='', why=m.group(0)[:400], inputs='valid use of the public interface does not compile', outputs=err[:3000]))
        if not new or len(cfails) > 40: break
        job.pre = base_pre + '\n#define VK_SKIP ' + ','.join('"%s"' % o for o in [f['op'] for f in cfails] + unconfirmed) + '\n'
        so, cerr = compile_job(env, job)
    job.pre = base_pre
    tc = time.time() - t0
    if so is None: return dict(job=job, failures=cfails, tc=tc)
    d = os.path.dirname(so); out = os.path.join(d, 'out.json'); st = os.path.join(d, 'status')
    cmd = [exe, so, '--seed', str(env.seed), '--cases', str(job.cases), '--mode', job.mode, '--maxlen', str(job.maxlen), '--out', out, '--status', st] + job.dargs
    res = None
    crashes = 0
    for attempt in range(2):
        rc, o, err = sh(cmd, timeout=job.timeout)
        if rc == 0:
            res = json.load(open(out)); break
        if rc == -999: break
        crashes += 1
    tr = time.time() - t0 - tc
    if res is None:
        cur = open(st).read().split() if os.path.exists(st) else []
        if rc == -999: return dict(job=job, error='driver timed out on %s at %s' % (job.name, cur))
        if rc > 0 and rc != 3 and rc < 128: return dict(job=job, error='driver failed rc=%d %s' % (rc, err[-400:]))
        if rc == 3: return dict(job=job, error='cannot load library: ' + err[-400:])
        return dict(job=job, failures=cfails + [dict(kind='crash', op=cur[0] if cur else '?', T=cur[1] if len(cur) > 1 else '', U='', abi=cur[3] if len(cur) > 3 else '', why='process died with signal %d while running this operation' % -rc, inputs='', outputs='')], tc=tc, tr=tr)
    if res.get('missing'): return dict(job=job, error='operations without an oracle: ' + err[:300])
    flaky = [f for f in res['failures'] if f['kind'] == 'flaky']
    res['failures'] = [f for f in res['failures'] if f['kind'] != 'flaky']
    if not os.environ.get('VERIF_KEEP'): shutil.rmtree(d, ignore_errors=True)
    return dict(job=job, failures=cfails + res['failures'], res=res, tc=tc, tr=tr, flaky=flaky, unconfirmed=unconfirmed)

# ------------------------------------------------------------------ known findings
def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return json.load(open(p)).get('findings', [])
def match_known(prop, f):
    for k in known_findings():
        if k.get('status') == 'fixed' or k['property'] != prop: continue
        m = k['match']
        if all(re.fullmatch(m[x], str(f.get(x, ''))) for x in m): return k
    return None

def write_replay(env, f, job):
    d = os.path.join(VERIF, 'replay'); os.makedirs(d, exist_ok=True)
    data = dict(property=env.prop, seed=env.seed, tier=env.tier, failure=f, job=job.spec() if job is not None else None)
    h = hashlib.md5(json.dumps([env.prop, f.get('op'), f.get('T'), f.get('U'), f.get('abi'), f.get('isa'), f.get('inputs')]).encode()).hexdigest()[:10]
    p = os.path.join(d, '%s-%s.json' % (env.prop, h))
    json.dump(data, open(p, 'w'), indent=1)
    return p

def finish(env, failures, coverage, errors=(), assumptions=(), level='exploration'):
    """failures: list of (failure dict, job). Prints verdict lines, writes the evidence, returns the exit code."""
    viol, known = [], {}
    for f, job in failures:
        k = match_known(env.prop, f)
        if k: known.setdefault(k['text'], []).append(f)
        else: viol.append((f, job))
    for k in known_findings():
        if k.get('status') != 'fixed' and k['property'] == env.prop and k['text'] in known:
            print('KNOWN-FINDING: property=%s %s' % (env.prop, k['text']))
    if os.environ.get('VERIF_DUMP'):
        json.dump([f for f, j in failures], open(os.environ['VERIF_DUMP'], 'w'), indent=1)
    wall = time.time() - env.t0
    shown = set(); n = 0
    for f, job in viol:
        key = (f.get('op'), f.get('T'), f.get('U'))
        if key in shown and n >= 3: continue
        shown.add(key)
        if n >= 8: break
        n += 1
        p = write_replay(env, f, job)
        print('VIOLATION property=%s replay=%s' % (env.prop, p))
        print('   %s<%s%s,%s> [%s]: %s' % (f.get('op'), f.get('T'), (',' + f['U']) if f.get('U') not in ('', 'none', None) else '', f.get('abi'), f.get('isa', ''), f.get('why')))
        if f.get('inputs'): print('   ' + str(f['inputs'])[:600])
    if len(viol) > n: print('   (%d further failing cases)' % (len(viol) - n))
    cov = dict(coverage)
    ev = dict(property=env.prop, tier=env.tier, seed=env.seed, level=level, coverage=cov, assumptions=list(assumptions), wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', env.prop + '.json'), 'w'), indent=1)
    for e in errors: print('ERROR: ' + e, file=sys.stderr)
    print('%s: %s evaluations, %s distinct non-trivial, %d violations, %.1f s' % (env.prop, cov.get('evaluations'), cov.get('distinct_nontrivial'), len(viol), wall))
    if viol: return 1
    if errors: return 2
    return 0

RULE = ('each case draws every element of every operand from a mixture of uniform bit patterns, type boundaries, powers of two, small values, '
        'IEEE specials, half-way and subnormal values; elements for which the scalar operation is undefined are redrawn; operands are built by load, element-wise '
        'writes into storage with arbitrary padding or a generator. A case is non-trivial if it has a non-zero input element and its inputs are new for that operation, type and ABI.')
HRULE = ('each case is a sequence of operations over 4 variables of every simd and mask type of the library, all loaded with random elements; model state is compared after every step. '
         'Non-trivial: at least 3 different operations were executed and the operation sequence is new.')

def run_jobs(env, jobs, groups=None, types=None, pairs=None, extra_failures=(), rule=RULE, assumptions=(), extra_cov=None, extra_errors=()):
    groups = groups if groups is not None else sorted({g for j in jobs for g in j.groups})
    types = types if types is not None else C.ALLT
    pairs = pairs or {}
    exe = build_driver(env, groups, types, pairs)
    results = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        futs = [ex.submit(run_job, env, exe, j) for j in jobs]
        for f in cf.as_completed(futs): results.append(f.result())
    return collect(env, results, extra_failures, rule, assumptions, extra_cov, extra_errors)

def collect(env, results, extra_failures=(), rule=RULE, assumptions=(), extra_cov=None, extra_errors=()):
    fails, errors = list(extra_failures), list(extra_errors)
    ev = nt = ke = el = dis = sk = 0; per_isa, per_op, samples = {}, {}, []
    tc = tr = 0; gcpu = {}; uns = {}
    results.sort(key=lambda r: r['job'].name)
    for r in results:
        j = r['job']
        if r.get('skipped'): sk += 1; continue
        if r.get('unsupported'): uns[r['unsupported'][:200]] = uns.get(r['unsupported'][:200], 0) + 1; continue
        for o in r.get('unconfirmed', ()): uns['not accepted by clang: ' + o] = uns.get('not accepted by clang: ' + o, 0) + 1
        if r.get('error'): errors.append(j.name + ': ' + r['error'])
        tc += r.get('tc', 0); tr += r.get('tr', 0)
        gk = '-'.join(j.groups) + '@' + j.isa; gcpu[gk] = round(gcpu.get(gk, 0) + r.get('tc', 0) + r.get('tr', 0), 1)
        for f in r.get('failures', []):
            f['isa'] = j.isa; f['job'] = j.name; f['optflags'] = j.opt
            fails.append((f, j))
        q = r.get('res')
        if q:
            ev += q['evaluations']; nt += q['nontrivial']; ke += q['kernels']; el += q['elements']; dis += q['discarded']
            per_isa[j.isa] = per_isa.get(j.isa, 0) + q['evaluations']
            for k, v in q['per_op'].items(): per_op[k] = per_op.get(k, 0) + v
            if len(samples) < 12: samples += ['[%s] ' % j.isa + s for s in q['samples'][:1]]
        if r.get('flaky'): errors.append('%s: a failure did not reproduce: %s' % (j.name, r['flaky']))
    cov = dict(evaluations=ev, distinct_nontrivial=nt, rule=rule, samples=samples[:12], discarded=dis, instantiated_operations=ke,
               elements_compared=el, libraries=len(results), libraries_skipped_for_time=sk, evaluations_per_isa=per_isa, evaluations_per_operation=per_op,
               seconds_per_group=gcpu, compile_cpu_s=round(tc, 1), run_cpu_s=round(tr, 1))
    if uns: cov['not_modelled'] = uns
    if extra_cov: cov.update(extra_cov)
    return finish(env, fails, cov, errors, assumptions)

def replay(path):
    data = json.load(open(path))
    f, js = data['failure'], data['job']
    if f['kind'] == 'prog' or data['property'] == 'C23':
        from . import progs, install
        return (progs if f['kind'] == 'prog' else install).replay(data), data
    if f['kind'] == 'compile' or js is None or f['kind'] not in ('case', 'hist'):
        return None, data
    env = Env(data['property'], 'quick', data['seed'])
    try:
        job = Job(js['name'], js['groups'], [tuple(t) for t in js['tables']], js['flags'], js['isa'], js['cases'], js['mode'], js['maxlen'], js['std'], js['opt'], js['dargs'], pre=js.get('pre', ''), cxx=js.get('cxx'), xarch=js.get('xarch'))
        pairs = {}
        types = C.ALLT
        for lab, g, v, w in job.tables:
            if w is not None:
                pairs[g] = [(a, b) for a in C.ALLT for b in C.ALLT]
        exe = build_driver(env, [g for g in job.groups if g not in pairs], types, pairs)
        so, err = compile_job(env, job)
        if so is None: print(err[1][:3000]); return 1, data
        rf = os.path.join(env.dir, 'replay.txt')
        with open(rf, 'w') as fh:
            def args(c):
                return ' '.join('%s %d %d %d' % (a['hex'] or '-', a['route'], a['place'], a['off']) for a in c['args'])
            if f['kind'] == 'case':
                fh.write('%s %s %s %s %s %d %d %d %d %s\n' % (f['op'], f['T'], f['U'], f['abi'], f['garbage'], f['gkind'], f['rmode'], f['rroute'], len(f['args']), args(f)))
            else:
                fh.write('%d\n' % len(f['steps']))
                for s in f['steps']:
                    fh.write('%d %d %d %d %d %s %s %d %d %d %d %s\n' % (s['load'], s['cls'], s['ridx'], s['t'], s['k'], ' '.join(map(str, s['reg'])), s['garbage'], s['gkind'], s['rmode'], s['rroute'], len(s['args']), args(s)))
        rc, out, e = sh([exe, so, '--mode', job.mode, '--replay', rf])
        print(out, e)
        return rc, data
    finally:
        env.cleanup()
