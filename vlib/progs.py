"""C16: the same operation sequences as straight-line programs whose operands are literals, opaque values or a mixture."""
import concurrent.futures as cf, hashlib, json, os, random, re, shutil
from . import core, config as C

SUFF = {'float': 'f', 'double': '', 'ldouble': 'L'}
def lit(ty, b):
    """C++ literal (of type ty) for the little-endian bytes b"""
    if ty == 'bool': return 'true' if b[0] else 'false'
    T = C.TYPES[ty][0]
    if ty not in SUFF:
        v = int.from_bytes(b, 'little', signed=True)
        u = int.from_bytes(b, 'little')
        return 'static_cast<%s>(%s)' % (T, '%dLL' % v if abs(v) < 2 ** 62 and v == u or v < 0 and v > -2 ** 62 else '0x%xULL' % u)
    s = SUFF[ty]
    if ty == 'ldouble':
        m = int.from_bytes(b[:8], 'little'); e = int.from_bytes(b[8:10], 'little'); sg = e >> 15; e &= 0x7fff
        special, sub, mb, bias = e == 0x7fff, False, 63, 16383
        if special: m &= (1 << 63) - 1
        else: txt = '0x%xp%d' % (m, max(e, 1) - bias - 63)
    else:
        w, mb, eb, bias = (32, 23, 8, 127) if ty == 'float' else (64, 52, 11, 1023)
        u = int.from_bytes(b, 'little'); sg = u >> (w - 1); e = (u >> mb) & ((1 << eb) - 1); m = u & ((1 << mb) - 1)
        special = e == (1 << eb) - 1
        if not special: txt = '0x%xp%d' % (m | ((1 << mb) if e else 0), max(e, 1) - bias - mb)
    if special: return ('-' if sg else '') + ('__builtin_nan%s("")' % s.lower() if m else '__builtin_inf%s()' % s.lower())
    return ('-' if sg else '') + txt + s

def lanes(ty, hexs):
    b = bytes.fromhex(hexs); s = 1 if ty == 'bool' else C.TYPES[ty][1]
    return [b[i:i + s] for i in range(0, len(b), s)]
def arr(ty, ls): return '{' + ', '.join(lit(ty, l) for l in ls) + '}'
def lname(ty): return 'bool' if ty == 'bool' else C.TYPES[ty][0]

PRE = r'''
#define VK_BODY [[gnu::always_inline]] inline
#include "kern.h"
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <string>
#include <sys/time.h>
namespace vk {
'''
PRE2 = r'''
template <class F, int I> struct parm_;
template <class... P, int I> struct parm_<void (*)(P...), I> { using type = std::decay_t<std::tuple_element_t<I, std::tuple<P...>>>; };
template <class K, int I> using parm = typename parm_<decltype(&K::body), I>::type;
template <class T> [[gnu::noipa]] const T* opq(const T* p) { return p; }
template <class X> [[gnu::always_inline]] inline unsigned char* put(unsigned char* o, const X& x)
{
  if constexpr (is_v<X>::value)
    { typename elem<X>::lane t[X::size()]; std::memset(t, 0, sizeof t); x.copy_to(t, stdx::element_aligned); std::memcpy(o, t, sizeof t); return o + sizeof t; }
  else { std::memcpy(o, &x, sizeof x); return o + sizeof x; }
}
template <class X> [[gnu::always_inline]] inline unsigned char* pute(unsigned char* o, const X& x)
{
  typename elem<X>::lane t[X::size()]; std::memset(t, 0, sizeof t);
  [&]<size_t... I>(std::index_sequence<I...>) { ((t[I] = x[I]), ...); }(std::make_index_sequence<X::size()>());
  std::memcpy(o, t, sizeof t); return o + sizeof t;
}
struct Out { int ty, size, n; const unsigned char* want; int step; };
struct Prog { void (*fn)(unsigned char*); int id, nout; const Out* out; const char* const* text; };
'''
POST = r'''
static sigjmp_buf jb; static volatile int sig_;
static void on_sig(int s) { sig_ = s; siglongjmp(jb, 1); }
static bool isnan_b(int ty, const unsigned char* p)
{ if (ty == 1) { float f; memcpy(&f, p, 4); return __builtin_isnan(f); } if (ty == 2) { double f; memcpy(&f, p, 8); return __builtin_isnan(f); } if (ty == 3) { long double f; memcpy(&f, p, 10); return __builtin_isnan(f); } return false; }
static std::string hex(const unsigned char* p, int n) { std::string r; char b[3]; for (int i = n; i--;) { sprintf(b, "%02x", p[i]); r += b; } return r; }
}
int main()
{
  using namespace vk;
  static unsigned char stk[1 << 16]; stack_t ss = {}; ss.ss_sp = stk; ss.ss_size = sizeof stk; sigaltstack(&ss, nullptr);
  struct sigaction sa = {}; sa.sa_handler = on_sig; sa.sa_flags = SA_NODEFER | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGABRT, SIGTRAP, SIGVTALRM}) sigaction(s, &sa, nullptr);
  static unsigned char buf[1 << 20];
  int bad = 0;
  for (const Prog& p : progs) {
    struct itimerval it = {{0, 0}, {5, 0}}; setitimer(ITIMER_VIRTUAL, &it, nullptr);
    if (sigsetjmp(jb, 1)) { std::printf("FAIL\t%d\t-1\tsignal %d\n", p.id, sig_); ++bad; continue; }
    memset(buf, 0x5a, sizeof buf);
    p.fn(buf);
    const unsigned char* g = buf; bool stop = false;
    for (int i = 0; i < p.nout && !stop; ++i) {
      const Out& o = p.out[i]; int cs = o.ty == 3 ? 10 : o.size;
      for (int l = 0; l < o.n && !stop; ++l)
	if (memcmp(g + l * o.size, o.want + l * o.size, cs) && !(isnan_b(o.ty, g + l * o.size) && isnan_b(o.ty, o.want + l * o.size)))
	  { std::printf("FAIL\t%d\t%d\telement %d is 0x%s, expected 0x%s, after %s\n", p.id, o.step, l, hex(g + l * o.size, cs).c_str(), hex(o.want + l * o.size, cs).c_str(), p.text[o.step]); ++bad; stop = true; }
      g += o.size * o.n;
    }
  }
  std::printf("DONE %d\n", bad);
}
'''
FTY = {'float': 1, 'double': 2, 'ldouble': 3}

class Gen:
    """Turns plans into one translation unit."""
    def __init__(self, job, classes):
        self.job, self.classes, self.body, self.progs, self.nd = job, classes, [], [], 0
    def kname(self, t, op):
        lab, g, v, w = self.job.tables[t]
        return 'K_%s<%s>' % (op, v if w is None else v + ', ' + w)
    def data(self, ty, ls):
        self.nd += 1
        self.body.append('static const %s d%d[] = %s;' % (lname(ty), self.nd, arr(ty, ls)))
        return 'd%d' % self.nd
    def vec(self, cls, hexs, rnd, mode):
        """expression of class cls with these elements"""
        c = self.classes[cls]; ty = c['ty']; ls = lanes(ty, hexs); X = 'C%d' % cls; n = len(ls)
        uni = all(l == ls[0] for l in ls)
        if mode == 'opq' or mode == 'mix' and rnd.random() < .4: return '%s(opq(%s), stdx::element_aligned)' % (X, self.data(ty, ls))
        f = rnd.choice(['gen', 'gen', 'load', 'elem'] + (['uni'] * 3 if uni else []))
        if c['mask']:
            if f == 'gen':
                et = c['elem']; z = C.TYPES[et][0]
                return '(typename %s::simd_type([](auto i) { constexpr bool a[] = %s; return static_cast<%s>(a[i] ? 1 : 0); }) != typename %s::simd_type(static_cast<%s>(0)))' % (X, arr(ty, ls), z, X, z)
            if f == 'elem': return '[] { %s x(%s); %s return x; }()' % (X, lit(ty, ls[0]), ' '.join('x[%d] = %s;' % (i, lit(ty, l)) for i, l in enumerate(ls) if l != ls[0]))
        else:
            if f == 'gen': return '%s([](auto i) { constexpr %s a[] = %s; return a[i]; })' % (X, lname(ty), arr(ty, ls))
            if f == 'elem': return '[] { %s x = {}; %s return x; }()' % (X, ' '.join('x[%d] = %s;' % (i, lit(ty, l)) for i, l in enumerate(ls)))
        if f == 'uni': return '%s(%s)' % (X, lit(ty, ls[0]))
        return '[] { static constexpr %s a[] = %s; return %s(a, stdx::element_aligned); }()' % (lname(ty), arr(ty, ls), X)
    def add(self, pid, steps, rnd, mode):
        used = set()
        for s in steps:
            if not s['load']:
                for a in s['args']:
                    if a['cls'] >= 0: used.add((a['cls'], a['ridx']))
        code, outs, texts, decl = [], [], [], set()
        for si, s in enumerate(steps):
            if s['load']:
                k = (s['cls'], s['ridx']); texts.append('load')
                if k not in used: continue
                e = self.vec(s['cls'], s['lanes'], rnd, mode)
                code.append('%s c%d_%d = %s;' % ('C%d' % k[0] if k not in decl else '', k[0], k[1], e)); decl.add(k)
                continue
            texts.append(s['text'])
            args, pre, post = [], [], []
            for i, a in enumerate(s['args']):
                ls = lanes(a['ty'], a['in']); L = lname(a['ty'])
                if a['kind'] == 1:
                    v = 'c%d_%d' % (a['cls'], a['ridx'])
                    if (a['cls'], a['ridx']) not in decl: raise core.CheckError('plan uses an unset variable')
                    if a['inout']: post.append('o = %s(o, %s);' % (rnd.choice(['put', 'put', 'pute']), v))
                elif a['kind'] == 2:
                    v = 's%d_%d' % (si, i)
                    e = lit(a['ty'], ls[0]) if mode == 'lit' or mode == 'mix' and rnd.random() < .6 else '*opq(&%s[0])' % self.data(a['ty'], ls)
                    pre.append('%s %s = %s;' % (L, v, e))
                    if a['inout']: post.append('o = put(o, %s);' % v)
                else:
                    v = 'm%d_%d' % (si, i)
                    if mode == 'lit' or mode == 'mix' and rnd.random() < .6: pre.append('alignas(%d) %s %s[] = %s;' % (max(a['align'], 1), L, v, arr(a['ty'], ls)))
                    else: pre.append('alignas(%d) %s %s[%d]; std::memcpy(%s, opq(%s), sizeof %s);' % (max(a['align'], 1), L, v, len(ls), v, self.data(a['ty'], ls), v))
                    if a['inout']: post.append('std::memcpy(o, %s, sizeof %s); o += sizeof %s;' % (v, v, v))
                args.append(v)
                if a['inout']: outs.append((a['ty'], len(ls), bytes.fromhex(a['want']), si))
            code += pre + ['%s::body(%s);' % (self.kname(s['t'], s['op']), ', '.join(args))] + post
        b = self.body
        b.append('[[gnu::noinline]] static void p%d(unsigned char* o)\n{\n  %s\n  (void)o;\n}' % (pid, '\n  '.join(code)))
        for i, (ty, n, w, si) in enumerate(outs):
            b.append('static const unsigned char w%d_%d[] = {%s};' % (pid, i, ','.join(map(str, w))))
        b.append('static const Out o%d[] = {%s};' % (pid, ', '.join('{%d, %d, %d, w%d_%d, %d}' % (FTY.get(ty, 0), 1 if ty == 'bool' else C.TYPES[ty][1], n, pid, i, si) for i, (ty, n, w, si) in enumerate(outs)) or '{}'))
        b.append('static const char* const t%d[] = {%s};' % (pid, ', '.join(json.dumps(t[:500]) for t in texts)))
        self.progs.append('{p%d, %d, %d, o%d, t%d},' % (pid, pid, len(outs), pid, pid))
    def source(self):
        o = [PRE]
        for g in self.job.groups: o.append('#include "ops/%s.inc"' % g)
        o.append(PRE2)
        for i, c in enumerate(self.classes): o.append('using C%d = parm<%s, %d>;' % (i, self.kname(c['t'], c['op']), c['arg']))
        return '\n'.join(o + self.body + ['static const Prog progs[] = {'] + self.progs + ['};', POST])

def compile_run(env, text, flags, tag, keep=False):
    """-> list of (program, step, message); raises CheckError; None when out of time"""
    d = os.path.join(env.dir, 'p_' + hashlib.md5(tag.encode()).hexdigest()[:12]); os.makedirs(d, exist_ok=True)
    src, exe = os.path.join(d, 'p.cpp'), os.path.join(d, 'p')
    open(src, 'w').write(text)
    for attempt in range(2):
        rc, out, err = core.sh([core.CXX] + flags + ['-w', '-I' + core.REPO, '-I' + core.ENG, src, '-o', exe], timeout=max(60, min(700, env.left() + 60)))
        if rc == 0: break
        if core.resource_problem(rc, err):
            if env.left() < 60: return None
            continue
    if rc:
        if core.resource_problem(rc, err): raise core.CheckError('compiler failed for lack of resources: ' + err[-300:])
        m = re.search(r'^.*error:.*$', err, re.M)
        return [(-1, -1, 'valid program does not compile: ' + (m.group(0) if m else err[-300:]))]
    rc, out, err = core.sh([exe], timeout=300)
    if not os.environ.get('VERIF_KEEP'): shutil.rmtree(d, ignore_errors=True)
    if 'DONE' not in out: raise core.CheckError('program run failed: rc=%d %s' % (rc, err[-200:]))
    r = []
    for l in out.splitlines():
        if l.startswith('FAIL\t'):
            _, p, s, m = l.split('\t', 3); r.append((int(p), int(s), m))
    return r

def suffix(steps, j, upto):
    """program that loads the model state before step j and executes steps j..upto"""
    state = {}
    for s in steps[:j]:
        if s['load']: state[(s['cls'], s['ridx'])] = s['lanes']
        else:
            for a in s['args']:
                if a['inout'] and a['cls'] >= 0: state[(a['cls'], a['ridx'])] = a['want']
    return [dict(load=1, cls=c, ridx=r, lanes=v) for (c, r), v in state.items()] + steps[j:upto + 1]

def run_one(env, exe, job, opts, nper):
    """Plans with the library compiled by the plan job's flags, then programs at every optimisation level."""
    res = core.run_job(env, exe, job)
    out = dict(job=job, fails=[], errors=[], progs=0, steps=0, lit=0, ops=set(), samples=[], skipped=0)
    if res.get('skipped'): out['skipped'] = 1; return out
    if res.get('error'): out['errors'].append(job.name + ': ' + res['error']); return out
    for f in res.get('failures', []):
        f['isa'] = job.isa; out['fails'].append((f, job))
    q = res.get('res')
    if not q: return out
    plans, classes = q['plans'], q['classes']
    if res.get('flaky'): out['errors'].append('%s: a failure did not reproduce' % job.name)
    for oi, opt in enumerate(opts):
        for i in range(0, len(plans), nper):
            if env.left() < 40: out['skipped'] += 1; continue
            flags = ['-std=' + random.Random(job.name + opt).choice(['gnu++17', 'gnu++20', 'c++17']), '-ffp-contract=off'] + opt.split() + job.flags
            def make(rnd_of):
                g = Gen(job, classes)
                for k in range(i, min(len(plans), i + nper)):
                    rnd = random.Random('%d/%s/%s/%d' % (env.seed, job.name, opt, k))
                    mode = rnd.choice(['lit', 'lit', 'lit', 'mix', 'mix', 'opq'])
                    g.add(k, plans[k], rnd, mode)
                    if rnd_of is not None: rnd_of[k] = mode
                return g.source()
            modes = {}
            try:
                r = compile_run(env, make(modes), flags, job.name + opt + str(i))
            except core.CheckError as e:
                out['errors'].append('%s %s: %s' % (job.name, opt, e)); continue
            if r is None: out['skipped'] += 1; continue
            for k in modes:
                out['progs'] += 1; out['lit'] += modes[k] != 'opq'
                for s in plans[k]:
                    if not s['load']: out['steps'] += 1; out['ops'].add((s['t'], s['op']))
            for pid, step, msg in r[:3]:
                f = dict(kind='prog', op='program', T='', U='', abi=job.tables[0][0], isa=job.isa, why='[%s] %s' % (opt, msg), inputs='', outputs='', flags=flags)
                if pid < 0: out['fails'].append((f, None)); continue
                steps = plans[pid]; last = step if step >= 0 else len(steps) - 1
                # shortest failing suffix, from literal or opaque states
                g = Gen(job, classes); tab = {}
                js = [j for j in range(last, -1, -1) if not steps[j]['load']][:10]
                for j in js:
                    for m in ('lit', 'mix', 'opq'):
                        pk = len(tab); tab[pk] = (j, m); g.add(pk, suffix(steps, j, last), random.Random('%s/%d' % (m, j)), m)
                best = None
                try:
                    rr = compile_run(env, g.source(), flags, 'shrink' + job.name + opt + str(pid))
                    bad = {p: (s2, m2) for p, s2, m2 in (rr or [])}
                    for pk in sorted(tab, key=lambda x: -tab[x][0]):
                        if pk in bad: best = (tab[pk], bad[pk]); break
                except core.CheckError: pass
                g2 = Gen(job, classes)
                if best:
                    (j, m), (s2, m2) = best
                    sub = suffix(steps, j, last); g2.add(0, sub, random.Random('%s/%d' % (m, j)), m)
                    f['why'] = '[%s, %s operands] %s' % (opt, {'lit': 'literal', 'mix': 'partly literal', 'opq': 'opaque'}[m], m2)
                else:
                    sub = steps[:last + 1]
                    rnd = random.Random('%d/%s/%s/%d' % (env.seed, job.name, opt, pid)); md = rnd.choice(['lit', 'lit', 'lit', 'mix', 'mix', 'opq'])
                    g2.add(0, sub, rnd, md)
                f['inputs'] = '; '.join((s.get('text') or 'load') for s in sub if not s['load'])[:800]
                ls = [s for s in sub if not s['load']]
                if ls: f['op'] = ls[-1]['op']
                f['source'] = g2.source()
                out['fails'].append((f, None))
    for p in plans[:1]:
        out['samples'].append('[%s] ' % job.isa + '; '.join(s['text'] for s in p if not s['load'])[:600])
    return out

def run(env, jobs, opts_of, groups, types, pairs, nper):
    exe = core.build_driver(env, groups, types, pairs)
    with cf.ThreadPoolExecutor(core.NPROC) as ex: rs = list(ex.map(lambda j: run_one(env, exe, j, opts_of(j), nper), jobs))
    fails, errors, samples = [], [], []
    n = st = li = sk = 0; ops = set()
    for r in rs:
        fails += r['fails']; errors += r['errors']; samples += r['samples'][:1]; n += r['progs']; st += r['steps']; li += r['lit']; sk += r['skipped']
        ops |= {(r['job'].name,) + o for o in r['ops']}
    cov = dict(evaluations=n, distinct_nontrivial=li, samples=samples[:12], operations_executed=st, distinct_operation_instances=len(ops), libraries=len(jobs), skipped_for_time=sk,
               rule='a case is one generated straight-line program (a random sequence of operations over simd and mask variables) compiled at one optimisation level and compared after every operation with the scalar model; non-trivial: some operands are literals in its source')
    return core.finish(env, fails, cov, errors)

def replay(data):
    f = data['failure']; env = core.Env(data['property'], 'quick', data['seed'])
    try:
        r = compile_run(env, f['source'], f['flags'], 'replay')
        for x in r or []: print(x[2])
        print('VIOLATED' if r else 'held')
        return 1 if r else 0
    finally: env.cleanup()
