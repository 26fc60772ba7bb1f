"""C23: histories of install.sh invocations against a model of the destination tree.

Everything happens below one scratch directory, as an unprivileged user that owns nothing else."""
import concurrent.futures as cf, os, random, re, shutil, stat, subprocess, tempfile, json
from . import core
UID = 65534

def run(cmd, cwd, env=None, timeout=60, user=True):
    kw = dict(user=UID, group=UID, extra_groups=[]) if user else {}
    e = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'HOME': cwd, 'LC_ALL': 'C'}
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        return -999, 'timeout'

def own(path):
    for d, ds, fs in os.walk(path):
        os.lchown(d, UID, UID)
        for f in fs: os.lchown(os.path.join(d, f), UID, UID)

def tree(root):
    """relative path -> ('d',) or ('f', bytes); unreadable things cannot occur, this runs as root"""
    t = {}
    for d, ds, fs in os.walk(root):
        for x in ds: t[os.path.relpath(os.path.join(d, x), root)] = ('d',)
        for x in fs:
            p = os.path.join(d, x)
            t[os.path.relpath(p, root)] = ('l', os.readlink(p)) if os.path.islink(p) else ('f', open(p, 'rb').read())
    return t

def closure(src):
    """Headers reachable from experimental/simd through #include \"...\" on any target."""
    seen, todo = set(), ['experimental/simd']
    while todo:
        f = todo.pop()
        if f in seen: continue
        seen.add(f)
        for m in re.findall(r'^\s*#\s*include\s*[<"]([^">]+)[">]', open(os.path.join(src, f), encoding='utf8', errors='replace').read(), re.M):
            for c in (os.path.normpath(os.path.join(os.path.dirname(f), m)), m):
                if os.path.isfile(os.path.join(src, c)) and c.startswith('experimental/'): todo.append(c); break
    return seen

FAKE = '''#!/bin/sh
# stand-in for the compiler: succeeds, prints a preprocessed <vector> from the scratch directory
for a in "$@"; do case "$a" in -E) echo '# 1 "<stdin>"'; echo '# 1 "%s/vector" 1 3'; exit 0;; esac; done
cat > /dev/null
exit %d
'''
DIRS = ['inc', 'with space', 'a/b/c', 'dot.d', "quo'te", 'x-y_z+1', 'dollar$HOME', 'star*', 'semi;colon', 'experimental']
ALIEN = ['experimental/simd_user', 'experimental/simd.bak', 'experimental/bits/simd_user.h', 'experimental/bits/simdx.h.orig', 'experimental/bits/lfts_config.h', 'experimental/numeric', 'vector', 'bits/stl_vector.h', 'experimental/bits/sub/simd.h', 'simd.h', 'experimental/bits/numeric_traits.hpp', 'install.sh', 'experimental/bits/simd', 'bits/numeric_traits.h']
BADOPT = ['--foo', '-x', '--includedirs=/nowhere', 'inc', '--install', '--gxxx=g++', '-includedir=x', '--uninstal', '--', '-', '--Uninstall']

def gen_history(r):
    h = []
    n = r.randint(2, 10)
    for _ in range(n):
        k = r.random()
        d = r.randrange(3)
        if k < .30: h.append(['install', d, r.choice(['=', ' ']), r.choice(['abs', 'rel', 'trail']), r.choice(['abs', 'rel', 'bash', 'in'])])
        elif k < .48: h.append(['uninstall', d, r.choice(['=', ' ']), r.choice(['abs', 'rel', 'trail']), r.choice(['abs', 'rel', 'bash', 'in']), r.random() < .5])
        elif k < .60: h.append(['alien', d, r.choice(ALIEN)])
        elif k < .67: h.append(['damage', d, r.random()])
        elif k < .72: h.append(['delete', d, r.random()])
        elif k < .79: h.append(['badopt', d, r.choice(BADOPT), r.random() < .5, r.random() < .3])
        elif k < .84: h.append(['missing', d, r.random() < .3])
        elif k < .89: h.append(['readonly', d, r.random() < .3])
        elif k < .94: h.append(['badcompiler', d, r.choice(['fail', 'absent'])])
        elif k < .97: h.append(['block', d, r.choice(['exp-file', 'bits-file', 'bits-ro', 'exp-ro'])])
        else: h.append(['default', d, r.random() < .5])
        if r.random() < .04: h.append(['stuck', d])
    return h

class Failed(Exception): pass

def run_history(src, names, installed, needed, hist, base):
    """Returns None or a description of the first difference. installed: {relpath: bytes} of a reference installation."""
    work = tempfile.mkdtemp(prefix='h', dir=base)
    try:
        os.chmod(work, 0o755)
        root = os.path.join(work, 'r'); os.mkdir(root)
        dirs = [os.path.join(root, names[i]) for i in range(3)]
        for d in dirs: os.makedirs(d, exist_ok=True)
        with open(os.path.join(root, 'outside.txt'), 'w') as f: f.write('x')
        ok, bad = os.path.join(work, 'okcxx'), os.path.join(work, 'badcxx')
        for p, rc in ((ok, 0), (bad, 1)):
            open(p, 'w').write(FAKE % (os.path.join(root, 'nodefault'), rc)); os.chmod(p, 0o755)
        own(work)
        script = os.path.join(src, 'install.sh')
        model = tree(root)
        srcmodel = tree(src)
        rel = lambda d: os.path.relpath(d, root)
        def call(args, how, cwd):
            if how == 'abs': c = [script]
            elif how == 'bash': c = ['/bin/sh', script]
            elif how == 'in': cwd = src; c = ['./install.sh']
            else: c = [os.path.relpath(script, cwd)]
            return run(c + args, cwd), cwd
        def dirarg(d, style, cwd):
            return os.path.relpath(d, cwd) if style == 'rel' else d + '/' if style == 'trail' else d
        def expect(i, what, rcwant, out, rc):
            nonlocal model
            now = tree(root)
            if now != model:
                diff = ['%s: %s' % (k, 'missing' if k not in now else 'unexpected' if k not in model else 'different') for k in sorted(set(now) | set(model)) if now.get(k) != model.get(k)]
                raise Failed('step %d %s: destination tree differs from the model: %s; output: %s' % (i, what, '; '.join(diff[:6]), out[-400:]))
            if rcwant is not None and (rc == 0) != rcwant:
                raise Failed('step %d %s: exit status %d; output: %s' % (i, what, rc, out[-400:]))
            if tree(src) != srcmodel: raise Failed('step %d %s: the source tree changed' % (i, what))
        def add_dirs(p):
            while p and p != '.':
                model.setdefault(p, ('d',)); p = os.path.dirname(p)
        for i, s in enumerate(hist):
            op, d = s[0], dirs[s[1]]; D = rel(d)
            what = json.dumps(s)
            cwd = root
            full = [os.path.normpath(os.path.join(D, x)) for x in installed]
            if op in ('install', 'uninstall', 'default'):
                how = s[4] if len(s) > 4 else 'abs'
                style = s[3] if len(s) > 3 else 'abs'
                cw = src if how == 'in' else cwd
                blocked = any(model.get(os.path.normpath(os.path.join(D, x)), ('d',))[0] != 'd' for x in ('experimental', 'experimental/bits')) or any(model.get(f, ('f',))[0] == 'd' for f in full)
                if blocked: continue
                if op == 'default':
                    f = os.path.join(work, 'defcxx%d' % i)
                    open(f, 'w').write(FAKE % (d, 0)); os.chmod(f, 0o755)
                    if re.search(r'[\s\'"$*;]', D): continue
                    args = ['--gxx', f] if s[2] else ['--gxx=' + f]
                else:
                    da = dirarg(d, style, cw)
                    args = ['--includedir=' + da] if s[2] == '=' else ['--includedir', da]
                    args += ['--gxx=' + ok]
                if op == 'uninstall': args = ['--uninstall'] + args if s[5] else args + ['--uninstall']
                (rc, out), _ = call(args, how, cw)
                if op == 'uninstall':
                    for f in full: model.pop(f, None)
                else:
                    for x, f in zip(installed, full):
                        add_dirs(os.path.dirname(f)); model[f] = ('f', installed[x])
                expect(i, what, True, out, rc)
                if op != 'uninstall':
                    for x in installed:
                        m = os.stat(os.path.join(d, x)).st_mode
                        if not m & stat.S_IRUSR or not m & stat.S_IROTH: raise Failed('step %d %s: %s is not readable for everybody' % (i, what, x))
            elif op == 'alien':
                f = os.path.join(d, s[2]); k = os.path.normpath(os.path.join(D, s[2]))
                if s[2] in installed: continue
                q = os.path.dirname(k); clash = False
                while q and q != '.':
                    if model.get(q, ('d',))[0] != 'd': clash = True
                    q = os.path.dirname(q)
                if clash or model.get(k, ('f',))[0] == 'd': continue
                os.makedirs(os.path.dirname(f), exist_ok=True)
                open(f, 'w').write('alien %d' % i); own(root)
                add_dirs(os.path.dirname(k)); model[k] = ('f', b'alien %d' % i)
            elif op in ('damage', 'delete'):
                have = [f for f in full if f in model]
                if not have: continue
                f = have[int(s[2] * len(have))]
                p = os.path.join(root, f)
                if op == 'damage': open(p, 'ab').write(b'\n// changed\n'); model[f] = ('f', open(p, 'rb').read())
                else: os.remove(p); del model[f]
            elif op == 'badopt':
                good = ['--includedir=' + d, '--gxx=' + ok] + (['--uninstall'] if s[4] else [])
                rc, out = run([script] + ([s[2]] + good if s[3] else good + [s[2]]), cwd)
                expect(i, what, False, out, rc)
            elif op == 'missing':
                rc, out = run([script, '--includedir=' + d + '/does/not/exist', '--gxx=' + ok] + (['--uninstall'] if s[2] else []), cwd)
                expect(i, what, False, out, rc)
            elif op == 'readonly':
                os.chmod(d, 0o555)
                rc, out = run([script, '--includedir=' + d, '--gxx=' + ok] + (['--uninstall'] if s[2] else []), cwd)
                os.chmod(d, 0o755)
                expect(i, what, False, out, rc)
            elif op == 'badcompiler':
                rc, out = run([script, '--includedir=' + d, '--gxx=' + (bad if s[2] == 'fail' else work + '/absent')], cwd)
                expect(i, what, False, out, rc)
            elif op == 'stuck':
                # headers that cannot be removed
                b = os.path.join(d, 'experimental', 'bits')
                if not any(f in model for f in full if '/bits/' in f) or model.get(os.path.normpath(os.path.join(D, 'experimental/bits')), ('f',))[0] != 'd': continue
                os.chmod(b, 0o555)
                rc, out = run([script, '--uninstall', '--includedir=' + d, '--gxx=' + ok], cwd)
                os.chmod(b, 0o755)
                if rc == 0: raise Failed('step %d %s: exit status 0 although headers could not be removed; output: %s' % (i, what, out[-300:]))
                for f in full: # which of the others were removed is not specified
                    if not os.path.lexists(os.path.join(root, f)): model.pop(f, None)
                expect(i, what, False, out, rc)
            elif op == 'block':
                # a failing copy must not be reported as success, and must not harm other files
                e, b = os.path.join(d, 'experimental'), os.path.join(d, 'experimental', 'bits')
                if any(os.path.normpath(os.path.join(D, x)) in model for x in ('experimental', 'experimental/bits')): continue
                if s[2] == 'exp-file': open(e, 'w').write('x'); obst = [e]
                elif s[2] == 'bits-file': os.mkdir(e); open(b, 'w').write('x'); obst = [b, e]
                else:
                    os.makedirs(b); obst = [b, e]
                own(root)
                if s[2] == 'bits-ro': os.chown(b, 0, 0)
                if s[2] == 'exp-ro': os.chown(b, 0, 0); os.chown(e, 0, 0)
                before = {k: v for k, v in model.items()}
                rc, out = run([script, '--includedir=' + d, '--gxx=' + ok], cwd)
                now = tree(root)
                lost = [k for k in before if now.get(k) != before[k]]
                if lost: raise Failed('step %d %s: a failing installation changed %s' % (i, what, lost[:4]))
                if rc == 0: raise Failed('step %d %s: exit status 0 although not all headers could be installed; output: %s' % (i, what, out[-300:]))
                shutil.rmtree(e) if os.path.isdir(e) else os.remove(e)
                if tree(root) != before: raise Failed('step %d %s: files outside experimental/ appeared' % (i, what))
        return None
    except Failed as e:
        return str(e)
    finally:
        subprocess.run(['chmod', '-R', 'u+rwx', work]); shutil.rmtree(work, ignore_errors=True)

def c23(env):
    quick = env.tier == 'quick'
    base = tempfile.mkdtemp(prefix='vinst-'); os.chmod(base, 0o755)
    fails, errors, samples = [], [], []
    try:
        src = os.path.join(base, 'source tree'); os.makedirs(src)
        shutil.copy(os.path.join(core.REPO, 'install.sh'), src); os.chmod(os.path.join(src, 'install.sh'), 0o755)
        shutil.copytree(os.path.join(core.REPO, 'experimental'), os.path.join(src, 'experimental'))
        rc, out = run(['id', '-u'], base)
        if out.strip() != str(UID): raise core.CheckError('cannot become an unprivileged user')
        needed = closure(src)
        # reference installation with the real compiler
        ref = os.path.join(base, 'ref'); os.makedirs(ref); own(ref)
        def F(op, why, inputs=''): fails.append((dict(kind='install', op=op, T='', U='', abi='', why=why, inputs=inputs), None))
        rc, out = run([os.path.join(src, 'install.sh'), '--gxx=' + shutil.which('g++'), '--includedir=' + ref], base, timeout=120)
        t = tree(ref)
        installed = {k: v[1] for k, v in t.items() if v[0] == 'f'}
        if rc: F('reference', 'installation into an empty directory failed with status %d: %s' % (rc, out[-500:]))
        for k in sorted(needed):
            if k not in installed: F('reference', 'needed header %s is not installed' % k)
        for k in sorted(installed):
            if not os.path.isfile(os.path.join(src, k)): F('reference', 'installed file %s does not exist in the source tree' % k)
            elif open(os.path.join(src, k), 'rb').read() != installed[k]: F('reference', 'installed file %s differs from the source' % k)
        n = nt = 0
        if not fails:
            # the installed headers are used and sufficient
            prog = os.path.join(base, 'p.cpp')
            open(prog, 'w').write('#include <experimental/simd>\nnamespace s = std::experimental;\nusing V = s::native_simd<float>;\nint main() { V x([](int i) { return i; }); s::fixed_size_simd<int, 5> y = 3; auto z = sin(x) + x * x; return all_of(y * y == 9) && z[0] == 0 ? 0 : 1; }\n')
            exe = os.path.join(base, 'exe')
            confs = [['g++', '-march=x86-64'], ['g++', '-march=x86-64-v3'], ['g++', '-march=skylake-avx512']] + ([['clang++', '--target=aarch64-linux-gnu', '-D__GLIBCXX_BITSIZE_INT_N_0=128']] if False else [])
            for c in confs:
                dep = {}
                for root in (ref, src):
                    rc, out, err = core.sh(c + ['-std=c++17', '-M', '-I' + root, prog], timeout=100)
                    dep[root] = {os.path.relpath(x, root) for x in re.findall(r'(?:\\.|[^\s\\])+', out.replace('\\\n', ' ').replace('\\ ', '\x01')) for x in [x.replace('\x01', ' ')] if x.startswith(root + '/')}
                    if rc: F('compile', '%s: #include <experimental/simd> fails with -I%s: %s' % (c, 'DIR' if root == ref else 'SOURCE', err[-300:]))
                n += 1
                if dep[ref] != dep[src]: F('compile', 'headers used after installation differ: %s' % sorted(dep[ref] ^ dep[src]))
                rc, out, err = core.sh(c + ['-std=c++17', '-O1', '-w', '-I' + ref, prog, '-o', exe], timeout=200)
                if rc: F('compile', '%s: program does not compile against the installed headers: %s' % (c, err[-300:]))
                elif core.sh([exe], timeout=20)[0] not in (0, -4): F('compile', 'program gives a different result with the installed headers')
            # histories
            rnd = random.Random(env.seed)
            hs = []
            for k in range(600 if quick else 6000):
                names = rnd.sample(DIRS, 3)
                hs.append((names, gen_history(rnd)))
            seen = set()
            def one(x):
                if env.left() < 20: return x, 'skip'
                return x, run_history(src, x[0], installed, needed, x[1], base)
            with cf.ThreadPoolExecutor(core.NPROC) as ex:
                for (names, h), e in ex.map(one, hs):
                    if e == 'skip': continue
                    n += 1
                    key = json.dumps([names, h])
                    if key not in seen and len({s[0] for s in h}) >= 3: nt += 1
                    seen.add(key)
                    if len(samples) < 6 and len(h) > 4: samples.append(json.dumps(h))
                    if e and len(fails) < 3:
                        # shrink: drop steps, then simplify directory names
                        cur, why = list(h), e
                        changed = True
                        while changed:
                            changed = False
                            for i in range(len(cur)):
                                c = cur[:i] + cur[i + 1:]
                                w = run_history(src, names, installed, needed, c, base) if c else None
                                if w: cur, why, changed = c, w, True; break
                        nm = list(names)
                        for i in range(3):
                            c = nm[:i] + [['p', 'q', 's'][i]] + nm[i + 1:]
                            w = run_history(src, c, installed, needed, cur, base)
                            if w: nm, why = c, w
                        F('history', why, json.dumps(dict(directories=nm, steps=cur)))
        cov = dict(evaluations=n, distinct_nontrivial=nt, samples=samples,
                   rule='a case is a history of 2 to 10 steps (install, uninstall, foreign files, damaged and deleted headers, unknown options, missing or read-only destination, failing compiler, obstacles, default directory) over three destination directories; the trees are compared with the model after every step. Non-trivial: at least three different kinds of steps and a new history.',
                   installed_files=len(installed), needed_headers=len(needed))
        return core.finish(env, fails, cov, errors)
    finally:
        subprocess.run(['chmod', '-R', 'u+rwx', base]); shutil.rmtree(base, ignore_errors=True)

def replay(data):
    f = data['failure']
    if f['op'] != 'history': return None
    x = json.loads(f['inputs'])
    base = tempfile.mkdtemp(prefix='vinst-'); os.chmod(base, 0o755)
    try:
        src = os.path.join(base, 'source tree'); os.makedirs(src)
        shutil.copy(os.path.join(core.REPO, 'install.sh'), src); os.chmod(os.path.join(src, 'install.sh'), 0o755)
        shutil.copytree(os.path.join(core.REPO, 'experimental'), os.path.join(src, 'experimental'))
        ref = os.path.join(base, 'ref'); os.makedirs(ref); own(ref)
        run([os.path.join(src, 'install.sh'), '--gxx=' + shutil.which('g++'), '--includedir=' + ref], base, timeout=120)
        installed = {k: v[1] for k, v in tree(ref).items() if v[0] == 'f'}
        w = run_history(src, x['directories'], installed, closure(src), x['steps'], base)
        print(w or 'no difference')
        return 1 if w else 0
    finally:
        subprocess.run(['chmod', '-R', 'u+rwx', base]); shutil.rmtree(base, ignore_errors=True)
