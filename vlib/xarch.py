"""Runs the code generated for another architecture on this machine.

clang lowers the library for the foreign target to unoptimised LLVM IR; the few target-specific intrinsics in it are replaced by
element-wise definitions written here from the architecture manuals, vector shifts get the behaviour of the target's shift
instructions (which the library relies on), and the module is then compiled for x86-64. Only little-endian LP64 targets qualify,
so that memory layout and scalar types agree with those the driver uses."""
import re

TARGETS = {
    # name: (clang flags, g++ used to confirm compilation failures, its flags, shift semantics)
    'neon64': (['--target=aarch64-linux-gnu', '-fsigned-char'], 'aarch64-linux-gnu-g++', ['-fsigned-char'], 'saturate'),
    # the 32 bit ARM code; long and pointers stay 64 bit wide, which the SIMD implementation does not depend on
    'neon7': (['--target=aarch64-linux-gnu', '-fsigned-char', '-DVK_CONF=3'], 'arm-linux-gnueabihf-g++', ['-march=armv7-a+simd', '-fsigned-char'], 'saturate'),
    'neon7f': (['--target=aarch64-linux-gnu', '-fsigned-char', '-DVK_CONF=5'], 'arm-linux-gnueabihf-g++', ['-march=armv7-a+simd', '-fsigned-char', '-ffast-math'], 'saturate'),
    'neon8': (['--target=aarch64-linux-gnu', '-fsigned-char', '-DVK_CONF=4'], 'arm-linux-gnueabihf-g++', ['-march=armv8-a+simd', '-fsigned-char'], 'saturate'),
    'ppc8': (['--target=powerpc64le-linux-gnu', '-mcpu=power8', '-fsigned-char'], 'powerpc64le-linux-gnu-g++', ['-mcpu=power8', '-fsigned-char'], 'modulo'),
    'ppc10': (['--target=powerpc64le-linux-gnu', '-mcpu=power10', '-fsigned-char'], 'powerpc64le-linux-gnu-g++', ['-mcpu=power10', '-fsigned-char'], 'modulo'),
}

def split_top(s):
    """Splits at commas outside <>, (), {}, []."""
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<([{': d += 1
        elif c in '>)]}': d -= 1
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out

def vec(ty):
    m = re.fullmatch(r'<(\d+) x (\w+)>', ty)
    return (int(m.group(1)), m.group(2)) if m else None
def bits(e): return {'float': 32, 'double': 64, 'half': 16}.get(e) or int(e[1:])

class Body:
    def __init__(self): self.l, self.n = [], 0
    def op(self, text):
        self.n += 1; r = '%%t%d' % self.n
        self.l.append('  %s = %s' % (r, text)); return r
    def ext(self, ty, v, i): return self.op('extractelement %s %s, i64 %d' % (ty, v, i))
    def build(self, ty, vals):
        e = vec(ty)[1]; cur = 'poison'
        for i, v in enumerate(vals): cur = self.op('insertelement %s %s, %s %s, i64 %d' % (ty, cur, e, v, i))
        return cur

def define(name, ret, args):
    """IR body of one target intrinsic; None if unknown."""
    b = Body()
    def done(v): return b.l + ['  ret %s %s' % (ret, v)]
    va = [vec(a) for a in args]
    m = re.match(r'llvm\.aarch64\.neon\.(\w+)', name)
    if m:
        op = m.group(1)
        if op in ('addp', 'faddp', 'smaxp', 'sminp', 'umaxp', 'uminp', 'fmaxnmp', 'fminnmp', 'fmaxp', 'fminp') and len(args) == 2:
            n, e = va[0]
            el = [b.ext(args[0], '%a0', i) for i in range(n)] + [b.ext(args[1], '%a1', i) for i in range(n)]
            r = []
            for i in range(n):
                x, y = el[2 * i], el[2 * i + 1]
                if op in ('addp', 'faddp'): r.append(b.op(('fadd' if e[0] != 'i' else 'add') + ' %s %s, %s' % (e, x, y)))
                elif op[0] in 'su':
                    c = b.op('icmp %s%s %s %s, %s' % (op[0], 'gt' if 'max' in op else 'lt', e, x, y)); r.append(b.op('select i1 %s, %s %s, %s %s' % (c, e, x, e, y)))
                else: return None
            return done(b.build(ret, r))
        if op in ('saddv', 'uaddv', 'faddv'):
            n, e = va[0]; el = [b.ext(args[0], '%a0', i) for i in range(n)]
            if e[0] != 'i': return None
            s = el[0]
            for x in el[1:]: s = b.op('add %s %s, %s' % (e, s, x))
            if e != ret: s = b.op('%s %s %s to %s' % ('sext' if op[0] == 's' else 'zext', e, s, ret))
            return done(s)
        if op in ('smaxv', 'sminv', 'umaxv', 'uminv'):
            n, e = va[0]; el = [b.ext(args[0], '%a0', i) for i in range(n)]; s = el[0]
            for x in el[1:]:
                c = b.op('icmp %s%s %s %s, %s' % (op[0], 'gt' if 'max' in op else 'lt', e, x, s)); s = b.op('select i1 %s, %s %s, %s %s' % (c, e, x, e, s))
            if e != ret: s = b.op('%s %s %s to %s' % ('sext' if op[0] == 's' else 'zext', e, s, ret))
            return done(s)
        if op in ('sshl', 'ushl') and va[0]:
            n, e = va[0]; w = bits(e); r = []
            for i in range(n):
                x, y = b.ext(args[0], '%a0', i), b.ext(args[1], '%a1', i)
                y = b.op('ashr %s %s, %d' % (e, b.op('shl %s %s, %d' % (e, y, w - 8)), w - 8)) if w > 8 else y
                neg = b.op('icmp slt %s %s, 0' % (e, y)); m_ = b.op('sub %s 0, %s' % (e, y))
                okl = b.op('icmp ult %s %s, %d' % (e, y, w)); okr = b.op('icmp ult %s %s, %d' % (e, m_, w))
                yl = b.op('select i1 %s, %s %s, %s 0' % (okl, e, y, e)); l = b.op('shl %s %s, %s' % (e, x, yl)); l = b.op('select i1 %s, %s %s, %s 0' % (okl, e, l, e))
                yr = b.op('select i1 %s, %s %s, %s %d' % (okr, e, m_, e, w - 1)); rr = b.op('%s %s %s, %s' % ('ashr' if op[0] == 's' else 'lshr', e, x, yr))
                if op[0] == 'u': rr = b.op('select i1 %s, %s %s, %s 0' % (okr, e, rr, e))
                r.append(b.op('select i1 %s, %s %s, %s %s' % (neg, e, rr, e, l)))
            return done(b.build(ret, r))
        if op in ('sabd', 'uabd'):
            n, e = va[0]; r = []
            for i in range(n):
                x, y = b.ext(args[0], '%a0', i), b.ext(args[1], '%a1', i)
                c = b.op('icmp %sgt %s %s, %s' % (op[0], e, x, y)); r.append(b.op('select i1 %s, %s %s, %s %s' % (c, e, b.op('sub %s %s, %s' % (e, x, y)), e, b.op('sub %s %s, %s' % (e, y, x)))))
            return done(b.build(ret, r))
        return None
    m = re.match(r'llvm\.ppc\.altivec\.(\w+)', name)
    if m:
        op = m.group(1)
        def sat(v, f): # i64 -> i32
            c = b.op('icmp sgt i64 %s, 2147483647' % v); v = b.op('select i1 %s, i64 2147483647, i64 %s' % (c, v))
            c = b.op('icmp slt i64 %s, -2147483648' % v); v = b.op('select i1 %s, i64 -2147483648, i64 %s' % (c, v))
            return b.op('trunc i64 %s to i32' % v)
        if op in ('vsum4shs', 'vsum4sbs', 'vsum4ubs'):
            n, e = va[0]; k = n // 4; r = []
            for i in range(4):
                s = b.op('sext i32 %s to i64' % b.ext(args[1], '%a1', i))
                for j in range(k): s = b.op('add i64 %s, %s' % (s, b.op('%s %s %s to i64' % ('zext' if op == 'vsum4ubs' else 'sext', e, b.ext(args[0], '%a0', k * i + j)))))
                r.append(sat(s, 's'))
            return done(b.build(ret, r))
        if op == 'vperm':
            # byte numbers are big-endian: byte k of the pair is little-endian byte 15 - k of the first or 31 - k of the second
            x, y = b.op('bitcast %s %%a0 to <16 x i8>' % args[0]), b.op('bitcast %s %%a1 to <16 x i8>' % args[1])
            p = b.op('shufflevector <16 x i8> %s, <16 x i8> %s, <32 x i32> <%s>' % (x, y, ', '.join('i32 %d' % (15 - k if k < 16 else 16 + 31 - k) for k in range(32))))
            r = []
            for j in range(16):
                k = b.op('and i8 %s, 31' % b.ext(args[2], '%a2', j))
                r.append(b.op('extractelement <32 x i8> %s, i8 %s' % (p, k)))
            v = b.build('<16 x i8>', r)
            return done(b.op('bitcast <16 x i8> %s to %s' % (v, ret)))
        if op == 'vsumsws':
            # the instruction puts the sum into (and takes the addend from) big-endian element 3: little-endian element 0
            s = b.op('sext i32 %s to i64' % b.ext(args[1], '%a1', 0))
            for j in range(4): s = b.op('add i64 %s, %s' % (s, b.op('sext i32 %s to i64' % b.ext(args[0], '%a0', j))))
            return done(b.build(ret, [sat(s, 's'), '0', '0', '0']))
        return None
    return None

def shift_fn(op, n, e, sem):
    w = bits(e); ty = '<%d x %s>' % (n, e); spl = lambda v: '<' + ', '.join('%s %d' % (e, v) for _ in range(n)) + '>'
    o = ['define internal %s @vx.%s.v%d%s(%s %%a, %s %%b) alwaysinline {' % (ty, op, n, e, ty, ty)]
    if sem == 'modulo':
        o += ['  %%m = and %s %%b, %s' % (ty, spl(w - 1)), '  %%r = %s %s %%a, %%m' % (op, ty)]
    else:
        o += ['  %%c = icmp ult %s %%b, %s' % (ty, spl(w)), '  %%m = select <%d x i1> %%c, %s %%b, %s %s' % (n, ty, ty, spl(w - 1)), '  %%q = %s %s %%a, %%m' % (op, ty)]
        if op == 'ashr': o += ['  %%r = select <%d x i1> %%c, %s %%q, %s %%q' % (n, ty, ty)]
        else: o += ['  %%r = select <%d x i1> %%c, %s %%q, %s zeroinitializer' % (n, ty, ty)]
    return o + ['  ret %s %%r' % ty, '}']

def div_fn(op, n, e):
    # total, as the targets' divide instructions are; narrow elements are divided after promotion in C++, so MIN / -1 wraps
    w = bits(e); ty = '<%d x %s>' % (n, e); spl = lambda v: '<' + ', '.join('%s %d' % (e, v) for _ in range(n)) + '>'; b1 = '<%d x i1>' % n
    o = ['define internal %s @vx.%s.v%d%s(%s %%a, %s %%b) alwaysinline {' % (ty, op, n, e, ty, ty)]
    o += ['  %%z = icmp eq %s %%b, zeroinitializer' % ty]
    d = op[0] + 'div'
    if op[0] == 's':
        o += ['  %%m = icmp eq %s %%b, %s' % (ty, spl(-1)), '  %%n = icmp eq %s %%a, %s' % (ty, spl(-(1 << (w - 1)))), '  %%o = and %s %%m, %%n' % b1, '  %%x = or %s %%o, %%z' % b1]
    else: o += ['  %%x = or %s %%z, %%z' % b1]
    o += ['  %%c = select %s %%x, %s %s, %s %%b' % (b1, ty, spl(1), ty), '  %%q0 = %s %s %%a, %%c' % (d, ty), '  %%q = select %s %%z, %s zeroinitializer, %s %%q0' % (b1, ty, ty)]
    if op.endswith('rem'): o += ['  %%p = mul %s %%q, %%b' % ty, '  %%r = sub %s %%a, %%p' % ty]
    else: o += ['  %%r = add %s %%q, zeroinitializer' % ty]
    return o + ['  ret %s %%r' % ty, '}']

def to_x86(ll, target):
    """Returns (x86 module text, list of intrinsics without a definition)."""
    sem = TARGETS[target][3]
    out, shifts, unknown, defs = [], {}, [], []
    fixed = re.sub(r'^target datalayout.*$', 'target datalayout = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128"', ll, flags=re.M)
    fixed = re.sub(r'^target triple.*$', 'target triple = "x86_64-pc-linux-gnu"', fixed, flags=re.M)
    fixed = re.sub(r' "(target-cpu|target-features|tune-cpu)"="[^"]*"', '', fixed)
    if 'module asm' in fixed: unknown.append('module asm')
    for l in fixed.splitlines():
        if l.startswith('attributes #'): l = re.sub(r'vscale_range\([^)]*\)', '', l)
        elif l.startswith('declare'):
            m = re.match(r'declare (.*?)@(llvm\.(?:aarch64|ppc|arm)\.[\w.]+)\((.*)\)', l)
            if m:
                strip = lambda t: re.sub(r'\b(noundef|zeroext|signext|immarg|nonnull|range\([^)]*\))\b', '', t).strip()
                ret, args = strip(m.group(1)), [strip(a) for a in split_top(m.group(3))]
                body = define(m.group(2), ret, args)
                if body is None: unknown.append(m.group(2)); out.append(l); continue
                out.append('define internal %s @vx.%s(%s) alwaysinline {' % (ret, m.group(2), ', '.join('%s %%a%d' % (a, i) for i, a in enumerate(args))))
                out += body + ['}']; defs.append(m.group(2)); continue
        else:
            m = re.match(r'(\s+%[\w.]+ = )(shl|lshr|ashr|sdiv|udiv|srem|urem)(?: nuw| nsw| exact)* (<(\d+) x (i\d+)>) (.*)$', l)
            if m:
                n, e = int(m.group(4)), m.group(5)
                ops = split_top(m.group(6))
                shifts[(m.group(2), n, e)] = 1
                out.append('%scall %s @vx.%s.v%d%s(%s %s, %s %s)' % (m.group(1), m.group(3), m.group(2), n, e, m.group(3), ops[0], m.group(3), ops[1])); continue
            if ' asm ' in l and 'call' in l:
                m = re.search(r'asm (?:\w+ )*"([^"]*)"', l)
                if m and m.group(1): unknown.append('asm ' + m.group(1))
        out.append(l)
    text = '\n'.join(out)
    for d in defs: text = re.sub(r'@%s\b(?!\.)' % re.escape(d), '@vx.' + d, text).replace('@vx.vx.', '@vx.')
    for (op, n, e) in shifts: text += '\n' + '\n'.join(div_fn(op, n, e) if op[1:] in ('div', 'rem') else shift_fn(op, n, e, sem))
    return text + '\n', unknown
