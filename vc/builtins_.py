"""Contracts of externals: LLVM intrinsics, libc, and the vc_* harness vocabulary."""
import z3, re, xnf
from vals import *
from mem import *
from engine import *
import math, os

def cstr(eng, st, p):
    out = []; o = p.o
    while True:
        c = load(eng, st, Ptr(p.r, o), 1)
        if type(c) is not int: raise Unsupported('symbolic C string')
        if c == 0: return ''.join(out)
        out.append(chr(c)); o += 1

# ------------------------------------------------------------------ AES algebra (FIPS-197 round pieces as functions with their laws)
B128 = z3.BitVecSort(128)
SRSB = z3.Function('ShiftRowsSubBytes', B128, B128); ISRSB = z3.Function('InvShiftRowsSubBytes', B128, B128)
MC = z3.Function('MixColumns', B128, B128); IMC = z3.Function('InvMixColumns', B128, B128)
SBOX8 = z3.Function('SBox', z3.BitVecSort(8), z3.BitVecSort(8))
SB = []
def _mk_sbox():
    p = q = 1; s = [0] * 256
    while True:
        p = p ^ ((p << 1) & 255) ^ (0x1b if p & 128 else 0)
        q ^= q << 1; q ^= q << 2; q ^= q << 4; q &= 255
        if q & 128: q ^= 9
        x = q ^ ((q << 1 | q >> 7) & 255) ^ ((q << 2 | q >> 6) & 255) ^ ((q << 3 | q >> 5) & 255) ^ ((q << 4 | q >> 4) & 255)
        s[p] = (x ^ 0x63) & 255
        if p == 1: break
    s[0] = 0x63
    return s
SB = _mk_sbox(); ISB = [0] * 256
for i, x in enumerate(SB): ISB[x] = i
def _by(v): return [(v >> (8 * i)) & 255 for i in range(16)]
def _fb(b): return sum(x << (8 * i) for i, x in enumerate(b))
def _xt(a, b):
    r = 0
    while b:
        if b & 1: r ^= a
        a = (a << 1) ^ (0x11b if a & 128 else 0); b >>= 1
    return r & 255
def c_srsb(v):
    b = _by(v); return _fb([SB[b[(i + 4 * (i % 4)) % 16]] for i in range(16)])
def c_isrsb(v):
    b = _by(v); return _fb([ISB[b[(i - 4 * (i % 4)) % 16]] for i in range(16)])
def c_mix(v, m):
    b = _by(v); o = [0] * 16
    for c in range(4):
        for r in range(4):
            x = 0
            for k in range(4): x ^= _xt(b[4 * c + k], m[(k - r) % 4])
            o[4 * c + r] = x
    return _fb(o)
def isapp(t, f): return isinstance(t, BVR) and t.num_args() == 1 and t.decl().eq(f)
def a_srsb(v):
    if type(v) is int: return c_srsb(v)
    if isapp(v, ISRSB): return v.arg(0)
    v = xnf.canon(v)
    if type(v) is int: return c_srsb(v)
    if isapp(v, ISRSB): return v.arg(0)
    if v.decl().kind() == z3.Z3_OP_CONCAT or v.decl().kind() == z3.Z3_OP_BXOR:
        c = [z3.simplify(z3.Extract(32 * k + 31, 32 * k, v)) for k in range(4)]
        if all(x.eq(c[0]) for x in c[1:]):           # four equal columns: ShiftRows is the identity on them
            w = a_subw(norm(c[0])); return concat([(w, 32)] * 4)
    return SRSB(v)
def a_isrsb(v):
    if type(v) is int: return c_isrsb(v)
    v = xnf.canon(v)
    if type(v) is int: return c_isrsb(v)
    if isapp(v, SRSB): return v.arg(0)
    return ISRSB(v)
def a_mc(v):
    if type(v) is int: return c_mix(v, [2, 3, 1, 1])
    v = xnf.canon(v)
    if type(v) is int: return c_mix(v, [2, 3, 1, 1])
    if isapp(v, IMC): return v.arg(0)
    return MC(v)
def a_imc(v):
    v = xnf.canon(v)
    if type(v) is int: return c_mix(v, [14, 11, 13, 9])
    if isapp(v, MC): return v.arg(0)
    r = xnf.xnf(v)
    if r is not None:       # linear: split off the atoms that fill the whole block
        g, cs = r; n = len(cs); whole = [a for a, o in cs[0][0] if o == 0 and xnf.KEEP[a].size() == 128 and all((a, j) in cs[j][0] for j in range(n))]
        if whole and (len(whole) > 1 or any(len(c[0]) > 1 or c[1] for c in cs)):
            t = 0; rest = to_bv(v, 128)
            for a in sorted(whole): t = op_xor(t, a_imc(xnf.KEEP[a]), 128); rest = rest ^ xnf.KEEP[a]
            return op_xor(t, a_imc(xnf.canon(rest)), 128)
    return IMC(v)
def a_subw(v):
    if type(v) is int: return sum(SB[(v >> (8 * i)) & 255] << (8 * i) for i in range(4))
    v = xnf.canon(v)
    if type(v) is int: return a_subw(v)
    return concat([(SBOX8(to_bv(extract(v, 8 * k + 7, 8 * k, 32), 8)), 8) if not isinstance(extract(v, 8 * k + 7, 8 * k, 32), int) else (SB[extract(v, 8 * k + 7, 8 * k, 32)], 8) for k in (3, 2, 1, 0)])
def aesenc(x, k): return op_xor(a_mc(a_srsb(bvn(x))), bvn(k), 128)
def aesenclast(x, k): return op_xor(a_srsb(bvn(x)), bvn(k), 128)
def aesdec(x, k): return op_xor(a_imc(a_isrsb(bvn(x))), bvn(k), 128)
def aesdeclast(x, k): return op_xor(a_isrsb(bvn(x)), bvn(k), 128)
def bvn(v):
    if isinstance(v, BVR) and v.num_args() > 1 and v.decl().kind() in (z3.Z3_OP_CONCAT,):
        v = z3.simplify(v) if False else v
    return norm(v)
def keygenassist(x, imm):
    w = [extract(x, 32 * i + 31, 32 * i, 128) for i in range(4)]
    def rot(v): return concat([(extract(v, 7, 0, 32), 8), (extract(v, 31, 8, 32), 24)])
    s1, s3 = a_subw(w[1]), a_subw(w[3])
    return concat([(op_xor(rot(s3), imm, 32), 32), (s3, 32), (op_xor(rot(s1), imm, 32), 32), (s1, 32)])

# ------------------------------------------------------------------ carry-less multiplication, bilinear normal form
CLM = z3.Function('clmul64', z3.BitVecSort(64), z3.BitVecSort(64), B128)
def xor_terms(v, w):
    v = norm(v)
    if type(v) is int: return [v] if v else []
    if v.decl().kind() == z3.Z3_OP_BXOR:
        r = []
        for c in v.children(): r += xor_terms(c, w)
        return r
    return [v]
def clmul(a, b):
    a = norm(to_bv(a, 64)); b = norm(to_bv(b, 64))
    if type(a) is int and type(b) is int:
        r = 0
        for i in range(64):
            if (b >> i) & 1: r ^= a << i
        return r
    r = 0
    for x in xor_terms(a, 64):
        for y in xor_terms(b, 64):
            if type(x) is int and type(y) is int: t = clmul(x, y)
            elif type(x) is int or type(y) is int:
                if type(x) is int: c, v = x, y
                else: c, v = y, x
                t = 0
                for i in range(64):
                    if (c >> i) & 1:
                        parts = [(0, 64 - i), (v, 64)] + ([(0, i)] if i else [])
                        t = op_xor(t, concat(parts), 128)
            else:
                p, q = (x, y) if x.get_id() <= y.get_id() else (y, x)
                t = CLM(p, q)
            r = op_xor(r, t, 128)
    return r

# ------------------------------------------------------------------ wires
def dec(eng, st, v):
    if isinstance(v, BVR):
        if v.num_args() == 1 and v.decl().eq(ENC):
            b = v.arg(0)
            if z3.is_true(b): return True
            if z3.is_false(b): return False
            return b
        if v.decl().kind() == ITE:
            c = v.arg(0)
            if has_label(c): eng.fail(st, 'oblivious', 'selection depends on the content of a wire label')
            return bite(c, dec(eng, st, v.arg(1)), dec(eng, st, v.arg(2)))
        k = z3.simplify(v)
        if not k.eq(v): return dec(eng, st, k)
    eng.fail(st, 'wire', 'value passed to a gate is not a wire label (uninitialised or altered): %s' % str(v)[:120])
def enc(b): return ENC(zb(b))

import math, os
def fmath(n):
    fn = {'log2': math.log2, 'ceil': math.ceil, 'floor': math.floor, 'sqrt': math.sqrt, 'log': math.log, 'fabs': abs, 'round': lambda x: math.floor(x + 0.5)}[n]
    def f(e, st, a, i):
        if type(a[0]) is not float: raise Unsupported('symbolic floating point in ' + n)
        return float(fn(a[0]))
    return f
class Builtins:
    def __init__(s):
        s.d = {}; s.cache = {}; s.pats = []
    def get(s, n): return s.d.get(n)
    def reg(s, n, f): s.d[n] = f
    def pattern(s, n):
        for p, f in s.pats:
            if p.search(n): return f
        return None
    def intrinsic(s, n):
        h = s.cache.get(n)
        if h is None:
            h = s.cache[n] = mk_intrinsic(n)
        return h

def lanes(v, w, n): return [extract(v, i*w+w-1, i*w, w*n) for i in range(n)]
def unl(ls, w): return concat([(x, w) for x in reversed(ls)])

def mk_intrinsic(n):
    b = n[5:]
    if b.startswith(('lifetime', 'dbg', 'invariant', 'experimental.noalias', 'prefetch', 'donothing', 'stackrestore', 'va_end', 'sideeffect')):
        return lambda e, st, a, i: NULL
    if b.startswith('stacksave'): return lambda e, st, a, i: NULL
    if b.startswith(('memcpy', 'memmove')):
        def f(e, st, a, i):
            if b.startswith('memcpy') and a[0].r == a[1].r and a[0].r != 0:
                # overlap check
                d = L(off_lin(a[0].o)).add(off_lin(a[1].o), -1); n = a[2] if type(a[2]) in (int, Lin) else term_lin(a[2])
                if not (d.isconst() and d.c == 0):
                    c1 = Rel('ge', d.add(n, -1)); c2 = Rel('ge', d.scale(-1).add(n, -1))
                    if not (st.entails(c1) or st.entails(c2)):
                        e.oblige(st, z3.Or(c1.z(), c2.z()), 'memcpy source and destination do not overlap', 'memory')
            memcpy(e, st, a[0], a[1], a[2], b.split('.')[0])
        return f
    if b.startswith('memset'): return lambda e, st, a, i: memset(e, st, a[0], a[1], a[2])
    if b.startswith('expect'): return lambda e, st, a, i: a[0]
    if b.startswith('assume'):
        def f(e, st, a, i): st.assume(a[0])
        return f
    m = re.match(r'(u|s)(min|max)\.i(\d+)$', b)
    if m:
        w = int(m.group(3)); p = m.group(1) + ('lt' if m.group(2) == 'min' else 'gt')
        def f(e, st, a, i):
            c = op_icmp(p, a[0], a[1], w); d = st.quick(c) if not isinstance(c, bool) else c
            if d is not None: return a[0] if d else a[1]
            if type(a[0]) is Lin or type(a[1]) is Lin:
                d = e.decide(st, c)
                if d is not None: return a[0] if d else a[1]
                s2 = st.clone(); s2.assume(znot(c)); st.assume(c)
                return Outcomes([(st, a[0]), (s2, a[1])])
            return ite(c, a[0], a[1], w)
        return f
    m = re.match(r'(log2|ceil|floor|sqrt|round|log|fabs)\.f64$', b)
    if m: return fmath(m.group(1))
    m = re.match(r'abs\.i(\d+)$', b)
    if m:
        w = int(m.group(1))
        return lambda e, st, a, i: ite(op_icmp('slt', a[0], 0, w), op_sub(0, a[0], w), a[0], w)
    m = re.match(r'ctpop\.i(\d+)$', b)
    if m:
        w = int(m.group(1))
        def f(e, st, a, i):
            if type(a[0]) is int: return bin(a[0]).count('1')
            r = 0
            for k in range(w): r = op_add(r, op_zext(extract(to_bv(a[0], w), k, k, w), 1, w), w)
            return r
        return f
    m = re.match(r'bswap\.i(\d+)$', b)
    if m:
        w = int(m.group(1))
        return lambda e, st, a, i: concat([(extract(a[0] if type(a[0]) is not Lin else to_bv(a[0], w), 8*k+7, 8*k, w), 8) for k in range(w // 8)])
    m = re.match(r'fsh([lr])\.i(\d+)$', b)
    if m:
        w = int(m.group(2))
        def f(e, st, a, i):
            if type(a[2]) is not int: raise Unsupported('symbolic funnel shift')
            s = a[2] % w
            if m.group(1) == 'r': s = (w - s) % w
            if s == 0: return a[0] if m.group(1) == 'l' else a[1]
            return op_or(op_shl(a[0], s, w), op_lshr(a[1], w - s, w), w)
        return f
    m = re.match(r'(ctlz|cttz)\.i(\d+)$', b)
    if m:
        w = int(m.group(2))
        def f(e, st, a, i):
            v = a[0]
            if type(v) is int:
                if v == 0: return w
                return w - v.bit_length() if m.group(1) == 'ctlz' else (v & -v).bit_length() - 1
            r = w; v = to_bv(v, w)
            for k in (range(w) if m.group(1) == 'ctlz' else range(w - 1, -1, -1)):
                r = ite(z3.Extract(k, k, v) == 1, (w - 1 - k) if m.group(1) == 'ctlz' else k, r, w)
            return r
        return f
    m = re.match(r'(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)$', b)
    if m:
        w = int(m.group(3))
        def f(e, st, a, i):
            ext = op_zext if m.group(1) == 'u' else op_sext
            r = OPS[m.group(2)](a[0], a[1], w)
            if type(a[0]) is int and type(a[1]) is int:
                x, y = (a[0], a[1]) if m.group(1) == 'u' else (sgn(a[0], w), sgn(a[1], w))
                v = x + y if m.group(2) == 'add' else x - y if m.group(2) == 'sub' else x * y
                ov = not (0 <= v < (1 << w)) if m.group(1) == 'u' else not (-(1 << (w-1)) <= v < (1 << (w-1)))
                return (r, ov)
            if type(r) is Lin and in_range(r, 0 if m.group(1) == 'u' else -(1 << (w-1)), mask(w) if m.group(1) == 'u' else (1 << (w-1)) - 1):
                return (r, False)
            X = OPS[m.group(2)](ext(to_bv(a[0], w), w, 2*w), ext(to_bv(a[1], w), w, 2*w), 2*w)
            return (r, znot(op_icmp('eq', ext(to_bv(r, w), w, 2*w), X, 2*w)))
        return f
    if b == 'x86.aesni.aesenc': return lambda e, st, a, i: aesenc(a[0], a[1])
    if b == 'x86.aesni.aesenclast': return lambda e, st, a, i: aesenclast(a[0], a[1])
    if b == 'x86.aesni.aesdec': return lambda e, st, a, i: aesdec(a[0], a[1])
    if b == 'x86.aesni.aesdeclast': return lambda e, st, a, i: aesdeclast(a[0], a[1])
    if b == 'x86.aesni.aesimc': return lambda e, st, a, i: a_imc(bvn(a[0]))
    if b == 'x86.aesni.aeskeygenassist': return lambda e, st, a, i: keygenassist(a[0], a[1])
    if b == 'x86.pclmulqdq':
        def f(e, st, a, i):
            x = extract(a[0], 127, 64, 128) if a[2] & 1 else extract(a[0], 63, 0, 128)
            y = extract(a[1], 127, 64, 128) if a[2] & 16 else extract(a[1], 63, 0, 128)
            return clmul(x, y)
        return f
    m = re.match(r'x86\.bmi\.(pext|pdep)\.(32|64)$', b)
    if m:
        w = int(m.group(2))
        def f(e, st, a, i):
            if type(a[1]) is not int: raise Unsupported('symbolic pext/pdep mask')
            bits = [k for k in range(w) if (a[1] >> k) & 1]
            v = a[0] if type(a[0]) is not Lin else to_bv(a[0], w)
            if m.group(1) == 'pext':
                parts = [(extract(v, k, k, w), 1) for k in reversed(bits)]
                if len(bits) < w: parts = [(0, w - len(bits))] + parts
                return concat(parts)
            parts = []; pos = {k: j for j, k in enumerate(bits)}
            for k in range(w - 1, -1, -1):
                parts.append((extract(v, pos[k], pos[k], w), 1) if k in pos else (0, 1))
            return concat(parts)
        return f
    if b == 'x86.sse41.ptestz':
        def f(e, st, a, i):
            v = op_and(a[0], a[1], 128)
            return from_bool(op_icmp('eq', v, 0, 128), 32)
        return f
    if b in ('x86.sse2.pmovmskb.128',):
        def f(e, st, a, i):
            return concat([(0, 16)] + [(extract(a[0], 8*k+7, 8*k+7, 128), 1) for k in range(15, -1, -1)])
        return f
    m = re.match(r'x86\.sse2\.(psll|psrl)i\.(w|d|q)$', b)
    if m:
        w = {'w': 16, 'd': 32, 'q': 64}[m.group(2)]; n = 128 // w
        def f(e, st, a, i):
            if type(a[1]) is not int: raise Unsupported('symbolic vector shift')
            g = op_shl if m.group(1) == 'psll' else op_lshr
            return unl([g(x, a[1], w) for x in lanes(a[0], w, n)], w)
        return f
    if b == 'x86.ssse3.pshuf.b.128':
        def f(e, st, a, i):
            if type(a[1]) is not int: raise Unsupported('symbolic byte shuffle')
            src = lanes(a[0], 8, 16); out = []
            for k in range(16):
                c = (a[1] >> (8*k)) & 255
                out.append(0 if c & 128 else src[c & 15])
            return unl(out, 8)
        return f
    if b.startswith('x86.rdseed'):
        def f(e, st, a, i):
            w = int(b.split('.')[-1])
            return (fresh_bv('rdseed', w), ite(fresh_bv('rdok', 1) == 1, 1, 0, 32))
        return f
    if b == 'trap': return lambda e, st, a, i: e.fail(st, 'trap', 'trap')
    if b.startswith(('ceil', 'floor', 'fabs', 'sqrt')):
        def f(e, st, a, i):
            v = a[0]
            if type(v) is float: return {'ceil': lambda x: float(math.ceil(x)), 'floor': lambda x: float(math.floor(x)), 'fabs': abs, 'sqrt': math.sqrt}[b.split('.')[0]](v)
            if b.startswith('ceil') and type(v) is tuple and v[0] == 'log2': return ('fint', e.ceil_log2(st, v[1]))
            raise Unsupported('symbolic float ' + b)
        return f
    if b.startswith('is.constant'): return lambda e, st, a, i: False
    if b.startswith('objectsize'): return lambda e, st, a, i: mask(64)
    if b.startswith('eh.typeid'): return lambda e, st, a, i: 1
    if b.startswith('load.relative'): return None
    return None

# ------------------------------------------------------------------ heap
def do_new(kind):
    def f(e, st, a, i):
        n = a[0]
        if isinstance(n, BVR): n = term_lin(n)
        r = st.new_region('heap%d' % State._rid[0], n, 16, 'heap'); r.heapkind = kind
        if kind == 'calloc': pass
        return Ptr(r.id, 0)
    return f
def do_delete(kind):
    def f(e, st, a, i):
        p = a[0]
        if p.r == 0:
            return
        r = st.mem.get(p.r)
        if r is None or not r.alive: e.fail(st, 'memory', 'double free')
        if r.kind != 'heap': e.fail(st, 'memory', 'free of non-heap object %s' % r.name)
        o = p.o
        if not (type(o) is int and o == 0): e.oblige(st, Rel('eq', L(off_lin(o))), 'free of start of object', 'memory')
        ok = {'new': ('new',), 'new[]': ('new[]',), 'malloc': ('malloc', 'calloc')}[kind]
        if r.heapkind not in ok: e.fail(st, 'memory', 'mismatched deallocation (%s by %s)' % (r.heapkind, kind))
        r = st.wreg(p.r); r.alive = False; r.cells = {}; r.layers = None
    return f
def do_exit(e, st, a, i):
    if e.allow_exit: raise Dead()
    e.fail(st, 'exit', 'process exit reached')
def do_assert_fail(e, st, a, i):
    try: m = cstr(e, st, a[0])
    except Exception: m = '?'
    e.fail(st, 'assert', 'code assertion failed: ' + m)
def do_throw(e, st, a, i): e.fail(st, 'throw', 'exception thrown')

# ------------------------------------------------------------------ vc_*
def inp(e, st, name, kind, w, mk):
    """inputs are keyed by name and occurrence"""
    c = st.ghost.setdefault('inpcount', {})
    k = c.get(name, 0); c[name] = k + 1
    full = name if k == 0 else '%s.%d' % (name, k)
    return full
def vc_int(w):
    def f(e, st, a, i):
        nm = inp(e, st, cstr(e, st, a[0]), 'int', w, None)
        fx = e.opts.get('fix', {}).get(nm)
        if fx is not None: return fx
        z = z3.BitVec('in_' + nm, w)
        e.inputs.append((nm, 'bv', w, z))
        return z
    return f
def vc_bool(e, st, a, i):
    nm = inp(e, st, cstr(e, st, a[0]), 'bool', 1, None)
    z = z3.Bool('in_' + nm); e.inputs.append((nm, 'bool', 1, z)); return z
def vc_choice(e, st, a, i):
    """concrete case split lo..hi (inclusive)"""
    nm = inp(e, st, cstr(e, st, a[0]), 'choice', 64, None)
    lo, hi = a[1], a[2]
    if nm in e.size_choice: 
        e.inputs.append((nm, 'const', 64, e.size_choice[nm])); return e.size_choice[nm]
    if nm in e.opts.get('split', ()) and e.mode == 'conc': raise NeedSize(nm, lo, hi, '%d..%d' % (lo, hi))
    outs = []
    z = z3.BitVec('in_' + nm, 64); e.inputs.append((nm, 'bv', 64, z))
    for v in range(lo, hi + 1):
        s2 = st.clone() if v < hi else st
        s2.pc.append(z == v); outs.append((s2, v))
    return Outcomes(outs)
def vc_size(e, st, a, i):
    nm = inp(e, st, cstr(e, st, a[0]), 'size', 64, None)
    lo, hi = a[1], a[2]
    conc = cstr(e, st, a[3]) if a[3].r else ''
    e.sizes_seen[nm] = (lo, hi, conc)
    if nm in e.size_choice:
        v = e.size_choice[nm]
        e.inputs.append((nm, 'const', 64, v)); return v
    if e.mode == 'conc':
        raise NeedSize(nm, lo, hi, conc)
    s = new_sym('in_' + nm, lo, hi, key=('size', nm), kind='input')
    e.inputs.append((nm, 'bv', 64, s.z))
    return Lin.sym(s)
class NeedSize(Exception):
    def __init__(s, nm, lo, hi, conc): s.nm = nm; s.lo = lo; s.hi = hi; s.conc = conc
def vc_sym(e, st, a, i):
    """symbolic integer in [lo,hi] treated as index (Lin) in both modes"""
    nm = inp(e, st, cstr(e, st, a[0]), 'sym', 64, None)
    s = new_sym('in_' + nm, a[1], a[2], key=('size', nm), kind='input')
    e.inputs.append((nm, 'bv', 64, s.z))
    return Lin.sym(s)
def vc_index(e, st, a, i):
    """arbitrary index below n (universally quantified)"""
    n = a[0]
    if e.mode == 'conc' and type(n) is int and e.opts.get('enum_index', False):
        return Outcomes([])
    if isinstance(n, BVR): n = term_lin(n)
    if type(n) is int:
        hi = n
        if n == 0: raise Dead()
    else: hi = n.rng(st.ranges)[1]
    FRESH[0] += 1
    s = new_sym('j%d' % FRESH[0], 0, max(hi - 1, 0), kind='input')
    j = Lin.sym(s)
    c = Rel('ge', L(n).add(j, -1).add(-1))
    if not (type(n) is int):
        if not st.feasible(c): raise Dead()
        st.assume(c)
    st.instidx.append(j)
    return j
def vc_first(e, st, a, i):
    if e.mode == 'conc' and type(a[0]) is int: return 0
    return vc_index(e, st, a, i)
def vc_last(e, st, a, i):
    if e.mode == 'conc' and type(a[0]) is int: return a[0]
    return op_add(a[1], 1, 64)
def vc_assume(e, st, a, i):
    c = a[0]
    if c is True: return
    if c is False: raise Dead()
    if not st.feasible(c): raise Dead()
    st.assume(c)
def vc_assert(e, st, a, i):
    name = cstr(e, st, a[1])
    c = a[0]
    e.covers[name] = e.covers.get(name, 0) + 1
    if os.environ.get('VC_DBG'): print('assert', name, c, st.pc)
    if c is False: e.fail(st, 'assert', name)
    if c is not True and has_label(zb(c)): pass
    e.oblige(st, c, name, 'assert')
def vc_cover(e, st, a, i):
    n = cstr(e, st, a[0]); e.covers[n] = e.covers.get(n, 0) + 1
def vc_symbolic(e, st, a, i): return e.mode == 'sym'
def arrfn(name, w):
    return z3.Function('in_' + name, z3.BitVecSort(64), z3.BitVecSort(w))
def mk_elem_layer(name, cs, off, n, e, boolean=False, wire=False):
    """range layer whose elements (cs bytes) are an uninterpreted input array"""
    if boolean or wire: F = z3.Function('in_' + name, z3.BitVecSort(64), z3.BoolSort())
    else: F = arrfn(name, cs * 8)
    def elem(k):
        z = F(L(k).bv64() if type(k) is Lin else z3.BitVecVal(k, 64))
        if wire: return ENC(z)
        if boolean: return to_bv(z, 8)
        return z
    def fn(st, rel, nb):
        rel = L(rel)
        if nb == cs and all(c % cs == 0 for _, c in rel.t) and rel.c % cs == 0: return elem(quo(rel, cs))
        if nb < cs and all(c % cs == 0 for _, c in rel.t):
            q, r = divmod(rel.c, cs)
            if r + nb <= cs:
                return extract(elem(quo(Lin(rel.t, q * cs), cs)), (r + nb) * 8 - 1, r * 8, cs * 8)
        if nb < cs:
            # symbolic sub-element offset: select by remainder
            q = quo(rel, cs); rem = rel.add(q, -cs)
            v = elem(q); res = extract(v, nb * 8 - 1, 0, cs * 8)
            for o in range(1, cs - nb + 1):
                res = ite(Rel('eq', rem.add(-o)), extract(v, (o + nb) * 8 - 1, o * 8, cs * 8), res, nb * 8)
            if nb > 1 and not (all(c % nb == 0 for _, c in rel.t) and rel.c % nb == 0):
                parts = [(fn(st, rel.add(o), 1), 8) for o in range(nb)]; parts.reverse(); return concat(parts)
            return res
        if nb % cs == 0 or nb > cs:
            if all(c % cs == 0 for _, c in rel.t) and rel.c % cs == 0 and nb % cs == 0:
                parts = [(elem(quo(rel.add(o), cs)), cs * 8) for o in range(0, nb, cs)]
            else:
                parts = [(fn(st, rel.add(o), 1), 8) for o in range(nb)]
            parts.reverse(); return concat(parts)
        parts = [(fn(st, rel.add(o), 1), 8) for o in range(nb)]; parts.reverse(); return concat(parts)
    return fn, F
def vc_fill(cs, boolean=False, wire=False):
    def f(e, st, a, i):
        p, n, nmp = a[0], a[1], a[2]
        nm = inp(e, st, cstr(e, st, nmp), 'arr', cs * 8, None)
        if isinstance(n, BVR): n = term_lin(n)
        if type(n) is int and n == 0: return
        nbytes = op_mul(n, cs, 64)
        r, o = bounds(e, st, p, nbytes, 'fill')
        fn, F = mk_elem_layer(nm, cs, o, n, e, boolean, wire)
        e.inputs.append((nm, 'arrbool' if boolean or wire else 'arr', cs * 8, F, n))
        r = st.wreg(p.r)
        if r.layers is None and type(nbytes) is int and type(o) is int and nbytes <= 4096 * 16:
            cells_clear(st, r, o, nbytes)
            for k in range(n): r.cells[o + k * cs] = (cs, fn(st, Lin((), k * cs), cs))
            r.maxcell = max(r.maxcell, cs)
        else:
            to_layers(st, r)
            r.layers.append(Layer('r', L(o), L(nbytes), fn=fn))
        if st.wlog is not None: st.wlog.append(('r', p.r, L(o), L(nbytes), fn))
    return f
def vc_havoc(e, st, a, i):
    p, n = a[0], a[1]
    FRESH[0] += 1; nm = 'havoc%d' % FRESH[0]
    r, o = bounds(e, st, p, n, 'havoc')
    fn, F = mk_elem_layer(nm, 1, o, n, e)
    r = st.wreg(p.r)
    if r.layers is None and type(n) is int and type(o) is int:
        if n == 0: return None
        cells_clear(st, r, o, n); v = fresh_bv('havoc', n * 8) if n <= 16 else None
        if v is not None: r.cells[o] = (n, v); r.maxcell = max(r.maxcell, n)
        else:
            for k in range(0, n): r.cells[o + k] = (1, fresh_bv('havoc', 8))
    else:
        to_layers(st, r); r.layers.append(Layer('r', L(o), L(n), fn=fn))

def wire_ops(B):
    def gate(name, fn):
        def h(e, st, a, i):
            args = [dec(e, st, norm(x)) for x in a[:2]]
            st.ghost['gates_' + name] = st.ghost.get('gates_' + name, 0) + 1
            return enc(fn(*args))
        return h
    B.reg('vc_and', gate('and', band)); B.reg('vc_xor', gate('xor', bxor))
    def vnot(e, st, a, i): return enc(znot(dec(e, st, norm(a[0]))))
    B.reg('vc_not', vnot)
    def vconst(e, st, a, i):
        if not isinstance(a[0], bool) and has_label(zb(a[0])): e.fail(st, 'oblivious', 'public constant derived from a wire label')
        return enc(a[0])
    B.reg('vc_wire', vconst)
    B.reg('vc_val', lambda e, st, a, i: dec(e, st, norm(a[0])))
    B.reg('vc_ngates', lambda e, st, a, i: st.ghost.get('gates_and', 0))

def install(B):
    for n in ('log2', 'ceil', 'floor', 'sqrt', 'log'): B.reg(n, fmath(n))
    for n, f in (('_Znwm', do_new('new')), ('_Znam', do_new('new[]')), ('malloc', do_new('malloc')),
                 ('_ZdlPv', do_delete('new')), ('_ZdlPvm', do_delete('new')), ('_ZdaPv', do_delete('new[]')), ('_ZdaPvm', do_delete('new[]')), ('free', do_delete('malloc')),
                 ('exit', do_exit), ('abort', do_exit), ('_exit', do_exit), ('__assert_fail', do_assert_fail),
                 ('__cxa_throw', do_throw), ('__cxa_rethrow', do_throw), ('_ZSt9terminatev', do_throw)):
        B.reg(n, f)
    def al_new(kind):
        def f(e, st, a, i):
            p = do_new(kind)(e, st, a, i); al = a[1]
            if type(al) is int: st.mem[p.r].align = max(16, al)
            return p
        return f
    def al_del(kind):
        return lambda e, st, a, i: do_delete(kind)(e, st, a[:1], i)
    B.reg('_ZnwmSt11align_val_t', al_new('new')); B.reg('_ZnamSt11align_val_t', al_new('new[]'))
    B.reg('_ZdlPvSt11align_val_t', al_del('new')); B.reg('_ZdaPvSt11align_val_t', al_del('new[]'))
    B.reg('_ZdlPvmSt11align_val_t', al_del('new')); B.reg('_ZdaPvmSt11align_val_t', al_del('new[]'))
    B.pats.append((re.compile(r'^_ZSt\d+__throw_'), do_throw))
    B.reg('__cxa_atexit', lambda e, st, a, i: 0)
    B.reg('__cxa_guard_acquire', lambda e, st, a, i: 1); B.reg('__cxa_guard_release', lambda e, st, a, i: None)
    B.reg('_ZNSt8ios_base4InitC1Ev', lambda e, st, a, i: None); B.reg('_ZNSt8ios_base4InitD1Ev', lambda e, st, a, i: None)
    def f_memcpy(e, st, a, i):
        memcpy(e, st, a[0], a[1], a[2]); return a[0]
    B.reg('memcpy', f_memcpy); B.reg('memmove', f_memcpy)
    def f_memset(e, st, a, i):
        memset(e, st, a[0], extract(a[1] if type(a[1]) is not Lin else to_bv(a[1], 32), 7, 0, 32), a[2]); return a[0]
    B.reg('memset', f_memset)
    def f_memcmp(e, st, a, i):
        n = a[2]
        if type(n) is not int or n > 8192: raise Unsupported('memcmp of symbolic length')
        if n == 0: return 0
        eq = True; k = 0
        while k < n:
            c = 16 if n - k >= 16 else 8 if n - k >= 8 else 4 if n - k >= 4 else 1
            x = raw(st, load(e, st, Ptr(a[0].r, op_add(a[0].o, k, 64)), c), c); y = raw(st, load(e, st, Ptr(a[1].r, op_add(a[1].o, k, 64)), c), c)
            q = op_icmp('eq', x, y, c * 8)
            if not isinstance(q, bool) and isinstance(x, BVR) and isinstance(y, BVR) and xnf.equal(x, y): q = True
            eq = band(eq, q); k += c
            if eq is False: break
        if eq is True: return 0
        u = fresh_bv('memcmp', 32)
        st.pc.append(u != 0)
        return ite(eq, 0, u, 32)
    B.reg('memcmp', f_memcmp); B.reg('bcmp', f_memcmp)
    def f_strlen(e, st, a, i): return len(cstr(e, st, a[0]))
    B.reg('strlen', f_strlen)
    def f_log2(e, st, a, i):
        if type(a[0]) is float: return math.log2(a[0])
        if type(a[0]) is tuple and a[0][0] == 'i2f': return ('log2', a[0][1])
        raise Unsupported('log2')
    B.reg('log2', f_log2)
    def f_ceil(e, st, a, i):
        if type(a[0]) is float: return float(math.ceil(a[0]))
        raise Unsupported('ceil')
    B.reg('ceil', f_ceil)
    B.reg('vc_u64', vc_int(64)); B.reg('vc_u32', vc_int(32)); B.reg('vc_u16', vc_int(16)); B.reg('vc_u8', vc_int(8)); B.reg('vc_block', vc_int(128))
    B.reg('vc_bool', vc_bool); B.reg('vc_choice', vc_choice); B.reg('vc_size', vc_size); B.reg('vc_sym', vc_sym); B.reg('vc_index', vc_index); B.reg('vc_first', vc_first); B.reg('vc_last', vc_last)
    B.reg('vc_assume', vc_assume); B.reg('vc_assert', vc_assert); B.reg('vc_cover', vc_cover); B.reg('vc_symbolic', vc_symbolic)
    B.reg('vc_fill_bytes', vc_fill(1)); B.reg('vc_fill_blocks', vc_fill(16)); B.reg('vc_fill_bools', vc_fill(1, boolean=True)); B.reg('vc_fill_wires', vc_fill(16, wire=True))
    B.reg('vc_fill_u64', vc_fill(8)); B.reg('vc_fill_u32', vc_fill(4))
    B.reg('vc_havoc', vc_havoc)
    wire_ops(B)
    # AES reference pieces
    B.reg('vc_aes_srsb', lambda e, st, a, i: a_srsb(bvn(a[0]))); B.reg('vc_aes_isrsb', lambda e, st, a, i: a_isrsb(bvn(a[0])))
    B.reg('vc_aes_mc', lambda e, st, a, i: a_mc(bvn(a[0]))); B.reg('vc_aes_imc', lambda e, st, a, i: a_imc(bvn(a[0])))
    B.reg('vc_aes_subword', lambda e, st, a, i: a_subw(a[0]))
    def vc_uf(e, st, a, i):
        n = cstr(e, st, a[0]); f = z3.Function('uf_' + n, *([z3.BitVecSort(64)] * 4))
        return f(*[to_bv(x, 64) for x in a[1:]])
    B.reg('vc_uf', vc_uf)
    B.reg('vc_clmul', lambda e, st, a, i: clmul(a[0], a[1]))
    return B
