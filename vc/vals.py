"""Value domain of the verifier.

integers : python int (canonical unsigned) | Lin (linear integer form over bounded symbols, taken mod 2^w) | z3 BitVecRef
i1       : python bool | Rel (linear relation) | z3 BoolRef
pointers : Ptr(region id, byte offset) | FuncPtr
vectors  : as one integer of n*w bits, lane 0 lowest
"""
import z3
from fractions import Fraction

class Unsupported(Exception):
    """the engine cannot handle this construct: the obligation stays undecided (never a pass)"""
class Infeasible(Exception):
    pass

BVR = z3.BitVecRef
BLR = z3.BoolRef

# ------------------------------------------------------------------ symbols
class Sym:
    __slots__ = ('id', 'name', 'lo', 'hi', 'z', 'defs', 'zdefs', 'deps', 'kind', 'info')
SYMS = []
SYMKEY = {}
def new_sym(name, lo, hi, z=None, key=None, kind='free', info=None):
    if key is not None and key in SYMKEY: return SYMKEY[key]
    s = Sym(); s.id = len(SYMS); s.name = name; s.lo = lo; s.hi = hi
    s.z = z if z is not None else z3.BitVec(name if kind == 'input' else '%s!%d' % (name, s.id), 64)
    s.defs = []; s.zdefs = []; s.deps = (); s.kind = kind; s.info = info
    SYMS.append(s)
    if key is not None: SYMKEY[key] = s
    return s

class Lin:
    """sum c_i*sym_i + c   (a mathematical integer; its machine value is this mod 2^w)"""
    __slots__ = ('t', 'c', '_k', '_bv', '_r')
    def __init__(s, t, c):
        s.t = t; s.c = c; s._k = None; s._bv = None; s._r = None
    @staticmethod
    def of(x):
        return x if type(x) is Lin else Lin((), x)
    @staticmethod
    def sym(sy): return Lin(((sy.id, 1),), 0)
    def key(s):
        if s._k is None: s._k = (s.t, s.c)
        return s._k
    def __hash__(s): return hash(s.key())
    def __eq__(s, o): return type(o) is Lin and s.key() == o.key()
    def __ne__(s, o): return not s == o
    def add(s, o, m=1):
        """s + m*o"""
        if type(o) is not Lin:
            return Lin(s.t, s.c + m * o)
        if not o.t: return Lin(s.t, s.c + m * o.c)
        d = dict(s.t)
        for i, c in o.t:
            v = d.get(i, 0) + m * c
            if v: d[i] = v
            else: d.pop(i, None)
        return Lin(tuple(sorted(d.items())), s.c + m * o.c)
    def scale(s, k):
        if k == 0: return Lin((), 0)
        return Lin(tuple((i, c * k) for i, c in s.t), s.c * k)
    def isconst(s): return not s.t
    def rng(s, ov=None):
        if ov is None or not ov:
            if s._r is None: s._r = s._rng(None)
            return s._r
        return s._rng(ov)
    def _rng(s, ov):
        lo = hi = s.c
        for i, c in s.t:
            sy = SYMS[i]
            r = ov.get(i) if ov else None
            a, b = r if r is not None else (sy.lo, sy.hi)
            if c > 0: lo += c * a; hi += c * b
            else: lo += c * b; hi += c * a
        return lo, hi
    def bv64(s):
        if s._bv is None:
            r = None
            for i, c in s.t:
                z = SYMS[i].z
                x = z if c == 1 else z * z3.BitVecVal(c, 64)
                r = x if r is None else r + x
            if r is None: r = z3.BitVecVal(s.c, 64)
            elif s.c: r = r + z3.BitVecVal(s.c, 64)
            s._bv = r
        return s._bv
    def subst(s, m):
        """m: sym id -> Lin"""
        hit = False
        for i, c in s.t:
            if i in m: hit = True; break
            if SYMS[i].kind in ('quo', 'prod', 'term'): hit = True
        if not hit: return s
        r = Lin((), s.c)
        for i, c in s.t:
            r = r.add(subst_sym(i, m), c)
        return r
    def __repr__(s):
        return '+'.join(['%s%s' % ('' if c == 1 else '%d*' % c, SYMS[i].name) for i, c in s.t] + ([str(s.c)] if s.c or not s.t else []))

def subst_sym(i, m):
    if i in m: return m[i]
    sy = SYMS[i]
    if sy.kind == 'quo':
        x, d = sy.info
        x2 = x.subst(m)
        if x2 is not x and x2 != x: return quo(x2, d)
    elif sy.kind == 'prod':
        a, b = sy.info
        a2 = subst_sym(a, m); b2 = subst_sym(b, m)
        return lin_mul(a2, b2)
    elif sy.kind == 'term':
        z = subst_z(sy.info, m)
        if not z.eq(sy.info): return term_lin(z)
    return Lin(((i, 1),), 0)

def subst_z(t, m):
    """substitute symbols (by id -> Lin) inside a z3 term, including definitional symbols"""
    ps = []
    for i, l in m.items(): ps.append((SYMS[i].z, l.bv64()))
    # definitional symbols depending on m
    seen = free_syms(t)
    for j in seen:
        if j in m: continue
        if SYMS[j].kind in ('quo', 'prod'):
            l = subst_sym(j, m)
            if l.key() != (((j, 1),), 0): ps.append((SYMS[j].z, l.bv64()))
    if not ps: return t
    return z3.substitute(t, *ps)

ZID2SYM = {}
_fs_cache = {}
def free_syms(t):
    """ids of engine symbols whose z3 constant occurs in t"""
    k = t.get_id()
    r = _fs_cache.get(k)
    if r is not None: return r[1]
    out = set(); seen = set(); st = [t]
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        c = _fs_cache.get(i)
        if c is not None: out |= c[1]; continue
        n = x.num_args()
        if n == 0:
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                for j in sym_by_z(x): out.add(j)
        else:
            st.extend(x.children())
    r = frozenset(out)
    _fs_cache[k] = (t, r)
    return r
_zmap = [0, {}]
def sym_by_z(x):
    while _zmap[0] < len(SYMS):
        s = SYMS[_zmap[0]]
        if s.z.num_args() == 0: _zmap[1][s.z.get_id()] = s.id
        _zmap[0] += 1
    j = _zmap[1].get(x.get_id())
    return () if j is None else (j,)

def quo(x, d):
    """floor(x/d) for Lin x, d>0 int, as Lin"""
    if d == 1: return x
    whole = []; rest = []
    for i, c in x.t:
        q, r = divmod(c, d)
        if q: whole.append((i, q))
        if r: rest.append((i, r))
    qc, rc = divmod(x.c, d)
    if not rest: return Lin(tuple(whole), qc)
    rl = Lin(tuple(rest), rc)
    lo, hi = rl.rng()
    if lo // d == hi // d:
        return Lin(tuple(whole), qc + lo // d)
    key = ('quo', rl.key(), d)
    s = SYMKEY.get(key)
    if s is None:
        s = new_sym('q', lo // d, hi // d, key=key, kind='quo', info=(rl, d))
        s.defs = [rl.add(Lin.sym(s), -d), Lin.sym(s).scale(d).add(d - 1).add(rl, -1)]
        s.deps = tuple(i for i, _ in rl.t)
    return Lin(tuple(whole), qc).add(Lin.sym(s))

def lin_mul(a, b):
    if a.isconst(): return b.scale(a.c)
    if b.isconst(): return a.scale(b.c)
    r = a.scale(b.c).add(b.scale(a.c)).add(-(a.c * b.c))
    for i, c in a.t:
        for j, d in b.t:
            x, y = (i, j) if i <= j else (j, i)
            key = ('prod', x, y)
            s = SYMKEY.get(key)
            if s is None:
                X, Y = SYMS[x], SYMS[y]
                ps = [X.lo * Y.lo, X.lo * Y.hi, X.hi * Y.lo, X.hi * Y.hi]
                if max(map(abs, ps)) >= 1 << 62: raise Unsupported('symbolic product too large')
                s = new_sym('m', min(ps), max(ps), key=key, kind='prod', info=(x, y))
                s.zdefs = [s.z == X.z * Y.z]; s.deps = (x, y)
            r = r.add(Lin.sym(s), c * d)
    return r

def term_lin(z):
    """wrap an arbitrary bit-vector term (unsigned, < 64 bits or 64) as a Lin"""
    w = z.size()
    key = ('term', z.get_id())
    s = SYMKEY.get(key)
    if s is None:
        zz = z3.ZeroExt(64 - w, z) if w < 64 else z
        hi = (1 << min(w, 62)) - 1
        s = new_sym('t', 0, hi, z=zz, key=key, kind='term', info=z)
        s.deps = tuple(free_syms(z))
        if w >= 63: s.lo = 0; s.hi = (1 << 64) - 1 if w == 64 else (1 << w) - 1
    return Lin.sym(s)

# ------------------------------------------------------------------ relations
class Rel:
    """k='ge': lin >= 0 ; 'eq': lin == 0 ; 'ne': lin != 0  (mathematical)"""
    __slots__ = ('k', 'l')
    def __init__(s, k, l): s.k = k; s.l = l
    def neg(s):
        if s.k == 'ge': return Rel('ge', s.l.scale(-1).add(-1))
        return Rel('ne' if s.k == 'eq' else 'eq', s.l)
    def z(s):
        # split in positive / negative side, compare signed 64 (ranges guarantee no overflow)
        lo, hi = s.l.rng()
        if lo < -(1 << 63) or hi >= (1 << 63):
            # widen to 128 bits
            r = z3.BitVecVal(s.l.c, 128)
            for i, c in s.l.t:
                zz = SYMS[i].z
                zz = z3.ZeroExt(64, zz) if SYMS[i].lo >= 0 else z3.SignExt(64, zz)
                r = r + zz * z3.BitVecVal(c, 128)
            if s.k == 'ge': return r >= 0
            return r == 0 if s.k == 'eq' else r != 0
        p = Lin(tuple((i, c) for i, c in s.l.t if c > 0), s.l.c if s.l.c > 0 else 0)
        n = Lin(tuple((i, -c) for i, c in s.l.t if c < 0), -s.l.c if s.l.c < 0 else 0)
        a, b = p.bv64(), n.bv64()
        if s.k == 'ge': return a >= b
        return a == b if s.k == 'eq' else a != b
    def subst(s, m): return Rel(s.k, s.l.subst(m))
    def __repr__(s): return '%r %s 0' % (s.l, {'ge': '>=', 'eq': '==', 'ne': '!='}[s.k])

def znot(b):
    if b is True: return False
    if b is False: return True
    if type(b) is Rel: return b.neg()
    if z3.is_not(b): return b.arg(0)
    return z3.Not(b)
def zb(b):
    if b is True or b is False: return z3.BoolVal(b)
    if type(b) is Rel: return b.z()
    return b
def band(a, b):
    if a is False or b is False: return False
    if a is True: return b
    if b is True: return a
    a, b = zb(a), zb(b)
    if a.eq(b): return a
    return z3.And(a, b)
def bor(a, b):
    if a is True or b is True: return True
    if a is False: return b
    if b is False: return a
    a, b = zb(a), zb(b)
    if a.eq(b): return a
    return z3.Or(a, b)
def bxor(a, b):
    if a is False: return b
    if b is False: return a
    if a is True: return znot(b)
    if b is True: return znot(a)
    a, b = zb(a), zb(b); p = True
    while z3.is_not(a): a = a.arg(0); p = not p
    while z3.is_not(b): b = b.arg(0); p = not p
    if a.eq(b): return not p
    # a xnor b as an equality with ordered operands; x xor (x xor y) collapses
    for x, y in ((a, b), (b, a)):
        if z3.is_eq(x) and z3.is_bool(x.arg(0)):
            u, v = x.arg(0), x.arg(1)
            for m, n in ((u, v), (v, u)):
                if m.eq(y): return n if not p else znot(n)
    if a.get_id() > b.get_id(): a, b = b, a
    if z3.is_true(a): r = b
    elif z3.is_true(b): r = a
    else: r = a == b
    return znot(r) if p else r
def bite(c, a, b):
    if type(a) is int: a = bool(a)
    if type(b) is int: b = bool(b)
    if c is True: return a
    if c is False: return b
    if a is True and b is False: return c
    if a is False and b is True: return znot(c)
    if isinstance(a, bool):
        return bor(c, b) if a else band(znot(c), b)
    if isinstance(b, bool):
        return bor(znot(c), a) if b else band(c, a)
    a, b = zb(a), zb(b)
    if a.eq(b): return a
    return z3.If(zb(c), a, b)

# ------------------------------------------------------------------ pointers
class Ptr:
    __slots__ = ('r', 'o')
    def __init__(s, r, o): s.r = r; s.o = o
    def __repr__(s): return 'Ptr(%s,%r)' % (s.r, s.o)
class CPtr:
    """conditional pointer: c ? a : b"""
    __slots__ = ('c', 'a', 'b')
    def __init__(s, c, a, b): s.c = c; s.a = a; s.b = b
class FuncPtr:
    __slots__ = ('name',)
    def __init__(s, n): s.name = n
    def __repr__(s): return 'Func(%s)' % s.name
NULL = Ptr(0, 0)

# ------------------------------------------------------------------ ints
def mask(w): return (1 << w) - 1
def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v

def to_bv(v, w):
    t = type(v)
    if t is int: return z3.BitVecVal(v, w)
    if t is Lin:
        z = v.bv64()
        if w == 64: return z
        if w < 64: return z3.Extract(w - 1, 0, z)
        raise Unsupported('lin wider than 64')
    if t is bool: return z3.BitVecVal(1 if v else 0, w)
    if t is Rel: return z3.If(v.z(), z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(v, BLR): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(v, BVR):
        if v.size() != w: raise Unsupported('width mismatch %d vs %d' % (v.size(), w))
        return v
    raise Unsupported('to_bv of %r' % (v,))

ITE = z3.Z3_OP_ITE
def boolish(v, w):
    """v is 0 or 1 as an integer: return the boolean, else None"""
    if type(v) is int:
        return None if v > 1 else (v == 1)
    if type(v) is Lin: return None
    if v.num_args() == 3 and v.decl().kind() == ITE:
        a, b = v.arg(1), v.arg(2)
        if z3.is_bv_value(a) and z3.is_bv_value(b):
            x, y = a.as_long(), b.as_long()
            if x == 1 and y == 0: return v.arg(0)
            if x == 0 and y == 1: return znot(v.arg(0))
    return None
def from_bool(b, w):
    if b is True: return 1
    if b is False: return 0
    return to_bv(b, w)

def norm(v):
    """BitVec numeral -> int"""
    if isinstance(v, BVR):
        if z3.is_bv_value(v): return v.as_long()
    return v

EXTRACT = z3.Z3_OP_EXTRACT; CONCAT = z3.Z3_OP_CONCAT; ZEXT = z3.Z3_OP_ZERO_EXT
BXOR = z3.Z3_OP_BXOR; BAND = z3.Z3_OP_BAND; BOR = z3.Z3_OP_BOR; BNOT = z3.Z3_OP_BNOT
def extract(v, hi, lo, w):
    """bits hi..lo of w-bit value v"""
    if type(v) is int: return (v >> lo) & mask(hi - lo + 1)
    if lo == 0 and hi == w - 1: return v
    if type(v) is Lin:
        if lo == 0: return v          # mod smaller power
        v = to_bv(v, w)
    k = v.decl().kind()
    if k == CONCAT:
        # children: msb first
        pos = w; 
        parts = []
        for c in v.children():
            cw = c.size(); clo = pos - cw; chi = pos - 1
            a = max(lo, clo); b = min(hi, chi)
            if a <= b:
                parts.append((extract(norm(c), b - clo, a - clo, cw), b - a + 1))
            pos = clo
        return concat(parts)
    if k == EXTRACT:
        l0 = v.params()[1]
        c = v.arg(0)
        return extract(c, hi + l0, lo + l0, c.size())
    if k == ZEXT:
        c = v.arg(0); cw = c.size()
        if lo >= cw: return 0
        if hi < cw: return extract(c, hi, lo, cw)
    if k == ITE:
        a, b = v.arg(1), v.arg(2)
        if z3.is_bv_value(a) and z3.is_bv_value(b):
            x = extract(a.as_long(), hi, lo, w); y = extract(b.as_long(), hi, lo, w)
            if x == y: return x
            return z3.If(v.arg(0), z3.BitVecVal(x, hi - lo + 1), z3.BitVecVal(y, hi - lo + 1))
    if k in (BXOR, BAND, BOR) and v.num_args() == 2 and (w > hi - lo + 1):
        a = extract(norm(v.arg(0)), hi, lo, w); b = extract(norm(v.arg(1)), hi, lo, w)
        f = {BXOR: op_xor, BAND: op_and, BOR: op_or}[k]
        return f(a, b, hi - lo + 1)
    if k == BNOT:
        a = extract(norm(v.arg(0)), hi, lo, w)
        return op_xor(a, mask(hi - lo + 1), hi - lo + 1)
    return z3.Extract(hi, lo, v)

def concat(parts):
    """parts: list of (value, width), msb first"""
    if len(parts) == 1: return parts[0][0]
    # merge adjacent ints and adjacent extracts of the same term
    out = []
    for v, w in parts:
        v = norm(v)
        if out:
            pv, pw = out[-1]
            if type(pv) is int and type(v) is int:
                out[-1] = ((pv << w) | v, pw + w); continue
            if isinstance(pv, BVR) and isinstance(v, BVR) and pv.decl().kind() == EXTRACT and v.decl().kind() == EXTRACT:
                ph, pl = pv.params(); vh, vl = v.params()
                if pl == vh + 1 and pv.arg(0).eq(v.arg(0)):
                    c = pv.arg(0)
                    out[-1] = (extract(c, ph, vl, c.size()), pw + w); continue
        out.append((v, w))
    if len(out) == 1: return out[0][0]
    return z3.Concat(*[to_bv(v, w) for v, w in out])

def op_xor(a, b, w):
    if type(a) is int and type(b) is int: return a ^ b
    if type(a) is int: a, b = b, a
    if type(b) is int:
        if b == 0: return a
    if w <= 32:
        x = boolish(a, w)
        if x is not None:
            y = boolish(b, w)
            if y is not None: return from_bool(bxor(x, y), w)
    a = to_bv(a, w); b = to_bv(b, w)
    if a.eq(b): return 0
    # cancel x ^ (x ^ y)
    for p, q in ((a, b), (b, a)):
        if p.decl().kind() == BXOR and p.num_args() == 2:
            if p.arg(0).eq(q): return norm(p.arg(1))
            if p.arg(1).eq(q): return norm(p.arg(0))
    if (w == 128 and (a.decl().kind() in (BXOR, CONCAT) or b.decl().kind() in (BXOR, CONCAT))) or (w in (32, 64) and (a.decl().kind() == BXOR or b.decl().kind() == BXOR)):
        import xnf
        return xnf.canon(a ^ b)
    return a ^ b
def op_and(a, b, w):
    if type(a) is int and type(b) is int: return a & b
    if type(a) is int: a, b = b, a
    if type(b) is int:
        if b == 0: return 0
        if b == mask(w): return a
        if type(a) is Lin:
            if (b & (b + 1)) == 0: return lin_mod(a, b + 1, w)
            nb = b ^ mask(w)
            if (nb & (nb + 1)) == 0: # align down
                r = lin_mod(a, nb + 1, w)
                return op_sub(a, r, w)
        else:
            # contiguous mask -> extract/concat
            lo = (b & -b).bit_length() - 1; x = b >> lo
            if (x & (x + 1)) == 0:
                hi = lo + x.bit_length() - 1
                bl = boolish(a, w)
                if bl is not None: return a if (b & 1) else 0
                e = extract(a, hi, lo, w); parts = []
                if hi < w - 1: parts.append((0, w - 1 - hi))
                parts.append((e, hi - lo + 1))
                if lo: parts.append((0, lo))
                return concat(parts)
    if w <= 32:
        x = boolish(a, w)
        if x is not None:
            y = boolish(b, w)
            if y is not None: return from_bool(band(x, y), w)
    a = to_bv(a, w); b = to_bv(b, w)
    if a.eq(b): return a
    return a & b
def op_or(a, b, w):
    if type(a) is int and type(b) is int: return a | b
    if type(a) is int: a, b = b, a
    if type(b) is int:
        if b == 0: return a
        if b == mask(w): return b
    if w <= 32:
        x = boolish(a, w)
        if x is not None:
            y = boolish(b, w)
            if y is not None: return from_bool(bor(x, y), w)
    # disjoint concat with zeros
    a = to_bv(a, w); b = to_bv(b, w)
    r = or_disjoint(a, b, w)
    if r is not None: return r
    if a.eq(b): return a
    return a | b

def segs(a, w):
    """list of (lo, width, value) from msb; a is a Concat or value"""
    if z3.is_bv_value(a): return [(0, w, a.as_long())]
    k = a.decl().kind()
    if k == CONCAT:
        pos = w; out = []
        for c in a.children():
            pos -= c.size(); out.append((pos, c.size(), norm(c)))
        return out
    if k == ZEXT:
        c = a.arg(0); return [(c.size(), w - c.size(), 0), (0, c.size(), norm(c))]
    return [(0, w, a)]
def or_disjoint(a, b, w):
    sa, sb = segs(a, w), segs(b, w)
    if len(sa) == 1 and len(sb) == 1 and type(sa[0][2]) is not int and type(sb[0][2]) is not int: return None
    cuts = sorted(set([l for l, _, _ in sa] + [l for l, _, _ in sb] + [w]))
    def at(s, lo, hi):
        for l, n, v in s:
            if l <= lo and hi <= l + n: return extract(v, hi - 1 - l, lo - l, n) if type(v) is not int else (v >> (lo - l)) & mask(hi - lo)
    parts = []
    for i in range(len(cuts) - 2, -1, -1):
        lo, hi = cuts[i], cuts[i+1]
        x, y = at(sa, lo, hi), at(sb, lo, hi)
        if type(x) is int and x == 0: v = y
        elif type(y) is int and y == 0: v = x
        elif type(x) is int and type(y) is int: v = x | y
        else: return None
        parts.append((v, hi - lo))
    return concat(parts)

CUR = [None]          # current state, for range queries
def rng(l):
    st = CUR[0]
    return l.rng(st.ranges if st is not None else None)
def in_range(l, lo, hi):
    a, b = rng(l)
    if lo <= a and b <= hi: return True
    st = CUR[0]
    if st is None: return False
    if not st.allow_prove: return False
    if a < lo and not st.entails(Rel('ge', l.add(-lo))): return False
    if b > hi and not st.entails(Rel('ge', l.scale(-1).add(hi))): return False
    return True

def lin_mod(a, d, w):
    """a mod d (d power of two dividing 2^w): always valid on the math value"""
    r = a.add(quo(a, d), -d)
    return r.c if r.isconst() else r

def uval(v, w):
    """Lin whose math value equals the unsigned machine value, or None"""
    if type(v) is int: return Lin((), v)
    if type(v) is Lin:
        if in_range(v, 0, mask(w)): return v
        return None
    return None
def sval(v, w):
    if type(v) is int: return Lin((), sgn(v, w))
    if type(v) is Lin:
        if in_range(v, -(1 << (w - 1)), (1 << (w - 1)) - 1): return v
        # an unsigned-range value known >= 2^(w-1)? treat -1 style constants
        return None
    return None

def mklin(l):
    return l
def canon(l, w):
    if type(l) is Lin and l.isconst(): return l.c & mask(w)
    return l

def op_add(a, b, w):
    if type(a) is int and type(b) is int: return (a + b) & mask(w)
    if type(a) in (int, Lin) and type(b) in (int, Lin) and w <= 64:
        if type(a) is int: a, b = b, a
        return canon(a.add(sgn(b, w) if type(b) is int else b), w)
    if type(b) is int and b == 0: return a
    if type(a) is int and a == 0: return b
    return to_bv(a, w) + to_bv(b, w)
def op_sub(a, b, w):
    if type(a) is int and type(b) is int: return (a - b) & mask(w)
    if type(a) in (int, Lin) and type(b) in (int, Lin) and w <= 64:
        A = a if type(a) is Lin else Lin((), sgn(a, w))
        return canon(A.add(sgn(b, w) if type(b) is int else b, -1), w)
    if type(b) is int and b == 0: return a
    a = to_bv(a, w); b = to_bv(b, w)
    if a.eq(b): return 0
    return a - b
def op_mul(a, b, w):
    if type(a) is int and type(b) is int: return (a * b) & mask(w)
    if type(a) is int: a, b = b, a
    if type(b) is int:
        if b == 0: return 0
        if b == 1: return a
        if type(a) is Lin: return canon(a.scale(sgn(b, w)), w)
    if type(a) is Lin and type(b) is Lin:
        try: return canon(lin_mul(a, b), w)
        except Unsupported: pass
    return to_bv(a, w) * to_bv(b, w)
def op_shl(a, b, w):
    if type(b) is int:
        if b >= w: return 0
        if type(a) is int: return (a << b) & mask(w)
        if type(a) is Lin: return canon(a.scale(1 << b), w)
        if b == 0: return a
        return concat([(extract(a, w - 1 - b, 0, w), w - b), (0, b)])
    bz = to_bv(b, w)
    return to_bv(a, w) << bz
def op_lshr(a, b, w):
    if type(b) is int:
        if b >= w: return 0
        if type(a) is int: return a >> b
        if b == 0: return a
        if type(a) is Lin:
            u = uval(a, w)
            if u is not None: return canon(quo(u, 1 << b), w)
        bl = boolish(a, w)
        if bl is not None: return 0
        return concat([(0, b), (extract(a, w - 1, b, w), w - b)])
    return z3.LShR(to_bv(a, w), to_bv(b, w))
def op_ashr(a, b, w):
    if type(b) is int:
        if type(a) is int: return (sgn(a, w) >> min(b, w - 1)) & mask(w)
        if b == 0: return a
        if type(a) is Lin:
            u = sval(a, w)
            if u is not None: return canon(quo(u, 1 << b), w)
        bl = boolish(a, w)
        if bl is not None and w > 1: return 0
        a = to_bv(a, w)
        return norm(a >> z3.BitVecVal(b, w))
    return to_bv(a, w) >> to_bv(b, w)
def op_udiv(a, b, w):
    if type(a) is int and type(b) is int:
        if b == 0: raise Unsupported('division by zero')
        return a // b
    if type(b) is int and type(a) is Lin:
        u = uval(a, w)
        if u is not None: return canon(quo(u, b), w)
    if type(b) is int and b and (b & (b - 1)) == 0: return op_lshr(a, b.bit_length() - 1, w)
    return z3.UDiv(to_bv(a, w), to_bv(b, w))
def op_urem(a, b, w):
    if type(a) is int and type(b) is int:
        if b == 0: raise Unsupported('division by zero')
        return a % b
    if type(b) is int and type(a) is Lin:
        u = uval(a, w)
        if u is not None: return canon(u.add(quo(u, b), -b), w)
    if type(b) is int and b and (b & (b - 1)) == 0: return op_and(a, b - 1, w)
    return z3.URem(to_bv(a, w), to_bv(b, w))
def op_sdiv(a, b, w):
    if type(a) is int and type(b) is int:
        if b == 0: raise Unsupported('division by zero')
        x, y = sgn(a, w), sgn(b, w); q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & mask(w)
    if type(b) is int and type(a) is Lin and sgn(b, w) > 0:
        u = sval(a, w)
        if u is not None:
            if in_range(u, 0, mask(w)): return canon(quo(u, b), w)
            # exact multiple
            if all(c % b == 0 for _, c in u.t) and u.c % b == 0: return canon(quo(u, b), w)
    return to_bv(a, w) / to_bv(b, w)
def op_srem(a, b, w):
    if type(a) is int and type(b) is int:
        x, y = sgn(a, w), sgn(b, w); r = abs(x) % abs(y)
        return (-r if x < 0 else r) & mask(w)
    if type(b) is int and type(a) is Lin and sgn(b, w) > 0:
        u = sval(a, w)
        if u is not None and in_range(u, 0, mask(w)): return canon(u.add(quo(u, b), -b), w)
    return z3.SRem(to_bv(a, w), to_bv(b, w))
OPS = {'add': op_add, 'sub': op_sub, 'mul': op_mul, 'and': op_and, 'or': op_or, 'xor': op_xor, 'shl': op_shl,
       'lshr': op_lshr, 'ashr': op_ashr, 'udiv': op_udiv, 'urem': op_urem, 'sdiv': op_sdiv, 'srem': op_srem}

def op_icmp(pred, a, b, w):
    if type(a) is int and type(b) is int:
        if pred == 'eq': return a == b
        if pred == 'ne': return a != b
        if pred[0] == 's': a, b = sgn(a, w), sgn(b, w)
        p = pred[1:]
        return a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b
    if type(a) in (int, Lin) and type(b) in (int, Lin):
        if pred in ('eq', 'ne'):
            A, B = uval(a, w), uval(b, w)
            if A is None or B is None: A, B = sval(a, w), sval(b, w)
            if A is not None and B is not None:
                d = A.add(B, -1)
                if d.isconst(): return (d.c == 0) == (pred == 'eq')
                return Rel(pred, d)
        else:
            f = sval if pred[0] == 's' else uval
            A, B = f(a, w), f(b, w)
            if A is not None and B is not None:
                p = pred[1:]
                if p in ('gt', 'le'): A, B = B, A; p = {'gt': 'lt', 'le': 'ge'}[p]
                # now lt or ge
                d = A.add(B, -1)            # A-B
                r = Rel('ge', d) if p == 'ge' else Rel('ge', d.scale(-1).add(-1))
                if d.isconst(): return r.l.c >= 0
                return r
    if pred in ('eq', 'ne'):
        x = boolish(a, w)
        if x is not None:
            y = boolish(b, w)
            if y is not None:
                r = bxor(x, y)
                return r if pred == 'ne' else znot(r)
            if type(b) is int: return pred == 'ne'
        elif type(a) is int and a > 1 and not isinstance(b, Lin) and boolish(b, w) is not None: return pred == 'ne'
        a = to_bv(a, w); b = to_bv(b, w)
        if a.eq(b): return pred == 'eq'
        # concat with constants: decide segmentwise when a concrete mismatch exists
        r = a == b
        return r if pred == 'eq' else z3.Not(r)
    a = to_bv(a, w); b = to_bv(b, w)
    return {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE, 'slt': lambda x, y: x < y, 'sle': lambda x, y: x <= y,
            'sgt': lambda x, y: x > y, 'sge': lambda x, y: x >= y}[pred](a, b)

def op_zext(v, w, W):
    if type(v) is int: return v
    if type(v) is Lin:
        u = uval(v, w)
        if u is not None: return u
        v = to_bv(v, w)
    b = boolish(v, w)
    if b is not None: return from_bool(b, W)
    return concat([(0, W - w), (v, w)])
def op_sext(v, w, W):
    if type(v) is int: return sgn(v, w) & mask(W)
    if type(v) is Lin:
        u = sval(v, w)
        if u is not None: return u
        v = to_bv(v, w)
    b = boolish(v, w)
    if b is not None and w > 1: return from_bool(b, W)
    return z3.SignExt(W - w, v)
def op_trunc(v, w, W):
    """w -> W bits, W>1"""
    if type(v) is int: return v & mask(W)
    if type(v) is Lin: return v
    b = boolish(v, w)
    if b is not None: return from_bool(b, W)
    return extract(v, W - 1, 0, w)
def to_bool1(v, w):
    """trunc to i1"""
    if type(v) is int: return bool(v & 1)
    if type(v) is Lin:
        r = lin_mod(v, 2, w)
        if type(r) is int: return bool(r)
        return Rel('ne', r)
    b = boolish(v, w)
    if b is not None: return b
    e = extract(v, 0, 0, w)
    if type(e) is int: return bool(e)
    return e == z3.BitVecVal(1, 1)
def ite(c, a, b, w):
    if c is True: return a
    if c is False: return b
    if type(a) is int and type(b) is int and a == b: return a
    if type(a) is Lin and type(b) is Lin and a == b: return a
    za, z_b = to_bv(a, w), to_bv(b, w)
    if za.eq(z_b): return a
    return z3.If(zb(c), za, z_b)
def same(a, b):
    """syntactic equality"""
    if type(a) is not type(b):
        return False
    if type(a) in (int, Lin, bool, float): return a == b
    if type(a) is Ptr: return a.r == b.r and same(a.o, b.o) if type(a.o) is type(b.o) else False
    if type(a) is Rel: return a.k == b.k and a.l == b.l
    if isinstance(a, z3.AstRef): return a.eq(b)
    if type(a) is FuncPtr: return a.name == b.name
    if type(a) in (tuple, list): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a is b
