"""Memory regions and symbolic states."""
import z3, time
from vals import *
import vals

class Violation(Exception):
    def __init__(s, kind, msg, model=None, st=None): s.kind = kind; s.msg = msg; s.model = model; s.st = st

class Layer:
    __slots__ = ('k', 'off', 'nb', 'val', 'fn', 'extra')
    def __init__(s, k, off=None, nb=None, val=None, fn=None, extra=None):
        s.k = k; s.off = off; s.nb = nb; s.val = val; s.fn = fn; s.extra = extra
    # k: 'w' single write; 'r' range (nb = length, fn(rel, nb)); 'b' base fn(off, nb); 'p' pending loop writes

class Region:
    __slots__ = ('id', 'name', 'size', 'align', 'alive', 'kind', 'const', 'cells', 'layers', 'base', 'maxcell', 'tag', 'heapkind')
    def __init__(s, id, name, size, align=16, kind='alloca'):
        s.id = id; s.name = name; s.size = size; s.align = align; s.alive = True; s.kind = kind
        s.const = False; s.cells = {}; s.layers = None; s.base = None; s.maxcell = 8; s.tag = None; s.heapkind = None
        if type(size) is not int: s.layers = []
    def clone(s):
        r = Region.__new__(Region)
        r.id = s.id; r.name = s.name; r.size = s.size; r.align = s.align; r.alive = s.alive; r.kind = s.kind; r.const = s.const
        r.cells = dict(s.cells); r.layers = None if s.layers is None else list(s.layers); r.base = s.base; r.maxcell = s.maxcell
        r.tag = s.tag; r.heapkind = s.heapkind
        return r

STATS = {'queries': 0, 'solver_s': 0.0, 'quick': 0, 'unknown': 0}
_vars_cache = {}
def zvars(t):
    """set of keys identifying uninterpreted constants and functions in t"""
    k = t.get_id()
    r = _vars_cache.get(k)
    if r is not None: return r[1]
    out = set(); seen = set(); st = [t]
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        c = _vars_cache.get(i)
        if c is not None: out |= c[1]; continue
        if z3.is_quantifier(x):
            st.append(x.body()); continue
        if z3.is_var(x): continue
        n = x.num_args()
        if n == 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(i)
        else: st.extend(x.children())
    r = frozenset(out)
    _vars_cache[k] = (t, r)
    return r

def sym_axioms(ids):
    """range and definition axioms of the symbols, transitively"""
    out = []; done = set(); st = list(ids)
    while st:
        i = st.pop()
        if i in done: continue
        done.add(i); s = SYMS[i]
        st.extend(s.deps)
        for d in s.defs:
            st.extend(j for j, _ in d.t); out.append(Rel('ge', d).z())
        for z in s.zdefs: st.extend(free_syms(z)); out.append(z)
        if s.kind == 'term':
            st.extend(free_syms(s.info))
            if s.hi < (1 << 63) - 1 and s.hi < (1 << s.info.size()) - 1: out.append(z3.ULE(s.z, z3.BitVecVal(s.hi, 64)))
            continue
        if s.lo >= 0:
            if s.hi < (1 << 64) - 1: out.append(z3.ULE(s.z, z3.BitVecVal(s.hi, 64)))
            if s.lo > 0: out.append(z3.UGE(s.z, z3.BitVecVal(s.lo, 64)))
        else:
            out.append(z3.And(s.z >= z3.BitVecVal(s.lo, 64), s.z <= z3.BitVecVal(s.hi, 64)))
    return out, done

class State:
    def __init__(s):
        s.mem = {}; s.own = set(); s.pc = []; s.facts = []; s.ranges = {}; s.allow_prove = True
        s.ghost = {}; s.foralls = []; s.wlog = None; s.instidx = []; s.approx = False; s.eqs = []
        s.path = ()
    def clone(s):
        r = State.__new__(State)
        r.mem = dict(s.mem); s.own = set(); r.own = set(); r.pc = list(s.pc); r.facts = list(s.facts); r.ranges = dict(s.ranges)
        r.allow_prove = s.allow_prove; r.ghost = {k: (list(v) if type(v) is list else dict(v) if type(v) is dict else v) for k, v in s.ghost.items()}
        r.foralls = list(s.foralls); r.wlog = None if s.wlog is None else list(s.wlog); r.instidx = list(s.instidx); r.approx = s.approx
        r.eqs = list(s.eqs); r.path = s.path
        return r
    # ------------------------------------------------------------ path conditions
    def assume(s, c):
        if c is True: return
        if c is False: raise Infeasible()
        if type(c) is Rel:
            if c.k == 'ge': s._fact(c.l)
            elif c.k == 'eq':
                s._fact(c.l); s._fact(c.l.scale(-1)); s.eqs.append(c.l)
            else:
                # ne: strengthen when one side is already known
                if s._quick_ge(c.l): s._fact(c.l.add(-1))
                elif s._quick_ge(c.l.scale(-1)): s._fact(c.l.scale(-1).add(-1))
            s.pc.append(c)
            return
        if z3.is_and(c):
            for x in c.children(): s.assume(x)
            return
        if z3.is_true(c): return
        if z3.is_false(c): raise Infeasible()
        s.pc.append(c)
    def _fact(s, l):
        if len(l.t) == 1:
            (i, c), = l.t
            sy = SYMS[i]; lo, hi = s.ranges.get(i, (sy.lo, sy.hi))
            # c*x + k >= 0
            if c > 0: lo = max(lo, -(l.c // c))        # x >= ceil(-k/c)
            else: hi = min(hi, l.c // (-c))
            if lo > hi: raise Infeasible()
            s.ranges[i] = (lo, hi)
            return
        lo, hi = l.rng(s.ranges)
        if hi < 0: raise Infeasible()
        if lo >= 0: return
        s.facts.append(l)
        # bound propagation
        for i, c in l.t:
            sy = SYMS[i]; a, b = s.ranges.get(i, (sy.lo, sy.hi))
            # c*x >= -(rest)max
            restmax = hi - (c * b if c > 0 else c * a)
            if c > 0:
                na = -(restmax // c)
                if na > a: s.ranges[i] = (na, b)
            else:
                nb = restmax // (-c)
                if nb < b: s.ranges[i] = (a, nb)
    def _quick_ge(s, g):
        """is g>=0 entailed, by intervals and one or two facts"""
        if g.rng(s.ranges)[0] >= 0: return True
        fs = s.facts
        syms = set(i for i, _ in g.t)
        for i in list(syms):
            d = SYMS[i].defs
            if d: fs = fs + d
        for f in fs:
            if g.add(f, -1).rng(s.ranges)[0] >= 0: return True
        # integer combos: g - c*f
        for f in fs:
            for i, c in f.t:
                for j, d in g.t:
                    if i == j and c and d * c > 0 and d % c == 0 and d // c > 1:
                        if g.add(f, -(d // c)).rng(s.ranges)[0] >= 0: return True
        if len(fs) <= 14:
            for a in range(len(fs)):
                x = g.add(fs[a], -1)
                if len(x.t) > len(g.t) + 1: continue
                for b in range(len(fs)):
                    if x.add(fs[b], -1).rng(s.ranges)[0] >= 0: return True
        return False
    def quick(s, c):
        """True/False/None"""
        if c is True or c is False: return c
        if type(c) is Rel:
            if c.k == 'ge':
                lo, hi = c.l.rng(s.ranges)
                if lo >= 0: return True
                if hi < 0: return False
                if s._quick_ge(c.l): return True
                if s._quick_ge(c.l.scale(-1).add(-1)): return False
                return None
            lo, hi = c.l.rng(s.ranges)
            eq = None
            if lo > 0 or hi < 0: eq = False
            elif lo == 0 and hi == 0: eq = True
            elif s._quick_ge(c.l.add(-1)) or s._quick_ge(c.l.scale(-1).add(-1)): eq = False
            elif s._quick_ge(c.l) and s._quick_ge(c.l.scale(-1)): eq = True
            else:
                from math import gcd
                g = 0
                for _, k in c.l.t: g = gcd(g, k)
                if g > 1 and c.l.c % g: eq = False
            if eq is None: return None
            return eq if c.k == 'eq' else not eq
        c2 = z3.simplify(c)
        if z3.is_true(c2): return True
        if z3.is_false(c2): return False
        return None
    def zpc(s):
        out = []
        for c in s.pc: out.append(zb(c))
        return out
    def slice(s, goal):
        """path conditions connected to the goal"""
        g = zb(goal); vs = set(zvars(g)); todo = [zb(c) for c in s.pc]; out = []
        # symbol definitions connect symbols
        def close(vs):
            ids = set()
            for v in vs:
                j = _zid_sym(v)
                if j is not None: ids.add(j)
            ax, done = sym_axioms(ids)
            for j in done:
                if SYMS[j].z.num_args() == 0: vs.add(SYMS[j].z.get_id())
                else: vs |= zvars(SYMS[j].z)
            return ax
        ax = close(vs)
        while True:
            rest = []; hit = False
            for c in todo:
                cv = zvars(c)
                if not cv or cv & vs:
                    out.append(c)
                    if not cv <= vs: vs |= cv; hit = True
                else: rest.append(c)
            todo = rest
            if not hit: break
            ax = close(vs)
        return out, ax
    def check(s, extra, timeout=20000, want_model=False, full=False, nofork=True):
        """is pc & extra satisfiable: 'sat' 'unsat' 'unknown'"""
        z = zb(extra)
        if full:
            cs = s.zpc(); ids = set()
            for c in cs + [z]: ids |= free_syms(c)
            ax, _ = sym_axioms(ids)
        else: cs, ax = s.slice(z)
        key = None
        sv = z3.Solver(); sv.set('timeout', timeout)
        for c in cs: sv.add(c)
        for c in ax: sv.add(c)
        sv.add(z)
        t = time.time(); r = sv.check(); dt = time.time() - t
        STATS['queries'] += 1; STATS['solver_s'] += dt
        if r == z3.sat: return ('sat', sv.model()) if want_model else 'sat'
        if r == z3.unsat: return ('unsat', None) if want_model else 'unsat'
        STATS['unknown'] += 1
        return ('unknown', None) if want_model else 'unknown'
    _ecache = {}
    def entails(s, c, timeout=3000):
        q = s.quick(c)
        if q is not None: STATS['quick'] += 1; return q
        n = zb(znot(c))
        key = (n.get_id(), tuple(x.get_id() if isinstance(x, z3.AstRef) else (x.k, x.l.key()) for x in s.pc))
        r = State._ecache.get(key)
        if r is None:
            r = s.check(n, timeout) == 'unsat'
            State._ecache[key] = r
            State._keep.append((n, list(s.pc)))
        if r and type(c) is Rel: 
            try:
                if c.k == 'ge': s._fact(c.l)
            except Infeasible: pass
        return r
    _keep = []
    def feasible(s, c):
        q = s.quick(c)
        if q is not None: return q
        return s.check(c, 5000) != 'unsat'
    # ------------------------------------------------------------ regions
    _rid = [1]
    def new_region(s, name, size, align=16, kind='alloca', rid=None):
        if type(size) is Lin and size.isconst(): size = size.c
        if rid is None: rid = State._rid[0]; State._rid[0] += 1
        r = Region(rid, name, size, align, kind)
        s.mem[rid] = r; s.own.add(rid)
        return r
    def reg(s, rid):
        r = s.mem.get(rid)
        if r is None: raise Violation('memory', 'access to unknown region')
        return r
    def wreg(s, rid):
        if rid not in s.own:
            s.mem[rid] = s.mem[rid].clone(); s.own.add(rid)
        return s.mem[rid]
    def freeze(s, rid):
        s.own.discard(rid)
        return s.mem[rid]
    def base_of(s, rid):
        r = s.mem[rid]
        if r.base is None:
            key = ('base', rid)
            r.base = new_sym('addr_%s' % r.name, (1 << 20), (1 << 41), key=key, kind='base', info=rid)
            REGALIGN[r.base.id] = r.align
        return Lin.sym(r.base).scale(r.align)
    def ptr_int(s, p):
        if p.r == 0: return p.o
        o = p.o
        l = s.base_of(p.r)
        if type(o) is int: return l.add(sgn(o, 64))
        if type(o) is Lin: return l.add(o)
        return l.bv64() + o
REGALIGN = {}

_symz = [0, {}]
def _zid_sym(v):
    while _symz[0] < len(SYMS):
        y = SYMS[_symz[0]]
        if y.z.num_args() == 0: _symz[1][y.z.get_id()] = y.id
        _symz[0] += 1
    return _symz[1].get(v)

# ---------------------------------------------------------------- typed value <-> raw bits
FRESH = [0]
def fresh_bv(name, w):
    FRESH[0] += 1
    return z3.BitVec('%s!!%d' % (name, FRESH[0]), w)

def raw(st, v, nb):
    """cell value -> integer-like of nb*8 bits"""
    t = type(v)
    if t is Ptr: return st.ptr_int(v)
    if t is CPtr: raise Unsupported('conditional pointer as integer')
    if t is FuncPtr: raise Unsupported('function pointer as integer')
    if t is float:
        import struct
        return int.from_bytes(struct.pack('<d' if nb == 8 else '<f', v), 'little')
    if t is bool: return int(v)
    if t is tuple and v[0] == 'fbits': return v[1]
    return v

def cell_extract(st, v, nb, lo, n):
    """bytes [lo,lo+n) of a value of nb bytes"""
    if lo == 0 and n == nb: return v
    v = raw(st, v, nb)
    return extract(v, (lo + n) * 8 - 1, lo * 8, nb * 8)

def cells_read(st, r, off, nb):
    c = r.cells.get(off)
    if c is not None and c[0] == nb: return c[1]
    # assemble
    parts = []; o = off; end = off + nb
    while o < end:
        hit = None
        for s in range(o, o - r.maxcell, -1):
            c = r.cells.get(s)
            if c is not None:
                if s + c[0] > o: hit = (s, c)
                break
        if hit is not None:
            s, c = hit
            n = min(end, s + c[0]) - o
            parts.append((cell_extract(st, c[1], c[0], o - s, n), n)); o += n
        else:
            # uninitialised byte(s)
            n = 1
            while o + n < end and (o + n) not in r.cells: n += 1
            if r.const or r.kind == 'zero': v = 0
            else:
                v = fresh_bv('uninit_%s_%d' % (r.name, o), n * 8)
                st.wreg(r.id)
                r = st.mem[r.id]
                r.cells[o] = (n, v); r.maxcell = max(r.maxcell, n)
            parts.append((v, n)); o += n
    if len(parts) == 1: return parts[0][0]
    parts.reverse()
    return concat([(raw(st, v, n), n * 8) for v, n in parts])

def cells_clear(st, r, off, nb):
    end = off + nb
    for s in range(off - 1, off - r.maxcell, -1):
        c = r.cells.get(s)
        if c is not None:
            e = s + c[0]
            if e > off:
                r.cells[s] = (off - s, cell_extract(st, c[1], c[0], 0, off - s))
                if e > end: r.cells[end] = (e - end, cell_extract(st, c[1], c[0], end - s, e - end))
            break
    if nb <= 64 or nb < 4 * len(r.cells): it = [s for s in range(off, end) if s in r.cells]
    else: it = [s for s in r.cells if off <= s < end]
    for s in it:
        c = r.cells.get(s)
        if c is not None:
            e = s + c[0]
            del r.cells[s]
            if e > end: r.cells[end] = (e - end, cell_extract(st, c[1], c[0], end - s, e - end))
def cells_write(st, r, off, nb, v):
    c = r.cells.get(off)
    if c is not None and c[0] == nb: r.cells[off] = (nb, v); return
    cells_clear(st, r, off, nb)
    r.cells[off] = (nb, v)
    if nb > r.maxcell: r.maxcell = nb

def L(x): return x if type(x) is Lin else Lin((), x)

def to_layers(st, r):
    """switch an owned region to layer mode"""
    if r.layers is not None: return
    cells = r.cells; snap = Region(r.id, r.name, r.size, r.align, r.kind); snap.cells = dict(cells); snap.maxcell = r.maxcell; snap.const = r.const
    r.layers = [Layer('b', fn=('cells', snap))]
    r.cells = {}

def arr_read(st, r, off, nb, start=None):
    """read nb bytes at off (int|Lin) from a region in layer mode"""
    layers = r.layers
    i = len(layers) - 1 if start is None else start
    off = L(off)
    while i >= 0:
        ly = layers[i]
        if ly.k == 'w':
            d = off.add(ly.off, -1); n2 = ly.nb
            if d.isconst():
                c = d.c
                if c + nb <= 0 or c >= n2: i -= 1; continue
                if c >= 0 and c + nb <= n2: return cell_extract(st, ly.val, n2, c, nb)
                return split_read(st, r, off, nb, i)
            if st.entails(Rel('ge', d.add(-n2))) or st.entails(Rel('ge', d.scale(-1).add(-nb))): i -= 1; continue
            if nb == n2 and st.entails(Rel('eq', d)): return ly.val
            if nb == n2 and all(c % nb == 0 for _, c in d.t) and d.c % nb == 0:
                cond = Rel('eq', d)
                q = st.quick(cond)
                if q is False: i -= 1; continue
                return merge(st, cond, ly.val, lambda: arr_read(st, r, off, nb, i - 1), nb)
            if nb < n2 and n2 % nb == 0 and all(c % nb == 0 for _, c in d.t) and d.c % nb == 0:
                rest = arr_read(st, r, off, nb, i - 1)
                for j in range(n2 // nb):
                    rest = ite(Rel('eq', d.add(-j * nb)), raw(st, cell_extract(st, ly.val, n2, j * nb, nb), nb), raw(st, rest, nb), nb * 8)
                return rest
            if nb > n2 and nb % n2 == 0: return split_read(st, r, off, nb, i, n2)
            if nb > 1: return split_read(st, r, off, nb, i, 1)
            rest = arr_read(st, r, off, nb, i - 1)
            for j in range(n2):
                rest = ite(Rel('eq', d.add(-j)), raw(st, cell_extract(st, ly.val, n2, j, 1), 1), raw(st, rest, nb), 8)
            return rest
        elif ly.k == 'r':
            rel = off.add(ly.off, -1); ln = L(ly.nb)
            ge = Rel('ge', rel); fit = Rel('ge', ln.add(rel, -1).add(-nb))
            if st.entails(Rel('ge', rel.scale(-1).add(-nb))) or st.entails(Rel('ge', rel.add(ln, -1))): i -= 1; continue
            if st.entails(ge) and st.entails(fit): return ly.fn(st, rel, nb)
            al = lambda l: all(c % nb == 0 for _, c in l.t) and l.c % nb == 0
            if nb == 1 or (al(rel) and al(ln)):
                cond = band(ge, fit)
                st2 = st.clone()
                try:
                    st2.assume(ge); st2.assume(fit)
                except Infeasible: i -= 1; continue
                CUR[0] = st2
                v = ly.fn(st2, rel, nb); CUR[0] = st
                return merge(st, cond, v, lambda: arr_read(st, r, off, nb, i - 1), nb)
            return split_read(st, r, off, nb, i)
        elif ly.k == 'b':
            if type(ly.fn) is tuple:
                snap = ly.fn[1]
                return base_cells(st, snap, off, nb)
            return ly.fn(st, off, nb)
        elif ly.k == 'p':
            v = ly.fn(st, r, off, nb, i)
            if v is not None: return v
            i -= 1; continue
        else: raise Exception()
    # uninitialised
    key = ('uninit', r.id, off.key(), nb)
    return z3.BitVec('uninit_r%d_%d_%s' % (r.id, nb, abs(hash(off.key()))), nb * 8)

def merge(st, cond, v, restf, nb):
    st2 = st
    try:
        st2 = st.clone(); st2.assume(zb(znot(cond)) if type(cond) is not Rel else znot(cond))
    except Infeasible: return v
    CUR[0] = st2
    try: rest = restf()
    except Infeasible: return v
    finally: CUR[0] = st
    if same(v, rest): return v
    if type(v) is Ptr or type(rest) is Ptr: raise Unsupported('merge of pointers')
    return ite(cond, raw(st, v, nb), raw(st, rest, nb), nb * 8)

def split_read(st, r, off, nb, i, piece=None):
    if nb == 1: raise Unsupported('cannot split read')
    p = piece or nb // 2
    parts = []
    for o in range(0, nb, p):
        parts.append((raw(st, arr_read(st, r, off.add(o), p, i), p), p * 8))
    parts.reverse()
    return concat(parts)

def base_cells(st, snap, off, nb):
    off = L(off)
    if off.isconst():
        return cells_read_ro(st, snap, off.c, nb)
    # table lookup: enumerate aligned offsets that exist
    lo, hi = off.rng(st.ranges)
    lo = max(lo, 0); hi = min(hi, snap.size - nb)
    from math import gcd
    g = 0
    for _, c in off.t: g = gcd(g, c)
    step = max(1, abs(g))
    first = lo + ((off.c - lo) % step)
    cand = list(range(first, hi + 1, step))
    if len(cand) > 1100: raise Unsupported('symbolic read over %d entries of %s' % (len(cand), snap.name))
    res = None
    vs = [(o, cells_read_ro(st, snap, o, nb)) for o in cand]
    if not vs: raise Infeasible()
    ptrs = [v for _, v in vs if type(v) in (Ptr, FuncPtr)]
    if ptrs: raise Unsupported('symbolic index into pointer table')
    vs = [(o, raw(st, v, nb)) for o, v in vs]
    res = vs[-1][1]
    for o, v in reversed(vs[:-1]):
        res = ite(Rel('eq', off.add(-o)), v, res, nb * 8)
    return res
def cells_read_ro(st, snap, off, nb):
    c = snap.cells.get(off)
    if c is not None and c[0] == nb: return c[1]
    # temporarily read through a throwaway state-less path
    parts = []; o = off; end = off + nb
    while o < end:
        hit = None
        for s in range(o, o - snap.maxcell, -1):
            c = snap.cells.get(s)
            if c is not None:
                if s + c[0] > o: hit = (s, c)
                break
        if hit is not None:
            s, c = hit; n = min(end, s + c[0]) - o
            parts.append((cell_extract(st, c[1], c[0], o - s, n), n)); o += n
        else:
            n = 1
            while o + n < end and (o + n) not in snap.cells: n += 1
            if snap.const or snap.kind == 'zero': v = 0
            else: v = z3.BitVec('uninit_r%d_%d_%d' % (snap.id, o, n), n * 8)
            parts.append((v, n)); o += n
    if len(parts) == 1: return parts[0][0]
    parts.reverse()
    return concat([(raw(st, v, n), n * 8) for v, n in parts])

# ---------------------------------------------------------------- access API
def off_lin(o):
    if type(o) is int: return sgn(o, 64)
    if type(o) is Lin: return o
    return term_lin(o)

def bounds(eng, st, p, nb, what):
    if p.r == 0: eng.fail(st, 'memory', 'null pointer %s' % what)
    r = st.mem.get(p.r)
    if r is None or not r.alive: eng.fail(st, 'memory', '%s of dead object %s' % (what, r.name if r else p.r))
    o = off_lin(p.o)
    if type(o) is int and type(r.size) is int and type(nb) is int:
        if o < 0 or o + nb > r.size:
            eng.fail(st, 'memory', 'out-of-bounds %s: offset %d size %d in %s[%d]' % (what, o, nb, r.name, r.size))
        eng.ob_quick += 1
        return r, o
    lo = L(o); hi = L(r.size).add(lo, -1).add(nb if type(nb) is int else nb, -1)
    for c in (Rel('ge', lo), Rel('ge', hi)):
        if st.quick(c) is True: eng.ob_quick += 1
        else: eng.oblige(st, c, 'in-bounds %s in %s' % (what, r.name), kind='memory')
    return r, o

def load(eng, st, p, nb):
    r, o = bounds(eng, st, p, nb, 'read')
    if r.layers is None:
        if type(o) is int: return cells_read(st, r, o, nb)
        if eng.sym_read is not None:
            v = eng.sym_read(st, r, o, nb)
            if v is not None: return v
        return base_cells(st, r, o, nb)
    return arr_read(st, r, o, nb)

def store(eng, st, p, nb, v):
    r, o = bounds(eng, st, p, nb, 'write')
    if r.const: eng.fail(st, 'memory', 'write to constant %s' % r.name)
    r = st.wreg(p.r)
    if st.wlog is not None: st.wlog.append(('w', p.r, o, nb, v))
    if type(v) is bool: v = int(v)
    if r.layers is None:
        if type(o) is int:
            cells_write(st, r, o, nb, v); return
        to_layers(st, r)
    push_layer(st, r, Layer('w', L(o), nb, v))

def push_layer(st, r, ly):
    # drop an immediately shadowed write at the same place
    n = len(r.layers)
    if ly.k == 'w':
        for j in range(n - 1, max(-1, n - 12), -1):
            x = r.layers[j]
            if x.k == 'w' and x.nb == ly.nb and x.off == ly.off:
                del r.layers[j]; break
            if x.k != 'w': break
            d = x.off.add(ly.off, -1)
            if not d.isconst(): break
    r.layers.append(ly)

def sub_fn(snap, soff):
    """closure reading from snapshot region 'snap' at soff+rel"""
    soff = L(soff)
    if snap.layers is None:
        def fn(st, rel, nb): return base_cells(st, snap, soff.add(rel), nb)
    else:
        def fn(st, rel, nb): return arr_read(st, snap, soff.add(rel), nb)
    return fn

def memcpy(eng, st, d, s, n, what='memcpy'):
    if type(n) is Lin and n.isconst(): n = n.c
    if type(n) is int and n == 0: return
    if type(n) is not int:
        # possible zero length with a null/any pointer
        if d.r == 0 or s.r == 0:
            eng.oblige(st, Rel('eq', L(n)), 'zero length for null pointer in ' + what, kind='memory'); return
        if isinstance(n, BVR): n = term_lin(n)
    rs, so = bounds(eng, st, s, n, what + ' source')
    rd, do = bounds(eng, st, d, n, what + ' destination')
    if rd.const: eng.fail(st, 'memory', 'write to constant %s' % rd.name)
    if type(n) is int and type(so) is int and type(do) is int and rs.layers is None and rd.layers is None:
        # cellwise copy
        items = []
        if rs.maxcell > 1:
            c0 = None
            for q in range(so - 1, so - rs.maxcell, -1):
                c = rs.cells.get(q)
                if c is not None:
                    if q + c[0] > so:
                        k = min(q + c[0], so + n) - so
                        items.append((0, k, cell_extract(st, c[1], c[0], so - q, k)))
                    break
        if n <= 4 * len(rs.cells) + 64: it = (q for q in range(so, so + n) if q in rs.cells)
        else: it = sorted(q for q in rs.cells if so <= q < so + n)
        for q in it:
            c = rs.cells[q]
            k = min(c[0], so + n - q)
            items.append((q - so, k, c[1] if k == c[0] else cell_extract(st, c[1], c[0], 0, k)))
        rd = st.wreg(d.r)
        cells_clear(st, rd, do, n)
        pos = 0
        for o, k, v in items:
            rd.cells[do + o] = (k, v)
            if k > rd.maxcell: rd.maxcell = k
        if rs.const or rs.kind == 'zero':
            # zero gaps must be copied
            pos = 0
            for o, k, v in sorted(items, key=lambda x: x[0]) + [(n, 0, 0)]:
                if o > pos: rd.cells[do + pos] = (o - pos, 0); rd.maxcell = max(rd.maxcell, o - pos)
                pos = o + k
        if st.wlog is not None: st.wlog.append(('c', d.r, do, n, None))
        return
    snap = st.freeze(s.r)
    if s.r == d.r: pass
    rd = st.wreg(d.r)
    if rd is snap: raise Exception('freeze failed')
    to_layers(st, rd)
    fn = sub_fn(snap, so)
    if type(n) is int and n <= 64 and (type(so) is int or True):
        # small fixed-size copy: copy as one cell
        pl = 16 if n % 16 == 0 else (n if n in (1, 2, 4, 8) else None)
        if pl is not None:
            for o in range(0, n, pl):
                v = fn(st, Lin((), o), pl)
                push_layer(st, rd, Layer('w', L(do).add(o), pl, v))
                if st.wlog is not None: st.wlog.append(('w', d.r, L(do).add(o), pl, v))
            return
    rd.layers.append(Layer('r', L(do), L(n), fn=fn))
    if st.wlog is not None: st.wlog.append(('r', d.r, L(do), L(n), fn))

def memset(eng, st, d, v, n):
    if type(n) is Lin and n.isconst(): n = n.c
    if type(n) is int and n == 0: return
    if isinstance(n, BVR): n = term_lin(n)
    rd, do = bounds(eng, st, d, n, 'memset')
    rd = st.wreg(d.r)
    def rep(nb):
        if type(v) is int: return int.from_bytes(bytes([v]) * nb, 'little')
        return concat([(v, 8)] * nb)
    if type(n) is int and type(do) is int and rd.layers is None:
        cells_clear(st, rd, do, n)
        pc = 16 if n % 16 == 0 and do % 16 == 0 else 8 if n % 8 == 0 and do % 8 == 0 else 1
        if n <= 4096 or True:
            x = rep(pc)
            for o in range(0, n, pc): rd.cells[do + o] = (pc, x)
            rd.maxcell = max(rd.maxcell, pc)
        if st.wlog is not None: st.wlog.append(('c', d.r, do, n, None))
        return
    to_layers(st, rd)
    fn = lambda st, rel, nb: rep(nb)
    rd.layers.append(Layer('r', L(do), L(n), fn=fn))
    if st.wlog is not None: st.wlog.append(('r', d.r, L(do), L(n), fn))
