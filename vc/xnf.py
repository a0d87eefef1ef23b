"""XOR normal form of bit-vector terms built from xor / concat / extract / not / and-with-constant over arbitrary atoms.
A term of width n*g is a tuple of cells (lowest first); a cell is (frozenset of (atom id, cell offset in the atom), constant)."""
import z3
from vals import *
KEEP = {}; MEMO = {8: {}, 1: {}}
class Un(Exception): pass
E0 = frozenset()
def cells(v, g):
    if type(v) is int: raise Un()
    memo = MEMO[g]
    st = [v]
    while st:
        x = st[-1]; i = x.get_id()
        if i in memo: st.pop(); continue
        k = x.decl().kind()
        if k in (CONCAT, BXOR, EXTRACT, BNOT, ZEXT) or (k in (BAND, BOR) and x.num_args() == 2 and (z3.is_bv_value(x.arg(0)) or z3.is_bv_value(x.arg(1)))):
            todo = [c for c in x.children() if c.get_id() not in memo]
            if todo:
                for c in todo:
                    if c.size() % g: raise Un()
                st.extend(todo); continue
        memo[i] = build(x, k, g); KEEP[i] = x; st.pop()
    return memo[v.get_id()]
def build(x, k, g):
    w = x.size()
    if w % g: raise Un()
    n = w // g; memo = MEMO[g]; m = (1 << g) - 1
    if z3.is_bv_value(x):
        v = x.as_long(); return tuple((E0, (v >> (g * j)) & m) for j in range(n))
    ch = [memo.get(c.get_id()) if z3.is_bv(c) else None for c in x.children()] if x.num_args() else []
    if k == CONCAT:
        r = ()
        for c in reversed(ch): r += c
        return r
    if k == BXOR:
        r = list(ch[0])
        for c in ch[1:]: r = [(a[0] ^ b[0], a[1] ^ b[1]) for a, b in zip(r, c)]
        return tuple(r)
    if k == EXTRACT:
        hi, lo = x.params()
        if lo % g or (hi + 1) % g: raise Un()
        return ch[0][lo // g:(hi + 1) // g]
    if k == ZEXT: return ch[0] + tuple((E0, 0) for _ in range(n - len(ch[0])))
    if k == BNOT: return tuple((a[0], a[1] ^ m) for a in ch[0])
    if k in (BAND, BOR) and x.num_args() == 2:
        for a, b in ((0, 1), (1, 0)):
            if z3.is_bv_value(x.arg(b)):
                c = x.arg(b).as_long(); r = []
                for j, q in enumerate(ch[a]):
                    z = (c >> (g * j)) & m
                    if k == BAND and z == 0: r.append((E0, 0))
                    elif k == BAND and z == m or k == BOR and z == 0: r.append(q)
                    elif k == BOR and z == m: r.append((E0, m))
                    elif not q[0]: r.append((E0, q[1] & z if k == BAND else q[1] | z))
                    else: raise Un()
                return tuple(r)
    i = x.get_id()
    return tuple((frozenset(((i, j),)), 0) for j in range(n))
def xnf(v):
    try: return 8, cells(v, 8)
    except Un: pass
    try: return 1, cells(v, 1)
    except Un: return None
def canon(v):
    """an equal term in a canonical shape (same XOR normal form => same term)"""
    if not isinstance(v, BVR): return v
    r = xnf(v)
    if r is None: return v
    g, cs = r
    # maximal segments whose cells continue the same atoms
    parts = []; j = 0; n = len(cs)
    while j < n:
        base, c = cs[j]; k = j + 1; cv = c
        while k < n:
            nb, nc = cs[k]
            if len(nb) != len(base) or any((a, o + k - j) not in nb for a, o in base): break
            cv |= nc << (g * (k - j)); k += 1
        w = g * (k - j); t = None
        for a, o in sorted(base):
            at = KEEP[a]; e = at if w == at.size() else z3.Extract(g * o + w - 1, g * o, at)
            t = e if t is None else t ^ e
        if t is None: t = z3.BitVecVal(cv, w)
        elif cv: t = t ^ z3.BitVecVal(cv, w)
        parts.append(t); j = k
    parts.reverse()
    out = parts[0] if len(parts) == 1 else z3.Concat(*parts)
    return norm(out)
def equal(a, b):
    if a.eq(b): return True
    for g in (8, 1):
        try: return cells(a, g) == cells(b, g)
        except Un: continue
    return False
def valid(c):
    """True if c is a conjunction of equalities that hold by XOR normal form"""
    if c is True: return True
    if not z3.is_expr(c): return False
    if z3.is_true(c): return True
    if z3.is_and(c): return all(valid(x) for x in c.children())
    if z3.is_eq(c) and z3.is_bv(c.arg(0)): return equal(c.arg(0), c.arg(1))
    return False

ABS = {}; ABSM = {}
def abstract(t):
    """t with every maximal uninterpreted application replaced by a fresh constant (a generalisation of t); None if there is none"""
    st = [t]; found = False
    while st:
        x = st[-1]; i = x.get_id()
        if i in ABSM: st.pop(); continue
        if z3.is_quantifier(x): return None
        d = x.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
            if i not in ABS: ABS[i] = z3.FreshConst(x.sort(), 'abs')
            ABSM[i] = (x, ABS[i]); st.pop(); continue
        ch = x.children(); todo = [c for c in ch if c.get_id() not in ABSM]
        if todo: st.extend(todo); continue
        nc = [ABSM[c.get_id()][1] for c in ch]
        if all(a.eq(b) for a, b in zip(ch, nc)): r = x
        elif d.kind() == z3.Z3_OP_BXOR and len(nc) > 1:
            r = nc[0]
            for c in nc[1:]: r = r ^ c
        else:
            r = z3.substitute(x, *[(a, b) for a, b in zip(ch, nc) if not a.eq(b)]) if len(nc) else x
        ABSM[i] = (x, r); st.pop()
    r = ABSM[t.get_id()][1]
    return None if r.eq(t) else r
def abs_valid(c):
    if not z3.is_bool(c): return False
    a = abstract(c)
    if a is None: return False
    s = z3.Solver(); s.set('timeout', 1500); s.add(z3.Not(a))
    return s.check() == z3.unsat
