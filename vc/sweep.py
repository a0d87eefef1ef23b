"""Equivalence engine for Boolean obligations: the goal becomes an and-inverter graph, internal points that agree on random
patterns are proved equal on small cuts (exhaustive truth tables) bottom-up and merged; what is left goes to z3.
Everything that is not a Boolean connective is a free variable, so 'valid' is sound for the original goal."""
import z3, random, time
PAT = 2048
class Sweep:
    plain = False
    def __init__(s, seed=1):
        s.f0 = [0]; s.f1 = [0]; s.sig = [0]; s.h = {}; s.cls = {0: 0}; s.rep = {}      # node 0 = false
        s.leaf = {}; s.cache = {}; s.keep = []; s.rnd = random.Random(seed); s.M = (1 << PAT) - 1
        s.proved = 0; s.tt = 0; s.fail = set(); s.z3q = 0; s.deadline = None; s.zt = 0.0
        s.lterm = {}; s.lens = {}; s.bc = {}; s.wq = 0; s.sat = z3.SolverFor('QF_FD'); s.sat.set('timeout', 2000)
    def var(s, t):
        k = t.get_id(); l = s.leaf.get(k)
        if l is None:
            n = len(s.f0); s.f0.append(-1); s.f1.append(-1); s.sig.append(s.pattern(t)); l = s.leaf[k] = 2 * n; s.keep.append(t); s.lterm[n] = t
        return l
    def pattern(s, t):
        """half uniform; half with short operands (the high elements of an input array zero, or all ones), so that rarely set bits are exercised"""
        v = s.rnd.getrandbits(PAT)
        if t.num_args() == 1 and z3.is_bv_value(t.arg(0)):
            nm = t.decl().name(); i = t.arg(0).as_long()
            L = s.lens.get(nm)
            if L is None:
                L = s.lens[nm] = [s.rnd.randrange((12, 36, 70, 130)[s.rnd.randrange(4)]) for _ in range(PAT // 2)]
            for p, x in enumerate(L):
                if (i >= x) if p & 8 else (i < x - 1):
                    if p & 7: v &= ~(1 << p)
                    else: v |= 1 << p
        return v
    def slit(s, l): return s.sig[l >> 1] ^ (s.M if l & 1 else 0)
    def mkand(s, a, b):
        if a == 0 or b == 0 or a == (b ^ 1): return 0
        if a == 1: return b
        if b == 1 or a == b: return a
        if a > b: a, b = b, a
        n = s.h.get((a, b))
        if n is not None: return n
        i = len(s.f0); s.f0.append(a); s.f1.append(b); sg = s.slit(a) & s.slit(b); s.sig.append(sg)
        l = 2 * i
        if s.plain: s.h[(a, b)] = l; return l
        c = sg ^ (s.M if sg & 1 else 0); inv = sg & 1
        r = s.cls.get(c)
        if r is None:
            s.cls[c] = [2 * i ^ inv]
        else:
            if type(r) is int: r = [r]
            done = None
            for q in (r if s.zmax < 0 else r[:4]):
                if s.equal(2 * i ^ inv, q): done = q ^ inv; break
            if done is not None: s.h[(a, b)] = done; s.proved += 1; return done
            s.cls[c] = r + [2 * i ^ inv]
        s.h[(a, b)] = l
        return l
    def mkxor(s, a, b):
        return s.mkand(s.mkand(a, b) ^ 1, s.mkand(a ^ 1, b ^ 1) ^ 1)
    def equal(s, a, b):
        """prove literal a == literal b"""
        if a == b: return True
        x, y = a >> 1, b >> 1
        for strat in (0, 1):
            leaves = {x, y} - {0}; expanded = set(); steps = 0
            for f in (x, y):
                if f and s.f0[f] >= 0:
                    leaves.discard(f); expanded.add(f)
                    for q in (s.f0[f] >> 1, s.f1[f] >> 1):
                        if q and q not in expanded: leaves.add(q)
            while True:
                if strat == 0:
                    n = None; best = None
                    for q in leaves:
                        if s.f0[q] < 0: continue
                        c = ((s.f0[q] >> 1) not in leaves) + ((s.f1[q] >> 1) not in leaves)
                        if best is None or (c, -q) < best: best = (c, -q); n = q
                else: n = max((q for q in leaves if s.f0[q] >= 0), default=None)
                if n is None: break
                l2 = set(leaves); l2.discard(n)
                for f in (s.f0[n] >> 1, s.f1[n] >> 1):
                    if f and f not in expanded: l2.add(f)
                if len(l2) > s.maxcut or steps > 80: break
                leaves = l2; expanded.add(n); steps += 1
                if (steps % 4 == 0 or len(l2) <= 6) and s.ttcheck(a, b, leaves, expanded): return True
            if expanded and s.ttcheck(a, b, leaves, expanded): return True
        for d in (8, 16):
            r = s.window(a, b, d)
            if r is not None: return r
        return s.z3eq(a, b)
    def window(s, a, b, depth):
        """bounded-depth window around both points, its border free: unsat proves equality; sat on a window without border refutes it"""
        if s.deadline and time.time() > s.deadline: return None
        s.wq += 1
        lev = {}; cur = [a >> 1, b >> 1]; border = False
        for d in range(depth + 1):
            nx = []
            for n in cur:
                if n in lev or n == 0: continue
                lev[n] = d
                if s.f0[n] >= 0:
                    if d < depth: nx += [s.f0[n] >> 1, s.f1[n] >> 1]
                    else: border = True
            cur = nx
        sv = s.sat; sv.push()
        B = s.bool
        for n, d in lev.items():
            if s.f0[n] < 0 or d == depth: continue
            p, q = s.f0[n], s.f1[n]
            P = B(p); Q = B(q); N = B(2 * n)
            sv.add(z3.Or(z3.Not(N), P), z3.Or(z3.Not(N), Q), z3.Or(N, s.bool(p ^ 1), s.bool(q ^ 1)))
        X, Y = B(a), B(b)
        sv.add(z3.Or(X, Y), z3.Or(B(a ^ 1), B(b ^ 1)))
        r = sv.check(); sv.pop()
        if r == z3.unsat: return True
        if r == z3.sat and not border: return False
        return None
    def bool(s, l):
        r = s.bc.get(l)
        if r is None:
            if l < 2: r = z3.BoolVal(l == 1)
            else:
                r = z3.Bool('n%d' % (l >> 1))
                if l & 1: r = z3.Not(r)
            s.bc[l] = r
        return r
    def ttcheck(s, a, b, leaves, expanded):
        ls = sorted(leaves); k = len(ls); N = 1 << k; M = (1 << N) - 1; v = {0: 0}
        s.tt += 1
        for i, l in enumerate(ls):
            blk = 1 << i; pat = ((1 << blk) - 1) << blk; w = 2 * blk
            while w < N: pat |= pat << w; w *= 2
            v[l] = pat
        for n in sorted(expanded):
            p, q = s.f0[n], s.f1[n]
            vp, vq = v.get(p >> 1), v.get(q >> 1)
            if vp is None or vq is None: continue
            v[n] = (vp ^ M if p & 1 else vp) & (vq ^ M if q & 1 else vq)
        va, vb = v.get(a >> 1), v.get(b >> 1)
        if va is None or vb is None: return False
        return (va ^ M if a & 1 else va) == (vb ^ M if b & 1 else vb)
    zmax = 60; zto = 3000; maxcut = 8
    def z3eq(s, a, b):
        if s.zt > s.zmax or (s.deadline and time.time() > s.deadline): return False
        t0 = time.time(); s.z3q += 1
        sv = z3.SolverFor('QF_FD'); sv.set('timeout', s.zto)
        seen = set(); st = [a >> 1, b >> 1]; B = lambda n: z3.Bool('n%d' % n)
        if a < 2 or b < 2: sv.add(z3.Not(B(0)))
        while st:
            n = st.pop()
            if n in seen or n == 0: continue
            seen.add(n)
            if s.f0[n] >= 0:
                p, q = s.f0[n], s.f1[n]; P = B(p >> 1); Q = B(q >> 1)
                if p & 1: P = z3.Not(P)
                if q & 1: Q = z3.Not(Q)
                if p < 2 or q < 2: sv.add(z3.Not(B(0)))
                sv.add(B(n) == z3.And(P, Q)); st += [p >> 1, q >> 1]
                if len(seen) > 6000: s.zt += time.time() - t0; return False
        X, Y = B(a >> 1), B(b >> 1)
        if a & 1: X = z3.Not(X)
        if b & 1: Y = z3.Not(Y)
        sv.add(X != Y)
        r = sv.check()
        s.zt += time.time() - t0
        return r == z3.unsat
    def lit(s, t):
        st = [t]
        while st:
            x = st[-1]; k = x.get_id()
            if k in s.cache: st.pop(); continue
            d = x.decl().kind(); ch = x.children()
            boolean = d in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_XOR, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE, z3.Z3_OP_IMPLIES) or (d in (z3.Z3_OP_EQ, z3.Z3_OP_IFF, z3.Z3_OP_DISTINCT) and len(ch) == 2 and z3.is_bool(ch[0])) or (d == z3.Z3_OP_ITE and z3.is_bool(x))
            if not boolean:
                s.cache[k] = s.var(x); s.keep.append(x); st.pop(); continue
            miss = [c for c in ch if c.get_id() not in s.cache]
            if miss: st.extend(miss); continue
            if s.deadline and time.time() > s.deadline: return None
            a = [s.cache[c.get_id()] for c in ch]
            if d == z3.Z3_OP_TRUE: l = 1
            elif d == z3.Z3_OP_FALSE: l = 0
            elif d == z3.Z3_OP_NOT: l = a[0] ^ 1
            elif d == z3.Z3_OP_AND:
                l = 1
                for q in a: l = s.mkand(l, q)
            elif d == z3.Z3_OP_OR:
                l = 1
                for q in a: l = s.mkand(l, q ^ 1)
                l ^= 1
            elif d == z3.Z3_OP_IMPLIES: l = s.mkand(a[0], a[1] ^ 1) ^ 1
            elif d in (z3.Z3_OP_XOR, z3.Z3_OP_DISTINCT):
                l = a[0]
                for q in a[1:]: l = s.mkxor(l, q)
            elif d in (z3.Z3_OP_EQ, z3.Z3_OP_IFF): l = s.mkxor(a[0], a[1]) ^ 1
            else: l = s.mkand(s.mkand(a[0], a[1]) ^ 1, s.mkand(a[0] ^ 1, a[2]) ^ 1) ^ 1
            s.cache[k] = l; s.keep.append(x); st.pop()
        return s.cache[t.get_id()]
    def valid(s, t, budget):
        s.deadline = time.time() + budget; s.zt = 0.0
        return s.lit(t) == 1

    def cnf(s, l):
        """DIMACS of: literal l is false"""
        idx = {}; out = []; seen = set(); st = [l >> 1]
        def L(x):
            n = x >> 1
            i = idx.get(n)
            if i is None: i = idx[n] = len(idx) + 1
            return -i if x & 1 else i
        while st:
            n = st.pop()
            if n in seen: continue
            seen.add(n)
            if n == 0: out.append('%d 0' % -L(0)); continue
            if s.f0[n] >= 0:
                p, q = s.f0[n], s.f1[n]; N = L(2 * n); P = L(p); Q = L(q)
                out.append('%d %d 0\n%d %d 0\n%d %d %d 0' % (-N, P, -N, Q, N, -P, -Q)); st += [p >> 1, q >> 1]
        out.append('%d 0' % -L(l)); s.idx = idx
        return 'p cnf %d %d\n' % (len(idx), sum(x.count('\n') + 1 for x in out)) + '\n'.join(out) + '\n'
    def kissat(s, t, secs):
        """valid / invalid / None"""
        import subprocess
        s.deadline = None
        l = s.lit(t)
        if l == 1: return True
        if l == 0: return False
        r = subprocess.run(['kissat', '-q', '-n', '--time=%d' % max(1, int(secs))], input=s.cnf(l), capture_output=True, text=True)
        return {20: True, 10: False}.get(r.returncode)
import ctypes, os, subprocess, fcntl
def lib():
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); src = V + '/vc/fraig.cpp'; d = V + '/build/lib'; so = d + '/fraig.so'
    os.makedirs(d, exist_ok=True)
    with open(d + '/lock', 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
            subprocess.check_call(['g++', '-O2', '-shared', '-fPIC', '-fpermissive', '-w', src, '-o', so + '.tmp', '-lminisat']); os.rename(so + '.tmp', so)
    L = ctypes.CDLL(so)
    L.fr_new.restype = ctypes.c_void_p
    for f in ('fr_and', 'fr_var', 'fr_valid', 'fr_model', 'fr_budget', 'fr_free', 'fr_stats'): getattr(L, f).argtypes = [ctypes.c_void_p] + {'fr_and': [ctypes.c_int] * 2, 'fr_var': [ctypes.c_char_p], 'fr_valid': [ctypes.c_int] * 2, 'fr_model': [ctypes.c_int], 'fr_budget': [ctypes.c_int], 'fr_free': [], 'fr_stats': [ctypes.c_char_p]}[f]
    return L
class Fraig(Sweep):
    """same interface, the graph and the proofs live in fraig.cpp (MiniSat)"""
    L = None
    def __init__(s, seed=1):
        Sweep.__init__(s, seed)
        if Fraig.L is None: Fraig.L = lib()
        s.p = s.L.fr_new(); s.vl = []; s._and = s.L.fr_and
    def var(s, t):
        k = t.get_id(); l = s.leaf.get(k)
        if l is None:
            l = s.L.fr_var(s.p, s.pattern(t).to_bytes(PAT // 8, 'little')); s.leaf[k] = l; s.keep.append(t); s.vl.append((t, l))
        return l
    def mkand(s, a, b): return s._and(s.p, a, b)
    def valid(s, t, budget, conf=200000):
        """True / False (a model of the negation is available) / None"""
        s.deadline = time.time() + budget
        l = s.lit(t)
        if l is None: return None
        return {1: True, 0: False}.get(s.L.fr_valid(s.p, l, conf))
    def model(s): return [(t, bool(s.L.fr_model(s.p, l))) for t, l in s.vl]
    def stats(s):
        b = ctypes.create_string_buffer(40); s.L.fr_stats(s.p, b); import struct; return struct.unpack('5Q', b.raw)
