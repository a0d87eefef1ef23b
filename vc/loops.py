"""Loop rule: every loop with a symbolic trip count is replaced by an inductive summary over a ghost iteration counter k.

For each location the body modifies one of these closed forms is inferred and then checked to be inductive by executing the
body once from an arbitrary iteration k:
   iv    : init + d*k
   last  : value written by iteration k-1 (no loop-carried dependence)
   rec   : F(k) with F(0)=init, F(k+1)=step(k,F(k))   (uninterpreted F, unfolded on demand)
   array : element function A(k,j), same as rec with an index
   movers: writes at base+c*k that no other iteration reads or overwrites
Recurrences of different loops are proved equal by induction (base and step obligations) and then identified.
"""
from engine import *
import engine, mem, vals
from builtins_ import mk_elem_layer, dec, enc

class RecMember:
    __slots__ = ('fn', 'sort', 'init', 'step', 'idx', 'group', 'kind')
class RecGroup:
    def __init__(s): s.k = None; s.params = []; s.members = []; s.id = None; s.owner = None; s.eng = None

BV64 = z3.BitVecSort(64)
def is_lab(v): return isinstance(v, BVR) and v.num_args() == 1 and v.decl().eq(ENC)

def vsubst(v, m):
    """substitute symbols (id -> Lin) in a value"""
    t = type(v)
    if t is Lin: return v.subst(m)
    if t is Rel: return v.subst(m)
    if t is Ptr: return Ptr(v.r, canon(vsubst(v.o, m), 64))
    if isinstance(v, z3.ExprRef): return norm(subst_z(v, m)) if isinstance(v, BVR) else subst_z(v, m)
    if t is tuple: return tuple(vsubst(x, m) for x in v)
    return v
def zsubst(v, pairs):
    if not pairs: return v
    t = type(v)
    if isinstance(v, z3.ExprRef): 
        r = z3.substitute(v, *pairs)
        return norm(r) if isinstance(r, BVR) else r
    if t is Rel: return z3.substitute(v.z(), *pairs)
    return v
def vsyms(v):
    t = type(v)
    if t is Lin: 
        out = set()
        def rec(i):
            if i in out: return
            out.add(i)
            for j in SYMS[i].deps: rec(j)
        for i, _ in v.t: rec(i)
        return out
    if t is Rel: return vsyms(v.l)
    if t is Ptr: return vsyms(v.o)
    if isinstance(v, z3.ExprRef):
        out = set()
        for i in free_syms(v): out |= vsyms(Lin(((i, 1),), 0))
        return out
    if t is tuple:
        r = set()
        for x in v: r |= vsyms(x)
        return r
    return set()
def vconsts(v):
    """ids of z3 constants in v"""
    if isinstance(v, z3.ExprRef): return mem.zvars(v)
    if type(v) is Lin:
        s = set()
        for i, _ in v.t: s |= mem.zvars(SYMS[i].z)
        return s
    if type(v) is Ptr: return vconsts(v.o)
    if type(v) is Rel: return vconsts(v.l)
    if type(v) is tuple:
        s = set()
        for x in v: s |= vconsts(x)
        return s
    return set()

class Form:
    """closed form of a location at the start of iteration k"""
    __slots__ = ('k', 'd', 'h', 'hid', 't', 'app')
    def __init__(s, k, d=None, h=None, t=None, app=None): s.k = k; s.d = d; s.h = h; s.t = t; s.app = app

class Summary(Exception): pass

class LEngine(Engine):
    def __init__(s, *a, **kw):
        super().__init__(*a, **kw)
        s.groups = []; s.alias = {}; s.nosum = []; s.sumlog = []; s.foralls_used = 0; s.inst_depth = 2

    # ------------------------------------------------------------ entry
    def enter_loop(s, f, loop, prev, env, st, ctx):
        key = (f, len(s.stack), loop)
        for q in s.nosum:
            if q[0] is f and q[1] == len(s.stack) and q[2] is loop: return None
        st0 = st.clone(); env0 = dict(env); env0['#a'] = list(env['#a'])
        nob, nq, cov, npaths = len(s.obs), s.ob_quick, dict(s.covers), len(s.inputs)
        nd = len(s.detect); stack = list(s.stack)
        body = loop.body; hdr = loop.header
        def bctx(p, b): return b not in body
        s.detect.append(key); s.nosum.append(key)
        nn = len(s.nosum) - 1
        try:
            outs = s.run(f, hdr, prev, env, st, bctx)
            del s.detect[nd:]; del s.nosum[nn:]
            return outs
        except SymLoop as ex:
            if ex.key is not key:
                del s.detect[nd:]; del s.nosum[nn:]
                raise
        except Exception:
            del s.detect[nd:]; del s.nosum[nn:]
            raise
        del s.detect[nd:]; del s.nosum[nn:]
        s.stack[:] = stack
        del s.obs[nob:]; s.ob_quick = nq; s.covers = cov; del s.inputs[npaths:]
        try:
            CUR[0] = st0
            r = s.summarise(f, loop, prev, dict(env0, **{'#a': list(env0['#a'])}), st0.clone())
            return r
        except Unsupported as ex:
            s.stack[:] = stack
            if s.opts.get('trace_loops'): print('   loop not summarised:', demangle(f.name), hdr, ex)
            reason = str(ex)
        # fallback: unroll with path splitting up to a cap (no path may be cut)
        cap = s.opts.get('unroll', 24)
        CUR[0] = st0
        s.nosum.append(key)
        try:
            cnt = [0]
            work = [('edge', st0, env0, prev, hdr)]; res = []; it = 0
            def ictx(p, b): return b not in body or (b == hdr and p in body)
            first = True
            while work:
                it += 1
                if it > cap: raise Unsupported('loop not summarised (%s) and unroll cap reached in %s' % (reason, demangle(f.name)))
                nxt = []
                for o in work:
                    B = f.blocks[hdr]; e = o[2]; stx = o[1]; CUR[0] = stx
                    vs = [s.ev(stx, e, p.a[o[3]], p.ty) for p in B.phis]
                    for p, v in zip(B.phis, vs): e[p.dst] = v
                    for r in s.run(f, hdr, None, e, stx, ictx, idx=-1):
                        if r[0] == 'edge' and r[4] == hdr and r[3] in body: nxt.append(r)
                        else: res.append(r)
                work = nxt
            return res
        finally: del s.nosum[nn:]

    # ------------------------------------------------------------ summarisation
    def havoc_like(s, name, init, ty_n):
        """fresh value of the same shape; returns (value, z3 const ids, sym id or None)"""
        FRESH[0] += 1; nm = 'h%d_%s' % (FRESH[0], name)
        if type(init) is Ptr:
            y = new_sym(nm, 0, 1 << 40, kind='hav')
            return Ptr(init.r, Lin.sym(y)), y
        if type(init) in (int, Lin) and ty_n in (32, 64):
            y = new_sym(nm, 0, (1 << 30) if ty_n == 32 else (1 << 40), kind='hav')
            return Lin.sym(y), y
        if type(init) is FuncPtr: raise Unsupported('function pointer modified in loop')
        if isinstance(init, (bool, Rel, BLR)): return z3.Bool(nm), None
        if is_lab(init): return ENC(z3.Bool(nm)), None
        if ty_n == 8 and type(init) in (int, BVR) and boolish(init, 8) is not None: return to_bv(z3.Bool(nm), 8), None
        if type(init) is float: raise Unsupported('float modified in loop')
        return z3.BitVec(nm, ty_n), None

    def body_run(s, f, loop, env, st, k, T, atT):
        body = loop.body; hdr = loop.header
        def ictx(p, b): return b not in body or (b == hdr and p in body)
        return s.run(f, hdr, None, env, st, ictx, idx=-1)

    def summarise(s, f, loop, prev, env0, st0):
        hdr = loop.header; B = f.blocks[hdr]
        FRESH[0] += 1
        K = new_sym('k%d' % FRESH[0], 0, 1 << 40, kind='loopk'); kl = Lin.sym(K)
        init = {}; width = {}
        for p in B.phis:
            init[p.dst] = s.ev(st0, env0, p.a[prev], p.ty); width[p.dst] = p.ty.bits() if p.ty.k != 'ptr' else 64
        forms = {}           # loc -> Form ; loc = phi name or (rid, off, nb)
        for x in init: forms[x] = Form('h')
        movers = {}          # rid -> list of (off Lin in k, nb)
        arrs = {}            # rid -> dict(es, fn, ...)
        havoc_regs = set()
        ghost0 = {g: v for g, v in st0.ghost.items() if type(v) in (int, Lin)}
        T = None; stable = False; hmap = {}
        gstart = len(s.groups); fresh_start = FRESH[0]
        log = s.opts.get('trace_loops')
        recapps = {}
        arrgroup = None
        for pas in range(14):
            # -------- set up iteration k
            gcur = len(s.groups)
            st = st0.clone(); env = dict(env0); env['#a'] = list(env0['#a'])
            CUR[0] = st
            fresh_start = FRESH[0]
            if T is not None:
                try: st.assume(Rel('ge', T.add(kl, -1).add(-1)))
                except Infeasible: raise Unsupported('no iteration')
            hv = {}
            for x in list(forms):
                v, y = s.form_value(forms[x], x, init[x], width[x], kl, hv, recapps)
                if type(x) is str: env[x] = v
                else:
                    s.set_cell(st, x, v)
            for rid in havoc_regs: s.havoc_region(st, rid, kl)
            for rid, A in arrs.items(): s.install_array(st, rid, A, kl)
            for rid, ws in movers.items(): s.install_pending(st, rid, ws, kl, K)
            st.wlog = []
            npc = len(st.pc)
            conflicts = s.conflicts = set()
            s.suppress += 1
            try: outs = s.body_run(f, loop, env, st, kl, T, False)
            finally: s.suppress -= 1
            latch = [o for o in outs if o[0] == 'edge' and o[4] == hdr and o[3] in loop.body]
            exits = [o for o in outs if not (o[0] == 'edge' and o[4] == hdr and o[3] in loop.body)]
            if not latch: raise Unsupported('no path back to the loop header')
            changed = False
            # -------- discover modified locations
            for o in latch:
                for rid in list(st0.mem):
                    if st0.mem[rid].alive and rid in o[1].mem and not o[1].mem[rid].alive: raise Unsupported('loop frees an object')
                for rid, r in o[1].mem.items():
                    if rid not in st0.mem and r.alive and r.kind == 'heap': raise Unsupported('loop allocates an object that survives the iteration')
                for w in o[1].wlog or ():
                    rid = w[1]
                    if rid not in st0.mem: continue
                    for loc in s.locs(o[1], w):
                        if loc is None:
                            if rid not in arrs and rid not in havoc_regs:
                                arrs[rid] = {'es': None}; changed = True; movers.pop(rid, None)
                            continue
                        off, nb = loc
                        if rid in arrs or rid in havoc_regs: continue
                        sy = vsyms(off)
                        if K.id in sy:
                            ws = movers.setdefault(rid, [])
                            if (off.key(), nb) not in [(a.key(), b) for a, b in ws]: ws.append((off, nb)); changed = True
                        elif any(SYMS[i].kind == 'hav' for i in sy):
                            changed = True          # wait until induction variables are known
                        elif any(SYMS[i].kind == 'term' for i in sy) or isinstance(off, BVR):
                            arrs[rid] = {'es': nb}; movers.pop(rid, None); changed = True
                        else:
                            x = (rid, off.c if off.isconst() else off, nb)
                            if x not in forms:
                                # overlapping cells of different size: give up on precision
                                forms[x] = Form('h'); changed = True
                                init[x] = s.get_cell(st0, x); width[x] = nb * 8
            for rid in conflicts:
                if rid not in arrs: arrs[rid] = {'es': None}; movers.pop(rid, None); changed = True
            # arr regions absorb fixed cells
            for rid in list(arrs):
                for x in [x for x in forms if type(x) is tuple and x[0] == rid]: del forms[x]; changed = True
            for rid in arrs:
                if arrs[rid].get('fn') is None: s.prep_array(st0, rid, arrs[rid], latch, K, s.outer_params(st0)); changed = True
            if changed and pas < 2: 
                # first make sure all locations are havocked before looking at deltas
                pass
            # -------- end-of-iteration values
            ends = {}
            for x in forms:
                vs = []
                for o in latch:
                    if type(x) is str:
                        p = next(p for p in B.phis if p.dst == x)
                        vs.append(s.ev(o[1], o[2], p.a[o[3]], p.ty))
                    else: vs.append(s.get_cell(o[1], x))
                ends[x] = s.merge_vals(latch, vs, npc, width[x])
            # -------- induction variables
            ivch = False
            for x in list(forms):
                F = forms[x]
                if F.k != 'h': continue
                h = F.h; t = ends[x]
                d = s.delta(h, t, width[x])
                if d is not None:
                    if (type(d) is int and d == 0): forms[x] = Form('same')
                    else: forms[x] = Form('iv', d=d)
                    ivch = True
            if ivch: changed = True
            if T is None:
                T = s.trip_count(forms, init, latch, npc, kl, K, st0)
                if T is not None:
                    changed = True
                    lo, hi = T.rng(st0.ranges)
                    if hi <= 16 and not s.opts.get('sum_small'): raise Unsupported('small trip count')
                    nn = Rel('ge', T)
                    if not st0.entails(nn):
                        # zero-iteration case split
                        return s.split_entry(f, loop, prev, env0, st0, nn)
                    SYMS[K.id].hi = max(hi, 0)
            elif not ivch:
                # -------- last-value and recurrence forms
                hvset = {}
                for x in forms:
                    if forms[x].k == 'h': hvset[x] = s.hids(forms[x].h)
                allh = set().union(*hvset.values()) if hvset else set()
                for x in list(forms):
                    F = forms[x]
                    if F.k != 'h': continue
                    ids = vconsts(ends[x]) | set(SYMS[i].z.get_id() for i in vsyms(ends[x]) if SYMS[i].z.num_args() == 0)
                    if not (ids & allh):
                        forms[x] = Form('last', t=s.generalise(ends[x], K, fresh_start)); changed = True
                if not changed:
                    rest = [x for x in forms if forms[x].k == 'h']
                    if rest:
                        s.make_rec(rest, forms, init, width, K, st0, recapps); changed = True
                for x in forms:
                    if forms[x].k == 'last':
                        t = s.generalise(ends[x], K, fresh_start)
                        if not same(t, forms[x].t):
                            if s.valeq(latch, t, forms[x].t, width[x]): continue
                            forms[x].t = t; changed = True
            if log: print('   pass', pas, demangle(f.name)[:60], hdr, {(''.join(str(x))): (F.k, F.d) for x, F in forms.items()}, 'T=', T, 'mov', {r: len(w) for r, w in movers.items()}, 'arr', {r: a.get('es') for r, a in arrs.items()}, 'changed', changed, 'latch', len(latch))
            if not changed and T is not None: stable = True; break
            if pas > 0: del s.groups[gcur:]     # inner groups of discarded passes
            for g in list(s.alias):
                pass
        if not stable: raise Unsupported('loop summary did not stabilise')
        # drop groups created by inner loops in the last discarded pass
        inner_start = gcur
        del s.groups[inner_start:]
        # -------- final checked iteration
        st = st0.clone(); env = dict(env0); env['#a'] = list(env0['#a']); CUR[0] = st
        fresh_start = FRESH[0]
        st.assume(Rel('ge', T.add(kl, -1).add(-1)))
        hv = {}
        for x in forms:
            v, y = s.form_value(forms[x], x, init[x], width[x], kl, hv, recapps)
            if type(x) is str: env[x] = v
            else: s.set_cell(st, x, v)
        for rid in havoc_regs: s.havoc_region(st, rid, kl)
        for rid, A in arrs.items(): s.install_array(st, rid, A, kl)
        for rid, ws in movers.items(): s.install_pending(st, rid, ws, kl, K)
        st.wlog = []; npc = len(st.pc); s.conflicts = set()
        for g, v in ghost0.items(): pass
        outs = s.body_run(f, loop, env, st, kl, T, False)
        if s.conflicts: raise Unsupported('cross-iteration access appeared late')
        latch = [o for o in outs if o[0] == 'edge' and o[4] == hdr and o[3] in loop.body]
        early = [o for o in outs if not (o[0] == 'edge' and o[4] == hdr and o[3] in loop.body)]
        if not latch: raise Unsupported('no path back to the loop header')
        ends = {}
        for x in forms:
            vs = []
            for o in latch:
                if type(x) is str:
                    p = next(p for p in B.phis if p.dst == x)
                    vs.append(s.ev(o[1], o[2], p.a[o[3]], p.ty))
                else: vs.append(s.get_cell(o[1], x))
            ends[x] = s.merge_vals(latch, vs, npc, width[x])
        # modified set must be covered
        for o in latch + early:
            for w in o[1].wlog or ():
                if w[1] not in st0.mem or w[1] in arrs or w[1] in havoc_regs: continue
                for loc in s.locs(o[1], w):
                    if loc is None: raise Unsupported('late range write')
                    off, nb = loc
                    if K.id in vsyms(off):
                        if (off.key(), nb) not in [(a.key(), b) for a, b in movers.get(w[1], [])]: raise Unsupported('late moving write')
                    else:
                        if (w[1], off.c if off.isconst() else off, nb) not in forms: raise Unsupported('late cell write')
        # step checks
        k1 = {K.id: kl.add(1)}
        for x in forms:
            F = forms[x]; t = ends[x]
            if F.k in ('iv', 'same'):
                nxt = s.form_at(F, x, init[x], width[x], kl.add(1), recapps, K)
                if not s.valeq(latch, t, nxt, width[x]): raise Unsupported('induction step fails for %r' % (x,))
            elif F.k == 'last':
                F.t = s.generalise(t, K, fresh_start)
            elif F.k == 'rec':
                m = F.app
                m.step = s.generalise(s.unwrap(t, m.kind), K, fresh_start)
        # array steps
        j = None
        for rid, A in arrs.items():
            m = A['m']; jl = A['j']
            vs = []
            for o in latch:
                CUR[0] = o[1]
                s2 = o[1].clone(); CUR[0] = s2
                try:
                    s2.assume(Rel('ge', jl)); s2.assume(Rel('ge', A['n'].add(jl, -1).add(-1)))
                    r = s2.mem[rid]
                    v = arr_read(s2, r, jl.scale(A['es']), A['es'])
                except Infeasible: v = 0
                vs.append(s.unwrap(v, m.kind))
                CUR[0] = o[1]
            m.step = s.generalise(s.merge_vals(latch, vs, npc, A['es'] * 8), K, fresh_start)
        # ghosts
        gforms = {}
        for o in latch:
            for g, v in o[1].ghost.items():
                v0 = st0.ghost.get(g)
                if same(v, v0) if type(v) in (int, Lin) else v == v0: continue
                if type(v) in (int, Lin) and (v0 is None or type(v0) in (int, Lin)):
                    d = L(v).add(v0 or 0, -1)
                    if d.isconst() and gforms.get(g, d.c) == d.c: gforms[g] = d.c; continue
                if g in ('gates_and', 'gates_xor'): gforms[g] = None; continue
                raise Unsupported('ghost state %s changes in loop' % g)
        # register recurrences and try to identify them with known ones
        s.register_recs(forms, arrs, init, K, st0, inner_start)
        # movers: values as functions of k
        mv = {}
        for rid, ws in movers.items():
            mv[rid] = s.build_mover(rid, ws, latch, npc, K, kl, fresh_start, st0)
        # -------- exits
        res = []
        nocont = []
        for o in early:
            delta = [zb(c) for c in o[1].pc[npc:]]
            nocont.append(z3.And(*delta) if len(delta) > 1 else (delta[0] if delta else z3.BoolVal(True)))
        for o in early:
            s.resolve_pending(o[1], mv, kl)
            for nc in nocont: o[1].foralls.append((K, kl, z3.Not(nc)))
            o[1].wlog = None if st0.wlog is None else list(st0.wlog) + (o[1].wlog or [])
            if st0.wlog is not None:
                for rid in set(list(mv) + list(arrs)): o[1].wlog.append(('all', rid))
                for x in forms:
                    if type(x) is tuple: o[1].wlog.append(('w', x[0], L(x[1]), x[2], None))
            res.append(o)
        # main exit at k = T
        st = st0.clone(); env = dict(env0); env['#a'] = list(env0['#a']); CUR[0] = st
        for x in forms:
            v = s.form_at(forms[x], x, init[x], width[x], T, recapps, K)
            if type(x) is str: env[x] = v
            else: s.set_cell(st, x, v)
        for rid in havoc_regs: s.havoc_region(st, rid, T)
        for rid, A in arrs.items(): s.install_array(st, rid, A, T)
        for rid, M in mv.items():
            r = st.wreg(rid); to_layers(st, r)
            for ly in s.mover_layers(M, T): r.layers.append(ly)
        for g, d in gforms.items():
            v0 = st0.ghost.get(g) or 0
            st.ghost[g] = canon(L(v0).add(T.scale(d)), 64) if d is not None else 0
        for nc in nocont: st.foralls.append((K, T, z3.Not(nc)))
        if st.wlog is not None:
            for rid in set(list(mv) + list(arrs)): st.wlog.append(('all', rid))
            for x in forms:
                if type(x) is tuple: st.wlog.append(('w', x[0], L(x[1]), x[2], None))
        outs = s.body_run(f, loop, env, st, T, T, True)
        for o in outs:
            if o[0] == 'edge' and o[4] == hdr and o[3] in loop.body:
                if o[1].feasible(True) and o[1].check(True, 5000, full=True) != 'unsat': raise Unsupported('trip count is not exact')
                continue
            res.append(o)
        s.sumlog.append((demangle(f.name), hdr, {'T': repr(T), 'forms': [F.k for F in forms.values()], 'movers': len(mv), 'arrays': len(arrs)}))
        if log: print('   SUMMARISED', demangle(f.name)[:70], hdr, 'T=', T, [F.k for F in forms.values()], 'mov', len(mv), 'arr', len(arrs), 'exits', len(res))
        return res

    # ------------------------------------------------------------ pieces
    def outer_params(s, st0):
        return []
    def split_entry(s, f, loop, prev, env0, st0, nn):
        res = []
        a = st0.clone(); b = st0.clone()
        def go(stx):
            CUR[0] = stx
            e = dict(env0); e['#a'] = list(env0['#a'])
            r = s.enter_loop(f, loop, prev, e, stx, None)
            return r
        try:
            a.assume(nn); res += go(a)
        except Infeasible: pass
        try:
            b.assume(znot(nn))
            res += go(b)
        except Infeasible: pass
        return res

    def form_value(s, F, x, init, w, kl, hv, recapps):
        if F.k == 'h':
            nm = x if type(x) is str else 'm%d' % x[0]
            v, y = s.havoc_like(''.join(c for c in nm if c.isalnum()), init, w)
            F.h = v
            return v, y
        return s.form_at(F, x, init, w, kl, recapps, None), None
    def form_at(s, F, x, init, w, k, recapps, K):
        if F.k == 'same': return init
        if F.k == 'iv':
            d = F.d
            if type(init) is Ptr:
                return Ptr(init.r, canon(L(off_lin(init.o)).add(k.scale(d)), 64))
            if type(init) in (int, Lin):
                i0 = L(sgn(init, w) if type(init) is int else init)
                return canon(i0.add(k.scale(d)), w)
            kz = to_bv(k, w)
            return init + kz * z3.BitVecVal(d, w)
        if F.k == 'last':
            km = L(k)
            if km.isconst() and km.c == 0: return init
            ks = F.app
            v = vsubst(F.t, {s.lastK(F): km.add(-1)}) if s.lastK(F) is not None else F.t
            pos = Rel('ge', km.add(-1))
            st = CUR[0]
            if st is not None and st.quick(pos) is True: return v
            if same(v, init): return v
            if type(v) is Ptr or type(init) is Ptr:
                if type(v) is Ptr and type(init) is Ptr and v.r == init.r and type(v.o) in (int, Lin):
                    # pointer that follows iteration: keep only when k>0 is known
                    pass
                return PoisonPtr if not (type(v) is Ptr and type(init) is Ptr and same(v, init)) else v
            if isinstance(v, (bool, BLR, Rel)): return bite(pos, v, init)
            if is_lab(v) and (is_lab(init)): return ENC(zb(bite(pos, v.arg(0), init.arg(0))))
            if is_lab(v): return v            # init uninitialised: only meaningful when k>0
            if type(v) is float or type(init) is float: raise Unsupported('float in loop')
            return ite(pos, v, raw(CUR[0], init, w // 8), w)
        if F.k == 'rec':
            return s.wrap(s.app_at(F.app, k), F.app.kind)
        raise Exception(F.k)
    def lastK(s, F): return F.d
    def generalise(s, t, K, fresh_start):
        """fresh constants created inside the iteration become functions of k"""
        if not isinstance(t, z3.ExprRef): return t
        pairs = []
        seen = set(); stk = [t]
        while stk:
            x = stk.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if x.num_args() == 0:
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    nm = x.decl().name()
                    if '!!' in nm:
                        n = int(nm.rsplit('!!', 1)[1])
                        if n > fresh_start:
                            pairs.append((x, z3.Function(nm + '_k', BV64, x.sort())(K.z)))
            else: stk.extend(x.children())
        return z3.substitute(t, *pairs) if pairs else t
    def hids(s, v):
        r = set(vconsts(v))
        return r
    def delta(s, h, t, w):
        if type(h) is Ptr:
            if type(t) is not Ptr or t.r != h.r or type(t.o) not in (int, Lin): return None
            d = L(t.o).add(h.o, -1)
            return d.c if d.isconst() else None
        if type(h) is Lin:
            if type(t) not in (int, Lin): return None
            d = L(t).add(h, -1)
            return d.c if d.isconst() else None
        if isinstance(h, BLR) or is_lab(h):
            return 0 if isinstance(t, z3.ExprRef) and t.eq(h) else None
        if isinstance(h, BVR) and isinstance(t, BVR):
            if t.eq(h): return 0
            if w in (8, 16, 32, 64):
                d = z3.simplify(t - h)
                if z3.is_bv_value(d): return d.as_signed_long()
        return None
    def trip_count(s, forms, init, latch, npc, kl, K, st0):
        """number of times the back edge is taken, from the conditions on the latch paths"""
        hs = {}
        for x, F in forms.items():
            if F.k == 'iv' and F.h is not None:
                h = F.h.o if type(F.h) is Ptr else F.h
                if type(h) is Lin and len(h.t) == 1:
                    i0 = init[x].o if type(init[x]) is Ptr else init[x]
                    if type(i0) is int: i0 = Lin((), sgn(i0, width_of(i0, 64)))
                    if type(i0) is Lin: hs[h.t[0][0]] = i0.add(kl.scale(F.d))
        best = None
        conds = None
        for o in latch:
            cs = set()
            for c in o[1].pc[npc:]:
                if type(c) is Rel and any(i in hs for i, _ in c.l.t): cs.add((c.k, c.l))
            conds = cs if conds is None else conds & cs
        for kd, l in sorted(conds or (), key=lambda c: repr(c)):
            l2 = l.subst(hs)
            if any(SYMS[i].kind == 'hav' for i in vsyms(l2)): continue
            b = dict(l2.t).get(K.id)
            if b is None: continue
            a = l2.add(kl, -b)
            if K.id in vsyms(a): continue
            if kd == 'ge' and b < 0:
                return quo(a, -b).add(1)
            if kd == 'ne':
                if b > 0: a = a.scale(-1); bb = b
                else: bb = -b
                # a - bb*k != 0  -> T = a/bb
                if all(c % bb == 0 for _, c in a.t) and a.c % bb == 0: return quo(a, bb)
        return None
    def merge_vals(s, latch, vs, npc, w):
        v = vs[-1]
        for o, x in reversed(list(zip(latch[:-1], vs[:-1]))):
            if same(x, v): continue
            if type(x) is Ptr or type(v) is Ptr: raise Unsupported('pointer differs between paths of the loop body')
            delta = [zb(c) for c in o[1].pc[npc:]]
            c = z3.And(*delta) if delta else True
            if isinstance(x, (bool, BLR, Rel)): v = bite(c, x, v)
            elif is_lab(x) and is_lab(v): v = ENC(z3.If(c, x.arg(0), v.arg(0)))
            else: v = ite(c, x, v, w)
        return v
    def valeq(s, latch, a, b, w):
        if same(a, b): return True
        if type(a) is Ptr or type(b) is Ptr: 
            if type(a) is Ptr and type(b) is Ptr and a.r == b.r: return all(o[1].entails(Rel('eq', L(off_lin(a.o)).add(off_lin(b.o), -1))) for o in latch)
            return False
        if isinstance(a, (bool, BLR, Rel)): c = znot(bxor(a, b))
        elif type(a) is Lin and type(b) is Lin: c = Rel('eq', a.add(b, -1))
        else:
            c = op_icmp('eq', raw(None, a, w // 8), raw(None, b, w // 8), w)
        if c is True: return True
        if c is False: return False
        return all(o[1].entails(c, 10000) for o in latch)
    def locs(s, st, w):
        """locations of a write-log entry: (offset Lin, nb), or None for 'unbounded range'"""
        if w[0] == 'w': return [(L(w[2]) if not isinstance(w[2], BVR) else term_lin(w[2]), w[3])]
        if w[0] == 'all': return [None]
        if w[0] == 'c':
            r = st.mem.get(w[1])
            if r is None or r.layers is not None: return [None]
            return [(Lin((), o), c[0]) for o, c in r.cells.items() if w[2] <= o < w[2] + w[3]]
        if w[0] == 'r':
            n = w[3]
            if n.isconst() and n.c <= 256:
                p = 16 if n.c % 16 == 0 else 8 if n.c % 8 == 0 else 1
                return [(w[2].add(o), p) for o in range(0, n.c, p)]
            return [None]
        raise Exception(w[0])
    def get_cell(s, st, x):
        rid, off, nb = x
        r = st.mem[rid]
        if r.layers is None and type(off) is int: return cells_read(st, r, off, nb)
        if r.layers is None: return base_cells(st, r, off, nb)
        return arr_read(st, r, off, nb)
    def set_cell(s, st, x, v):
        rid, off, nb = x
        r = st.wreg(rid)
        if isinstance(v, (BLR, Rel, bool)): v = from_bool(v, nb * 8)
        if r.layers is None and type(off) is int: cells_write(st, r, off, nb, v)
        else:
            to_layers(st, r); push_layer(st, r, Layer('w', L(off), nb, v))
    def havoc_region(s, st, rid, k): raise Unsupported('region havoc')

    # --- movers
    def install_pending(s, st, rid, ws, kl, K):
        r = st.wreg(rid); to_layers(st, r)
        FRESH[0] += 1
        kp = new_sym('kp%d' % FRESH[0], 0, 1 << 40, kind='loopk'); kpl = Lin.sym(kp)
        eng = s
        def fn(st2, r2, off, nb, i):
            s3 = st2.clone()
            try: s3.assume(Rel('ge', kl.add(kpl, -1).add(-1)))
            except Infeasible: return None
            for o, n in ws:
                ok = o.subst({K.id: kpl})
                d = off.add(ok, -1)
                if s3.entails(Rel('ge', d.add(-n))) or s3.entails(Rel('ge', d.scale(-1).add(-nb))): continue
                # never overlapping by stride arithmetic?
                c = z3.And(zb(znot(Rel('ge', d.add(-n)))), zb(znot(Rel('ge', d.scale(-1).add(-nb)))))
                if s3.check(c, 4000) == 'unsat': continue
                eng.conflicts.add(r2.id)
                return z3.BitVec('conflict_r%d_%d' % (r2.id, nb), nb * 8)
            return None
        r.layers.append(Layer('p', fn=fn, extra=rid))
    def build_mover(s, rid, ws, latch, npc, K, kl, fresh_start, st0):
        """list of (off(k), nb, value(k), cond(k))"""
        out = []
        for off, nb in ws:
            vs = []; conds = []
            for o in latch:
                CUR[0] = o[1]
                wrote = any((w[0] == 'w' and w[1] == rid and L(w[2]).key() == off.key() and w[3] == nb) or (w[0] == 'r' and w[1] == rid) for w in o[1].wlog)
                r = o[1].mem[rid]
                vs.append(arr_read(o[1], r, off, nb)); conds.append(wrote)
            if all(conds): v = s.merge_vals(latch, vs, npc, nb * 8)
            else:
                v = s.merge_vals(latch, vs, npc, nb * 8)     # unwritten paths read the old content: same effect
            if type(v) is Ptr: raise Unsupported('array of pointers written in loop')
            v = s.generalise(v, K, fresh_start)
            c = dict(off.t).get(K.id, 0)
            rest = off.add(kl, -c)
            if K.id in vsyms(rest) or c == 0: raise Unsupported('non-linear moving write')
            out.append((rest, c, nb, v))
        cs = set(c for _, c, _, _ in out)
        if len(cs) != 1: raise Unsupported('different strides')
        return {'rid': rid, 'ws': out, 'K': K, 'c': out[0][1]}
    def mover_layers(s, M, count):
        """layers describing the writes of iterations 0..count-1"""
        c = M['c']; ws = M['ws']; K = M['K']
        count = L(count)
        base = ws[0][0]
        rel = []
        for b, _, nb, v in ws:
            d = b.add(base, -1)
            if not d.isconst(): raise Unsupported('symbolic distance between writes')
            rel.append((d.c, nb, v))
        lo = min(o for o, _, _ in rel); base = base.add(lo); rel = [(o - lo, nb, v) for o, nb, v in rel]
        ac = abs(c)
        span = max(o + nb for o, nb, _ in rel)
        if span > ac: raise Unsupported('iterations overlap')
        cover = sum(nb for _, nb, _ in rel)
        # later writes of the same iteration win; reject overlaps inside the iteration
        iv = sorted((o, o + nb) for o, nb, _ in rel)
        if any(iv[i][1] > iv[i+1][0] for i in range(len(iv) - 1)): raise Unsupported('overlapping writes in iteration')
        def val_at(v, k): return vsubst(v, {K.id: k})
        if cover == ac:
            start = base if c > 0 else base.add(count.add(-1), c)
            length = count.scale(ac)
            def fn(st, r, nb):
                r = L(r)
                q = quo(r, ac); rem = r.add(q, -ac)
                k = q if c > 0 else count.add(-1).add(q, -1)
                if rem.isconst():
                    for o, n, v in rel:
                        if o <= rem.c and rem.c + nb <= o + n:
                            return cell_extract(st, val_at(v, k), n, rem.c - o, nb)
                    if nb == 1: raise Unsupported('mover read')
                    parts = []; h = nb // 2
                    for o in range(0, nb, h): parts.append((raw(st, fn(st, r.add(o), h), h), h * 8))
                    parts.reverse(); return concat(parts)
                # symbolic remainder
                g = nb
                if not all(cc % nb == 0 for _, cc in r.t) or r.c % nb:
                    if nb == 1: pass
                    else:
                        parts = [(raw(st, fn(st, r.add(o), 1), 1), 8) for o in range(nb)]; parts.reverse(); return concat(parts)
                res = None
                for o, n, v in rel:
                    vv = val_at(v, k)
                    for z in range(0, n - nb + 1, nb):
                        e = raw(st, cell_extract(st, vv, n, z, nb), nb)
                        res = e if res is None else ite(Rel('eq', rem.add(-(o + z))), e, res, nb * 8)
                return res
            return [Layer('r', start, length, fn=fn)]
        # sparse: one pending-style layer
        def pfn(st, r, off, nb, i):
            for o, n, v in rel:
                d = off.add(base, -1).add(-o)
                # off inside [base+o+c*k, +n) for some k in [0,count)
                if c < 0: q = quo(d.scale(-1).add(n - 1), ac); rem = d.add(q, ac)
                else: q = quo(d, ac); rem = d.add(q, -ac)
                inside = [Rel('ge', q), Rel('ge', count.add(q, -1).add(-1)), Rel('ge', rem), Rel('ge', rem.scale(-1).add(n - nb))]
                qs = [st.entails(x) for x in inside]
                if all(qs):
                    vv = val_at(v, q)
                    if rem.isconst(): return cell_extract(st, vv, n, rem.c, nb)
                    if nb == n: return vv
                    res = None
                    for z in range(0, n - nb + 1):
                        e = raw(st, cell_extract(st, vv, n, z, nb), nb)
                        res = e if res is None else ite(Rel('eq', rem.add(-z)), e, res, nb * 8)
                    return res
                if any(st.entails(znot(x)) for x in inside[:3]): 
                    # entirely outside (reads do not straddle when aligned)
                    continue
                cnd = z3.And(*[zb(x) for x in inside])
                if st.check(cnd, 4000) == 'unsat': continue
                if nb > n:
                    p = [(raw(st, arr_read(st, r, off.add(z), n, i), n), n * 8) for z in range(0, nb, n)]; p.reverse(); return concat(p)
                rest = lambda: arr_read(st, r, off, nb, i - 1)
                if nb == n: vv = val_at(v, q)
                else:
                    vv0 = val_at(v, q); vv = None
                    for z in range(0, n - nb + 1):
                        e = raw(st, cell_extract(st, vv0, n, z, nb), nb)
                        vv = e if vv is None else ite(Rel('eq', rem.add(-z)), e, vv, nb * 8)
                return merge(st, cnd, vv, rest, nb)
            return None
        return [Layer('p', fn=pfn, extra=None)]
    def resolve_pending(s, st, mv, count):
        for rid, M in mv.items():
            r = st.wreg(rid)
            new = []
            for ly in r.layers:
                if ly.k == 'p' and ly.extra == rid: new += s.mover_layers(M, count)
                else: new.append(ly)
            r.layers = new

    # --- recurrences
    def unwrap(s, v, kind):
        if kind == 'lab':
            if is_lab(v): return v.arg(0)
            if isinstance(v, BVR) and v.decl().kind() == ITE: return z3.If(v.arg(0), s.unwrap(v.arg(1), kind), s.unwrap(v.arg(2), kind))
            if isinstance(v, BVR):
                v2 = z3.simplify(v)
                if is_lab(v2): return v2.arg(0)
            raise Unsupported('non-wire value in wire recurrence')
        if kind == 'bool': return zb(v)
        if kind == 'bool8':
            b = boolish(v, 8)
            if b is None: raise Unsupported('non-boolean value in boolean recurrence')
            return zb(b)
        return to_bv(v, int(kind[2:]))
    def wrap(s, z, kind):
        if kind == 'lab': return ENC(z)
        if kind == 'bool': return z
        if kind == 'bool8': return to_bv(z, 8)
        return z
    def kind_of(s, v, w):
        if is_lab(v): return 'lab', z3.BoolSort()
        if isinstance(v, (bool, Rel, BLR)): return 'bool', z3.BoolSort()
        if w == 8 and type(v) is not Lin and boolish(v, 8) is not None: return 'bool8', z3.BoolSort()
        if type(v) in (int, Lin) or isinstance(v, BVR): return 'bv%d' % w, z3.BitVecSort(w)
        raise Unsupported('recurrence over %r' % type(v))
    def loop_params(s, *vs):
        ids = set()
        for v in vs: ids |= set(i for i in vsyms(v) if SYMS[i].kind == 'loopk')
        return ids
    def active_params(s, st0, K):
        """ghost counters of enclosing loops: they occur in the path condition"""
        ids = set()
        for c in st0.pc: ids |= set(i for i in vsyms(c) if SYMS[i].kind == 'loopk')
        ids.discard(K.id)
        return sorted(ids)
    def app_at(s, m, k, j=None):
        ps = [SYMS[i].z for i in m.group.params]
        a = [L(k).bv64()] + ps
        if j is not None: a.append(L(j).bv64())
        return m.fn(*a)
    def make_rec(s, rest, forms, init, width, K, st0, recapps):
        g = RecGroup(); g.k = K; g.params = s.active_params(st0, K); g.eng = s
        s.groups_tmp = g
        for x in rest:
            m = RecMember(); m.group = g; m.idx = None
            kind, sort = s.kind_of(forms[x].h if not isinstance(forms[x].h, Lin) else init[x], width[x])
            m.kind = kind; m.sort = sort
            FRESH[0] += 1
            m.fn = z3.Function('rec%d' % FRESH[0], *([BV64] * (1 + len(g.params)) + [sort]))
            m.init = s.unwrap(init[x] if init[x] is not None else 0, kind) if kind != 'lab' or is_lab(init[x]) else z3.BoolVal(False)
            m.step = None
            forms[x] = Form('rec', app=m); g.members.append(m)
    def prep_array(s, st0, rid, A, latch, K, params):
        r0 = st0.mem[rid]
        es = A.get('es')
        if es is None:
            ns = set()
            for o in latch:
                for w in o[1].wlog:
                    if w[1] == rid:
                        if w[0] == 'w': ns.add(w[3])
                        elif w[0] == 'r': ns.add(-1)
            es = max([n for n in ns if n > 0] or [16])
            A['es'] = es
        size = L(r0.size)
        if not (all(c % es == 0 for _, c in size.t) and size.c % es == 0): 
            raise Unsupported('array element size')
        A['n'] = quo(size, es)
        FRESH[0] += 1
        jy = new_sym('ix%d' % FRESH[0], 0, max(A['n'].rng()[1], 0), kind='loopk'); A['j'] = Lin.sym(jy)
        st = st0.clone(); CUR[0] = st
        st.assume(Rel('ge', A['n'].add(A['j'], -1).add(-1)))
        if r0.layers is None:
            rr = st.wreg(rid); to_layers(st, rr); r0 = rr
        v0 = arr_read(st, r0, A['j'].scale(es), es)
        # element kind from what is written
        kinds = []
        for o in latch:
            for w in o[1].wlog:
                if w[1] == rid and w[0] == 'w' and w[4] is not None: kinds.append(w[4])
                if w[1] == rid and w[0] == 'r':
                    CUR[0] = o[1]
                    try: kinds.append(w[4](o[1], Lin((), 0), es))
                    except Exception: pass
        lab = is_lab(v0) or any(is_lab(x) for x in kinds)
        m = RecMember(); g = RecGroup(); g.k = K; g.params = s.active_params(st0, K); m.group = g; m.idx = A['j']
        if lab: m.kind, m.sort = 'lab', z3.BoolSort()
        elif es == 1 and boolish(v0, 8) is not None and all(type(x) is not Lin and boolish(x, 8) is not None for x in kinds): m.kind, m.sort = 'bool8', z3.BoolSort()
        else: m.kind, m.sort = 'bv%d' % (es * 8), z3.BitVecSort(es * 8)
        m.fn = z3.Function('arr%d' % FRESH[0], *([BV64] * (2 + len(g.params)) + [m.sort]))
        if m.kind == 'lab':
            try: m.init = s.unwrap(v0, 'lab')
            except Unsupported: m.init = z3.Function('junk%d' % FRESH[0], BV64, z3.BoolSort())(A['j'].bv64())
        else:
            try: m.init = s.unwrap(raw(st, v0, es), m.kind)
            except Unsupported: raise
        m.step = None; g.members.append(m)
        A['m'] = m; A['fn'] = m.fn
        CUR[0] = st0
    def install_array(s, st, rid, A, k):
        es = A['es']; m = A['m']; kz = L(k)
        def elem(j): return s.wrap(s.app_at(m, kz, j), m.kind)
        def fn(st2, off, nb):
            off = L(off)
            if nb == es and all(c % es == 0 for _, c in off.t) and off.c % es == 0: return elem(quo(off, es))
            if nb < es:
                q = quo(off, es); rem = off.add(q, -es)
                if rem.isconst() and rem.c + nb <= es: return cell_extract(st2, elem(q), es, rem.c, nb)
            if nb > es and nb % es == 0 and all(c % es == 0 for _, c in off.t) and off.c % es == 0:
                parts = [(raw(st2, elem(quo(off.add(o), es)), es), es * 8) for o in range(0, nb, es)]; parts.reverse(); return concat(parts)
            raise Unsupported('array recurrence read')
        r = st.wreg(rid); r.cells = {}; r.layers = [Layer('b', fn=fn)]
    def register_recs(s, forms, arrs, init, K, st0, inner_start):
        gs = []
        g = None
        for x, F in forms.items():
            if F.k == 'rec': g = F.app.group
        ms = [F.app for F in forms.values() if F.k == 'rec'] + [A['m'] for A in arrs.values()]
        if not ms: return
        G = RecGroup(); G.k = K; G.params = s.active_params(st0, K); G.members = ms; G.facts = [zb(c) for c in st0.pc]
        for m in ms: m.group = G
        inner = s.groups[inner_start:]
        M = s.match(G, inner)
        s.groups.append(G)
        if M: s.alias.update(M)
    # --- matching recurrences
    def canon_fn(s, t, extra=None):
        mp = dict(s.alias)
        if extra: mp.update(extra)
        if not mp: return t
        for _ in range(4):
            ps = []
            used = funs_in(t)
            for (f, g, ar) in mp.values():
                if f.name() in used:
                    vs = [z3.Var(i, f.domain(i)) for i in range(f.arity())]
                    ps.append((f, g(*vs)))
            if not ps: return t
            t = z3.substitute_funs(t, *ps)
        return t
    def all_members(s, upto=None):
        for g in s.groups:
            for m in g.members:
                if m.fn.name() not in s.alias: yield m
    def match(s, G, inner):
        """try to identify every member of G (and then of the inner groups) with known recurrences; returns alias dict or None"""
        t0 = time.time()
        innerset = set(id(m) for g in inner for m in g.members)
        cands = []
        for m in G.members:
            if m.step is None: return None
            cl = []
            for c in s.all_members():
                if id(c) in innerset or c.group is G: continue
                if not c.fn.range().eq(m.fn.range()) or c.fn.arity() != m.fn.arity() or (c.idx is None) != (m.idx is None): continue
                if s.rec_eq_init(m, c): cl.append(c)
            cands.append(cl[-6:])
        import itertools
        n = 0
        for combo in itertools.product(*cands) if all(cands) else ():
            n += 1
            if n > 24 or time.time() - t0 > 60: break
            M = {m.fn.name(): (m.fn, c.fn, m.fn.arity()) for m, c in zip(G.members, combo)}
            ok = True
            # inner groups under the hypothesis
            for g in inner:
                M2 = s.match_under(g, M, innerset)
                if M2: M.update(M2)
            for m, c in zip(G.members, combo):
                if not s.rec_eq_step(m, c, M): ok = False; break
            if ok:
                for m, c in zip(G.members, combo):
                    s.obs.append(Obligation('recurrences %s and %s agree (induction base and step)' % (m.fn.name(), c.fn.name()), 'lemma', 'z3', time.time() - t0))
                return M
        # partial: members individually
        M = {}
        if len(G.members) > 1:
            for m, cl in zip(G.members, cands):
                for c in cl:
                    M1 = {m.fn.name(): (m.fn, c.fn, m.fn.arity())}
                    if s.rec_eq_step(m, c, M1):
                        M.update(M1); s.obs.append(Obligation('recurrences %s and %s agree' % (m.fn.name(), c.fn.name()), 'lemma', 'z3', 0)); break
        return M or None
    def match_under(s, g, M, innerset):
        import itertools
        cands = []
        for m in g.members:
            if m.fn.name() in M or m.fn.name() in s.alias: return None
            cl = []
            for c in s.all_members():
                if id(c) in innerset: continue
                if not c.fn.range().eq(m.fn.range()) or c.fn.arity() != m.fn.arity() or (c.idx is None) != (m.idx is None): continue
                if s.rec_eq_init(m, c, M): cl.append(c)
            cands.append(cl[-6:])
        if not all(cands): return None
        n = 0
        for combo in itertools.product(*cands):
            n += 1
            if n > 24: break
            M2 = dict(M); M2.update({m.fn.name(): (m.fn, c.fn, m.fn.arity()) for m, c in zip(g.members, combo)})
            if all(s.rec_eq_step(m, c, M2) for m, c in zip(g.members, combo)): return {k: v for k, v in M2.items() if k not in M}
        return None
    def par_pairs(s, m, c):
        """instantiate c's bound symbols with m's"""
        mp = {}
        for i, j in zip(c.group.params, m.group.params): mp[i] = Lin(((j, 1),), 0)
        mp[c.group.k.id] = Lin(((m.group.k.id, 1),), 0)
        if c.idx is not None: mp[c.idx.t[0][0]] = m.idx
        return {i: l for i, l in mp.items() if l.key() != (((i, 1),), 0)}
    def rec_eq_init(s, m, c, M=None):
        b = s.canon_fn(vsubst(c.init, s.par_pairs(m, c)), M); a = s.canon_fn(m.init, M)
        if isinstance(a, int) or isinstance(b, int): a = to_bv(a, m.sort.size()); b = to_bv(b, m.sort.size())
        if a.eq(b): return True
        return s.prove_closed(a == b, m)
    def rec_eq_step(s, m, c, M):
        b = s.canon_fn(vsubst(c.step, s.par_pairs(m, c)), M); a = s.canon_fn(m.step, M)
        if isinstance(a, (int, bool)) or isinstance(b, (int, bool)):
            if z3.is_bool(m.init): a = zb(a); b = zb(b)
            else: a = to_bv(a, m.sort.size()); b = to_bv(b, m.sort.size())
        if a.eq(b): return True
        return s.prove_closed(a == b, m)
    def prove_closed(s, goal, m):
        sv = z3.Solver(); sv.set('timeout', 8000)
        ids = free_syms(goal)
        facts = getattr(m.group, 'facts', [])
        for f in facts:
            sv.add(f); ids = ids | free_syms(f)
        ax, _ = sym_axioms(ids)
        for a in ax: sv.add(a)
        sv.add(z3.Not(goal))
        t = time.time(); r = sv.check()
        STATS['queries'] += 1; STATS['solver_s'] += time.time() - t
        return r == z3.unsat

    # ------------------------------------------------------------ obligations with recurrences and quantified facts
    def oblige(s, st, c, name, kind='assert'):
        if s.suppress or c is True or st.quick(c) is True or (not s.alias and not s.groups and not st.foralls):
            return super().oblige(st, c, name, kind)
        t0 = time.time()
        goal = s.canon_fn(zb(znot(c)))
        base = [s.canon_fn(x) for x in st.zpc()]
        inst = []
        for (K, bound, body) in st.foralls:
            idxs = list(st.instidx) + s.extra_idx(st)
            for e in idxs:
                r1 = Rel('ge', L(e)); r2 = Rel('ge', L(bound).add(e, -1).add(-1))
                inst.append(s.canon_fn(z3.Implies(z3.And(zb(r1.z()), zb(r2.z())), subst_z(body, {K.id: L(e)}))))
        seen = {}
        for depth in range(0, s.inst_depth + 1):
            cs = base + inst
            ax = []
            frontier = [goal] + cs
            for d in range(depth):
                new = []
                for t in frontier:
                    for app in rec_apps(t, s):
                        if app.get_id() in seen: continue
                        u = s.unfold(app)
                        if u is not None: seen[app.get_id()] = (app, u); new.append(u)
                frontier = new
            ax = [u for _, u in seen.values()]
            ids = set()
            for t in [goal] + cs + ax: ids |= free_syms(t)
            sx, _ = sym_axioms(ids)
            sv = z3.Solver(); sv.set('timeout', s.ob_timeout if depth == s.inst_depth else s.ob_timeout // 4)
            for t in cs + ax + sx: sv.add(t)
            sv.add(goal)
            t1 = time.time(); r = sv.check(); STATS['queries'] += 1; STATS['solver_s'] += time.time() - t1
            if r == z3.unsat:
                s.obs.append(Obligation(name, kind, 'z3' if depth == 0 else 'z3+induction', time.time() - t0)); st.assume(c); return
            if r == z3.sat and depth == s.inst_depth:
                st.approx = True
                raise Violation(kind, name + s.where(), sv.model(), st)
        s.undecided.append(name)
        raise Unsupported('solver could not decide: ' + name + s.where())
    def extra_idx(s, st): return []
    def unfold(s, app):
        m = s.fnmap().get(app.decl().name())
        if m is None or m.step is None: return None
        a = app.children(); e = a[0]; ps = a[1:1 + len(m.group.params)]
        pairs = [(SYMS[i].z, p) for i, p in zip(m.group.params, ps)]
        em1 = z3.simplify(e - 1)
        if m.idx is not None: pairs.append((m.idx.bv64(), a[-1]))
        st = zsub2(m.step, pairs + [(m.group.k.z, em1)], m.group.k.id, em1)
        it = zsub2(m.init, pairs, None, None)
        return s.canon_fn(app == z3.If(e == 0, it, st))
    def fnmap(s):
        d = {}
        for g in s.groups:
            for m in g.members: d[m.fn.name()] = m
        return d
def zsub2(t, pairs, kid, em1):
    if not isinstance(t, z3.ExprRef): return t
    if kid is not None:
        # definitional symbols depending on k (quotients) must be re-derived
        dep = [j for j in free_syms(t) if SYMS[j].kind in ('quo', 'prod') and kid in vsyms(Lin(((j, 1),), 0))]
        if dep:
            l = term_lin(em1) if not z3.is_bv_value(em1) else Lin((), em1.as_long())
            t = subst_z(t, {kid: l})
    return z3.substitute(t, *pairs) if pairs else t
_fun_cache = {}
def funs_in(t):
    k = t.get_id(); r = _fun_cache.get(k)
    if r is not None: return r[1]
    out = set(); seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) or z3.is_var(x): continue
        if x.num_args():
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED: out.add(d.name())
            st.extend(x.children())
    _fun_cache[k] = (t, out)
    return out
def rec_apps(t, eng):
    fm = eng.fnmap(); out = []; seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.num_args():
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in fm: out.append(x)
            st.extend(x.children())
    return out
PoisonPtr = NULL
def width_of(i, w): return w
