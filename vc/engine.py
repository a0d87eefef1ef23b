"""Path-splitting symbolic executor / VC generator over LLVM IR."""
import z3, time, re, sys, subprocess
sys.setrecursionlimit(20000)
from vals import *
from mem import *
import mem, vals, ir, xnf
from ir import GRef, CExpr, CAgg, Zero, Undef, I, PTR

class SymLoop(Exception):
    def __init__(s, key): s.key = key
class Outcomes:
    def __init__(s, l): s.l = l          # list of (state, value)
class Dead(Exception):
    """path ends (assumption false, allowed exit)"""

class Obligation:
    __slots__ = ('name', 'kind', 'how', 't')
    def __init__(s, name, kind, how, t): s.name = name; s.kind = kind; s.how = how; s.t = t

class LoopInfo:
    __slots__ = ('header', 'body', 'exits', 'id')

def find_loops(f):
    if f.loops is not None: return f.loops
    blocks = f.blocks
    # reverse postorder
    order = []; seen = set()
    st = [(f.entry, iter(blocks[f.entry].succ))]; seen.add(f.entry)
    while st:
        n, it = st[-1]
        for x in it:
            if x not in seen:
                seen.add(x); st.append((x, iter(blocks[x].succ))); break
        else:
            order.append(n); st.pop()
    order.reverse(); idx = {n: i for i, n in enumerate(order)}
    preds = {n: [] for n in order}
    for n in order:
        for x in blocks[n].succ: preds[x].append(n)
    idom = {f.entry: f.entry}; ch = True
    def inter(a, b):
        while a != b:
            while idx[a] > idx[b]: a = idom[a]
            while idx[b] > idx[a]: b = idom[b]
        return a
    while ch:
        ch = False
        for n in order[1:]:
            ps = [p for p in preds[n] if p in idom]
            d = ps[0]
            for p in ps[1:]: d = inter(p, d)
            if idom.get(n) != d: idom[n] = d; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == f.entry: return False
            b = idom[b]
    loops = {}
    for n in order:
        for x in blocks[n].succ:
            if dom(x, n):
                l = loops.get(x)
                if l is None:
                    l = LoopInfo(); l.header = x; l.body = {x}; loops[x] = l; l.id = (f.name, x)
                stk = [n]
                while stk:
                    y = stk.pop()
                    if y in l.body: continue
                    l.body.add(y); stk.extend(preds[y])
    for l in loops.values():
        l.exits = set((a, b) for a in l.body for b in blocks[a].succ if b not in l.body)
    f.loops = loops
    return loops

ENC = z3.Function('enc', z3.BoolSort(), z3.BitVecSort(128))
_lab_cache = {}
def has_label(t):
    k = t.get_id(); r = _lab_cache.get(k)
    if r is not None: return r[1]
    st = [t]; seen = set(); res = False
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        c = _lab_cache.get(i)
        if c is not None:
            if c[1]: res = True; break
            continue
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_var(x): continue
        n = x.num_args()
        if n:
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() in LABELFNS: res = True; break
            st.extend(x.children())
    _lab_cache[k] = (t, res)
    if not res:
        for i in seen: _lab_cache.setdefault(i, (t, False))
    return res
LABELFNS = {'enc'}

def ipdom(f):
    r = getattr(f, '_ipdom', None)
    if r is not None: return r
    find_loops(f)
    blocks = f.blocks; preds = {}; X = '#exit'
    succ = {}
    def abort(b): return blocks[b].ins and blocks[b].ins[-1].op in ('unreachable', 'resume')
    for b in blocks:
        if abort(b): continue
        succ[b] = [x for x in blocks[b].succ if not abort(x)] or ([X] if blocks[b].ins[-1].op == 'ret' else [])
    succ[X] = []
    for b in succ:
        for x in succ[b]: preds.setdefault(x, []).append(b)
    order = []; seen = {X}; st = [(X, iter(preds.get(X, ())))]
    while st:
        n, it = st[-1]
        for x in it:
            if x not in seen: seen.add(x); st.append((x, iter(preds.get(x, ())))); break
        else: order.append(n); st.pop()
    order.reverse(); idx = {n: i for i, n in enumerate(order)}
    dom = {X: X}; ch = True
    def inter(a, b):
        while a != b:
            while idx[a] > idx[b]: a = dom[a]
            while idx[b] > idx[a]: b = dom[b]
        return a
    while ch:
        ch = False
        for n in order[1:]:
            ps = [p for p in succ[n] if p in dom]
            if not ps: continue
            d = ps[0]
            for p in ps[1:]: d = inter(p, d)
            if dom.get(n) != d: dom[n] = d; ch = True
    f._ipdom = {n: d for n, d in dom.items() if d != X and n != X}
    return f._ipdom

import os
FORKLOG = {} if os.environ.get('VC_FORKS') else None
class NoMerge(Exception): pass
MODE = ['conc', False]
def mk_cptr(c, a, b):
    if MODE[0] != 'conc': raise NoMerge()
    if type(a) not in (Ptr, CPtr) or type(b) not in (Ptr, CPtr): raise NoMerge()
    return CPtr(c, a, b)
def merge_val(c, a, b, w, memcell=False):
    if a is b: return a
    ta, tb = type(a), type(b)
    if ta is bool or tb is bool or isinstance(a, (Rel, BLR)) or isinstance(b, (Rel, BLR)):
        if a is None or b is None: raise NoMerge()
        return bite(c, a, b)
    if ta is int and tb is int and a == b: return a
    if ta is tuple and tb is tuple and len(a) == len(b) and w is not None and not isinstance(w, int):
        raise NoMerge()
    if ta in (Ptr, FuncPtr, CPtr) or tb in (Ptr, FuncPtr, CPtr):
        if ta is Ptr and tb is Ptr and a.r == b.r and (a.o is b.o or (type(a.o) in (int, Lin) and type(a.o) is type(b.o) and a.o == b.o)): return a
        if ta is FuncPtr and tb is FuncPtr and a.name == b.name: return a
        return mk_cptr(c, a, b)
    if ta is float or tb is float or ta is tuple or tb is tuple or a is None or b is None:
        if ta is tb and a == b: return a
        raise NoMerge()
    if ta is Lin and tb is Lin and a == b: return a
    if isinstance(a, BVR) and isinstance(b, BVR):
        if a.eq(b): return a
        if a.num_args() == 1 and b.num_args() == 1 and a.decl().eq(ENC) and b.decl().eq(ENC): return ENC(zb(bite(c, a.arg(0), b.arg(0))))
    if ta is Lin or tb is Lin: raise NoMerge()
    if ta is int and tb is int and w in (32, 64) and not (memcell and MODE[1]): raise NoMerge()
    return ite(c, a, b, w)
def merge_states(s, base, benv, A, B, tys):
    a, ea, va, pa = A; b, eb, vb, pb = B
    if len(a.foralls) != len(base.foralls) or len(b.foralls) != len(base.foralls): return None
    for k in set(a.ghost) | set(b.ghost):
        x, y = a.ghost.get(k), b.ghost.get(k)
        if x is y: continue
        try:
            if type(x) is type(y) and x == y: continue
        except Exception: pass
        return None
    if ea['#a'] != eb['#a']: return None
    n = len(base.pc)
    if a.pc[:n] != base.pc and any(x is not y for x, y in zip(a.pc[:n], base.pc)): return None
    ca = True
    for x in a.pc[n:]: ca = band(ca, x)
    cb = True
    for x in b.pc[n:]: cb = band(cb, x)
    if ca is True or cb is True: return None
    m = base.clone()
    try:
        CUR[0] = base
        nm = {}
        for rid in set(a.mem) | set(b.mem):
            ra, rb = a.mem.get(rid), b.mem.get(rid)
            if ra is rb: nm[rid] = ra; continue
            if ra is None or rb is None:
                r = ra or rb
                if rid in base.mem: continue       # freed on one side and popped
                if r.kind == 'heap' and r.alive: raise NoMerge()
                if r.kind in ('zero', 'global') or r.const: nm[rid] = r
                continue
            if ra.alive != rb.alive: raise NoMerge()
            if not ra.alive: nm[rid] = ra; continue
            if (ra.layers is None) != (rb.layers is None): raise NoMerge()
            if not (ra.size is rb.size or ra.size == rb.size): raise NoMerge()
            r = ra.clone()
            if ra.layers is None:
                keys = [k for k in ra.cells if k not in rb.cells or (rb.cells[k] is not ra.cells[k] and rb.cells[k] != ra.cells[k])] if True else ()
                dk = []
                for k, cv in ra.cells.items():
                    o = rb.cells.get(k)
                    if o is cv: continue
                    if o is not None and o[0] == cv[0] and (o[1] is cv[1]): continue
                    dk.append((k, cv[0]))
                for k, cv in rb.cells.items():
                    o = ra.cells.get(k)
                    if o is cv: continue
                    if o is not None and o[0] == cv[0] and (o[1] is cv[1]): continue
                    if (k, cv[0]) not in dk: dk.append((k, cv[0]))
                if len(dk) > 600: raise NoMerge()
                ra2, rb2 = ra.clone(), rb.clone()
                sa, sb = a.clone(), b.clone()
                sa.mem[rid] = ra2; sa.own.add(rid); sb.mem[rid] = rb2; sb.own.add(rid)
                for k, nb in sorted(dk):
                    x = cells_read(sa, sa.mem[rid], k, nb); y = cells_read(sb, sb.mem[rid], k, nb)
                    v = merge_val(ca, x, y, nb * 8, True)
                    if os.environ.get('VC_DBG'): print('merge', r.name, k, nb, x, y, ca, '->', v)
                    cells_write(base, r, k, nb, v)
            else:
                k = 0
                while k < len(ra.layers) and k < len(rb.layers) and ra.layers[k] is rb.layers[k]: k += 1
                ta, tb = ra.layers[k:], rb.layers[k:]
                if any(l.k != 'w' for l in ta + tb): raise NoMerge()
                locs = []
                for l in ta + tb:
                    if (l.off, l.nb) not in locs: locs.append((l.off, l.nb))
                r.layers = list(ra.layers[:k])
                for off, nb in locs:
                    CUR[0] = a; x = arr_read(a, ra, off, nb); CUR[0] = b; y = arr_read(b, rb, off, nb); CUR[0] = base
                    r.layers.append(Layer('w', off, nb, merge_val(ca, x, y, nb * 8, True)))
            nm[rid] = r
        vs = [merge_val(ca, x, y, t.bits() if t.k in ('int', 'vec') else t) for x, y, t in zip(va, vb, tys)]
    except (NoMerge, Unsupported): return None
    m.mem = nm; m.own = set()
    d = bor(ca, cb)
    if d is not True:
        za, zb_ = zb(ca), zb(cb)
        if not (z3.is_not(za) and za.arg(0).eq(zb_) or z3.is_not(zb_) and zb_.arg(0).eq(za)):
            if not (type(ca) is Rel and type(cb) is Rel and ca.neg().l == cb.l and ca.neg().k == cb.k): m.pc.append(d if not isinstance(d, Rel) else d.z())
    if a.wlog is not None: m.wlog = list(a.wlog) + list(b.wlog[len(base.wlog):])
    m.approx = a.approx or b.approx
    m.instidx = list(dict.fromkeys(a.instidx + b.instidx))
    e = dict(benv); e['#a'] = list(ea['#a'])
    return (m, e, vs, None)

class Engine:
    def __init__(s, module, builtins, contracts=None, mode='conc', opts=None):
        s.m = module; s.builtins = builtins; s.contracts = contracts or {}
        s.obs = []; s.ob_quick = 0; s.globals = {}; s.mode = mode; s.opts = opts or {}
        s.steps = 0; s.calls = set(); s.inputs = []; s.sym_read = None; s.paths = 0
        s.undecided = []; s.gstate = None; s.notes = set(); s.maxpaths = s.opts.get('maxpaths', 20000)
        s.deadline = s.opts.get('deadline'); s.failctx = []; s.covers = {}; s.loops_sum = []; s.recfns = []
        s.detect = []      # loop keys in detection mode
        s.ob_timeout = s.opts.get('ob_timeout', 60000)
        s.used_contracts = set(); s.allow_exit = False; s.size_choice = s.opts.get('sizes', {})
        s.stack = []; MODE[0] = mode; MODE[1] = bool(s.opts.get('mergeint'))
        s.bounded = False; s.redirect = {}; s.ctxs = []
        rp = s.opts.get('replace')
        if rp:
            names = sorted(module.funcs)
            dm = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
            for pr in rp.split(';'):
                a, b = pr.split('=>')
                for n, d in zip(names, dm):
                    if (d + '(').startswith(a + '(') or (' ' + a + '(') in (d + '(') or (' ' + a + '<') in d: s.redirect[n] = b

    # ------------------------------------------------------------ obligations
    suppress = 0; sweeper = None; presat = 0
    def sweepable(s, c):
        """a large purely Boolean obligation"""
        if not z3.is_bool(c) or z3.is_quantifier(c): return False
        seen = set(); st = [c]
        while st:
            x = st.pop(); i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_bool(x): st.extend(x.children())
            if len(seen) > 200: return True
        return False
    def fail(s, st, kind, msg):
        if s.suppress: raise Infeasible()
        r, m = st.check(True, 30000, want_model=True, full=True)
        if r == 'unsat': raise Infeasible()
        raise Violation(kind, msg + s.where(), m, st)
    def where(s):
        return ' [in %s]' % ' < '.join(reversed([demangle(x) for x in s.stack[-3:]])) if s.stack else ''
    def axioms_for(s, st, goal):
        return []
    def oblige(s, st, c, name, kind='assert'):
        t0 = time.time()
        if s.suppress:
            st.assume(c); return
        if c is True or st.quick(c) is True:
            s.obs.append(Obligation(name, kind, 'simplifier', 0)); return
        if z3.is_expr(c) and xnf.valid(c):
            s.obs.append(Obligation(name, kind, 'xor-normal-form', time.time() - t0)); return
        if kind == 'assert' and z3.is_expr(c) and xnf.abs_valid(c):
            s.obs.append(Obligation(name, kind, 'z3', time.time() - t0)); return
        if kind == 'assert' and z3.is_expr(c) and s.sweepable(c):
            if s.sweeper is None:
                import sweep
                s.sweeper = sweep.Fraig()
            v = s.sweeper.valid(c, s.ob_timeout / 1000)
            if v is True:
                s.obs.append(Obligation(name, kind, 'minisat-fraig', time.time() - t0)); return
            if v is False:      # a counterexample of the goal alone: take it if it satisfies the path condition
                hint = z3.And([l if b else z3.Not(l) for l, b in s.sweeper.model()])
                r, m = st.check(z3.And(zb(znot(c)), hint), 10000, want_model=True, full=True)
                if r == 'sat': raise Violation(kind, name + s.where(), m, st)
        n = znot(c)
        ax = s.axioms_for(st, zb(n))
        st2 = st
        if ax:
            st2 = st.clone()
            for a in ax: st2.pc.append(a)
        r, m = st2.check(n, s.ob_timeout, want_model=True, full=bool(ax) or kind == 'assert' and False)
        if r == 'sat' :
            # complete model over the full path condition
            r2, m2 = st2.check(n, s.ob_timeout, want_model=True, full=True)
            if r2 == 'unsat': r = 'unsat'
            elif r2 == 'sat': m = m2
        if r == 'unsat':
            s.obs.append(Obligation(name, kind, 'z3', time.time() - t0))
            try: st.assume(c)
            except Infeasible: raise
            return
        if r == 'sat':
            raise Violation(kind, name + s.where(), m, st)
        r3 = s.second_solver(st2, n)
        if r3 == 'unsat':
            s.obs.append(Obligation(name, kind, 'cvc5', time.time() - t0)); st.assume(c); return
        s.undecided.append(name)
        raise Unsupported('solver could not decide: ' + name + s.where())
    def second_solver(s, st, n):
        if not s.opts.get('cvc5', True): return 'unknown'
        cs, ax = st.slice(zb(n))
        sv = z3.Solver()
        for c in cs + ax + [zb(n)]: sv.add(c)
        txt = sv.to_smt2()
        try:
            p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % s.ob_timeout, '-'], input='(set-logic ALL)\n' + txt, capture_output=True, text=True, timeout=s.ob_timeout / 1000 + 10)
            o = p.stdout.strip().split('\n')[0]
            return o if o in ('sat', 'unsat') else 'unknown'
        except Exception: return 'unknown'

    # ------------------------------------------------------------ globals / constants
    def gptr(s, st, name):
        if name in s.m.funcs or name in s.m.decls: return FuncPtr(name)
        a = s.m.aliases.get(name)
        if a is not None: return s.const(st, a, PTR)
        rid = s.globals.get(name)
        if rid is None or rid not in st.mem:
            g = s.m.globals.get(name)
            if g is None: raise Unsupported('unknown global ' + name)
            sz = g.ty.size() if not (g.external and g.ty.k == 'struct' and g.ty.fs is None) else 64
            r = st.new_region('@' + name, sz, max(16, g.ty.align() if not g.external else 16), 'global', rid=rid)
            rid = r.id; s.globals[name] = rid
            if not g.external:
                r.kind = 'zero' if not g.const else 'zero'
                s.ginit(st, r, 0, g.ty, g.init)
                r = st.wreg(rid); r.const = g.const
            else:
                s.ext_global(st, r, g)
        return Ptr(rid, 0)
    def ext_global(s, st, r, g): pass
    def ginit(s, st, r, off, ty, v):
        if isinstance(v, Zero) or isinstance(v, Undef): return
        if isinstance(v, CAgg) and ty.k != 'vec':
            if ty.k == 'arr':
                es = ty.e.size()
                for i, (t, x) in enumerate(v.vals): s.ginit(st, r, off + i * es, t, x)
            else:
                for o, (t, x) in zip(ty.offs(), v.vals): s.ginit(st, r, off + o, t, x)
            return
        c = s.const(st, v, ty)
        rr = st.wreg(r.id)
        cells_write(st, rr, off, ty.store_size(), int(c) if type(c) is bool else c)
    def const(s, st, v, ty=None):
        t = type(v)
        if t is int or t is bool or t is float: return v
        if t is GRef: return s.gptr(st, v.name)
        if t is Zero: return s.zero(v.ty)
        if t is Undef:
            k = v.ty.k
            if k == 'ptr': return NULL
            if k in ('int', 'vec'): return 0          # undef: fixed to 0 (documented)
            if k in ('float', 'double'): return 0.0
            return s.zero(v.ty)
        if t is CAgg:
            if v.ty.k == 'vec':
                w = v.ty.e.bits(); r = 0
                for i, (et, x) in enumerate(v.vals):
                    c = s.const(st, x, et)
                    if type(c) is float:
                        import struct
                        c = int.from_bytes(struct.pack('<d' if w == 64 else '<f', c), 'little')
                    r |= int(c) << (i * w)
                return r
            return tuple(s.const(st, x, et) for et, x in v.vals)
        if t is CExpr:
            if v.op == 'gep':
                base = s.const(st, v.args[0][1])
                return s.gep(st, v.ty, base, [(et, s.const(st, x, et)) for et, x in v.args[1:]])
            a = s.const(st, v.args[0][1], v.args[0][0])
            if v.op in ('bitcast', 'addrspacecast'): return a
            if v.op == 'ptrtoint':
                if type(a) is FuncPtr: raise Unsupported('ptrtoint of function')
                return st.ptr_int(a)
            if v.op == 'inttoptr': return s.inttoptr(st, a)
            if v.op in OPS: return OPS[v.op](a, s.const(st, v.args[1][1], v.args[1][0]), v.ty.n)
        raise Unsupported('constant %r' % (v,))
    def zero(s, ty):
        k = ty.k
        if k == 'int': return False if ty.n == 1 else 0
        if k == 'ptr': return NULL
        if k == 'vec': return 0
        if k in ('float', 'double', 'x86_fp80'): return 0.0
        if k == 'struct': return tuple(s.zero(f) for f in ty.fs)
        if k == 'arr': return tuple(s.zero(ty.e) for _ in range(ty.n))
        raise Unsupported('zero of %r' % ty)

    # ------------------------------------------------------------ helpers
    def gep(s, st, bt, base, ix):
        if type(base) is not Ptr:
            if type(base) is CPtr: return CPtr(base.c, s.gep(st, bt, base.a, ix), s.gep(st, bt, base.b, ix))
            if type(base) is FuncPtr: raise Unsupported('gep on function')
            base = s.inttoptr(st, base)
        o = base.o; ty = bt; first = True
        for t, v in ix:
            if first: sz = bt.size(); first = False
            elif ty.k == 'struct':
                o = op_add(o, ty.offs()[v], 64); ty = ty.fs[v]; continue
            elif ty.k in ('arr', 'vec'):
                ty = ty.e; sz = ty.size()
            else: raise Unsupported('gep into %r' % ty)
            if type(v) is int:
                v = sgn(v, t.n)
                if v: o = op_add(o, (v * sz) & mask(64), 64)
            else:
                if t.n < 64: v = op_sext(v, t.n, 64)
                o = op_add(o, op_mul(v, sz, 64), 64)
        return Ptr(base.r, o)
    def inttoptr(s, st, v):
        if type(v) is Ptr: return v
        if type(v) is int:
            if v == 0: return NULL
            return Ptr(0, v)
        if type(v) is Lin:
            for i, c in v.t:
                y = SYMS[i]
                if y.kind == 'base' and c == REGALIGN[i]:
                    return Ptr(y.info, canon(v.add(Lin.sym(y), -c), 64))
            return Ptr(0, v)
        raise Unsupported('inttoptr of symbolic integer')
    def ptr_cmp(s, st, pred, a, b):
        if type(a) is CPtr: return bite(a.c, s.ptr_cmp(st, pred, a.a, b), s.ptr_cmp(st, pred, a.b, b))
        if type(b) is CPtr: return bite(b.c, s.ptr_cmp(st, pred, a, b.a), s.ptr_cmp(st, pred, a, b.b))
        if type(a) is FuncPtr or type(b) is FuncPtr:
            eq = type(a) is type(b) and a.name == b.name
            return eq if pred == 'eq' else (not eq)
        if type(a) is not Ptr: a = s.inttoptr(st, a)
        if type(b) is not Ptr: b = s.inttoptr(st, b)
        if a.r == b.r:
            ao = off_lin(a.o) if not isinstance(a.o, int) else sgn(a.o, 64); bo = off_lin(b.o) if not isinstance(b.o, int) else sgn(b.o, 64)
            d = L(ao).add(bo, -1)
            if d.isconst():
                c = d.c
                return {'eq': c == 0, 'ne': c != 0, 'ult': c < 0, 'ule': c <= 0, 'ugt': c > 0, 'uge': c >= 0, 'slt': c < 0, 'sle': c <= 0, 'sgt': c > 0, 'sge': c >= 0}[pred]
            if pred in ('eq', 'ne'): return Rel(pred, d)
            p = pred[1:]
            if p == 'lt': return Rel('ge', d.scale(-1).add(-1))
            if p == 'ge': return Rel('ge', d)
            if p == 'gt': return Rel('ge', d.add(-1))
            return Rel('ge', d.scale(-1))
        if pred == 'eq': return False
        if pred == 'ne': return True
        return op_icmp(pred, st.ptr_int(a), st.ptr_int(b), 64)

    def to_type(s, st, v, ty):
        """convert a raw memory value to the type of a load"""
        k = ty.k
        if k == 'ptr':
            if type(v) in (Ptr, FuncPtr, CPtr): return v
            return s.inttoptr(st, v)
        if k == 'int':
            if ty.n == 1: return to_bool1(raw(st, v, 1), 8)
            v = raw(st, v, ty.store_size())
            if ty.n % 8 and type(v) is not int: v = extract(v, ty.n - 1, 0, ty.store_size() * 8)
            return v
        if k == 'vec': return raw(st, v, ty.store_size())
        if k == 'double' or k == 'float':
            if type(v) is float: return v
            if type(v) is int:
                import struct
                return struct.unpack('<d' if k == 'double' else '<f', v.to_bytes(8 if k == 'double' else 4, 'little'))[0]
            return ('fbits', v)
        raise Unsupported('load of type %r' % ty)
    def under(s, st, c, f):
        s2 = st.clone()
        try: s2.assume(c)
        except Infeasible: return None
        if s.decide(st, c) is False: return None
        CUR[0] = s2
        try: return (f(s2),)
        finally: CUR[0] = st
    def load_ty(s, st, p, ty):
        if type(p) is CPtr:
            a = s.under(st, p.c, lambda x: s.load_ty(x, p.a, ty)); b = s.under(st, znot(p.c), lambda x: s.load_ty(x, p.b, ty))
            if a is None and b is None: raise Infeasible()
            if a is None or b is None: return (a or b)[0]
            try: return s.merge_ty(p.c, a[0], b[0], ty)
            except NoMerge: raise Unsupported('load through a conditional pointer')
        if type(p) is not Ptr: p = s.inttoptr(st, p)
        k = ty.k
        if k == 'struct':
            return tuple(s.load_ty(st, Ptr(p.r, op_add(p.o, o, 64)), f) for o, f in zip(ty.offs(), ty.fs))
        if k == 'arr':
            es = ty.e.size()
            return tuple(s.load_ty(st, Ptr(p.r, op_add(p.o, i * es, 64)), ty.e) for i in range(ty.n))
        return s.to_type(st, load(s, st, p, ty.store_size()), ty)
    def merge_ty(s, c, a, b, ty):
        if ty.k == 'struct': return tuple(s.merge_ty(c, x, y, f) for x, y, f in zip(a, b, ty.fs))
        if ty.k == 'arr': return tuple(s.merge_ty(c, x, y, ty.e) for x, y in zip(a, b))
        if ty.k == 'int' and ty.n == 1: return bite(c, a, b)
        if type(a) is int and type(b) is int: return ite(c, a, b, ty.bits())
        return merge_val(c, a, b, ty.bits() if ty.k in ('int', 'vec') else ty, True)
    def store_ty(s, st, p, ty, v):
        if type(p) is CPtr:
            for c, q in ((p.c, p.a), (znot(p.c), p.b)):
                d = s.decide(st, c)
                if d is False: continue
                if d is True: s.store_ty(st, q, ty, v); continue
                o = s.under(st, c, lambda x: s.load_ty(x, q, ty))[0]
                try: s.store_ty(st, q, ty, s.merge_ty(c, v, o, ty))
                except NoMerge: raise Unsupported('store through a conditional pointer')
            return
        if type(p) is not Ptr: p = s.inttoptr(st, p)
        k = ty.k
        if k == 'struct':
            for o, f, x in zip(ty.offs(), ty.fs, v): s.store_ty(st, Ptr(p.r, op_add(p.o, o, 64)), f, x)
            return
        if k == 'arr':
            es = ty.e.size()
            for i, x in enumerate(v): s.store_ty(st, Ptr(p.r, op_add(p.o, i * es, 64)), ty.e, x)
            return
        if k == 'int' and ty.n == 1: v = from_bool(v, 8)
        if type(v) is tuple and v and v[0] == 'fbits': v = v[1]
        if type(v) is float and k == 'float':
            import struct
            v = int.from_bytes(struct.pack('<f', v), 'little')
        store(s, st, p, ty.store_size(), v)

    # ------------------------------------------------------------ running
    def start(s):
        """initial state with global constructors run"""
        st = State(); CUR[0] = st
        g = s.m.globals.get('llvm.global_ctors')
        if g is not None and isinstance(g.init, CAgg):
            for t, v in g.init.vals:
                fr = v.vals[1][1]
                if isinstance(fr, GRef):
                    outs = s.call_fn(st, fr.name, [])
                    assert len(outs) == 1
                    st = outs[0][0]
        return st
    def harness(s, name):
        st = s.start()
        s.obs = []; s.ob_quick = 0; s.calls = set()
        outs = s.call_fn(st, name, [])
        s.paths = len(outs)
        if not outs: raise Unsupported('harness has no completing path')
        return outs

    def call_fn(s, st, name, args):
        f = s.m.func(name)
        if f is None: raise Unsupported('no body for ' + name)
        s.calls.add(name)
        env = dict(zip(f.params, args))
        for i, bt in f.byval.items():
            r = st.new_region('byval', bt.size(), max(16, bt.align()))
            memcpy(s, st, Ptr(r.id, 0), args[i], bt.size()); env[f.params[i]] = Ptr(r.id, 0)
        if len(s.stack) > 160: raise Unsupported('recursion too deep in ' + name)
        env['#a'] = []
        s.stack.append(name)
        try:
            outs = s.run(f, f.entry, None, env, st, None)
        finally: s.stack.pop()
        res = []
        for o in outs:
            for rid in o[3]:
                r = o[1].mem.pop(rid, None); o[1].own.discard(rid)
            res.append((o[1], o[2]))
        return res

    def ev(s, st, env, o, ty=None):
        if type(o) is str: return env[o]
        t = type(o)
        if t is int or t is bool or t is float: return o
        return s.const(st, o, ty)

    def decide(s, st, c):
        """True/False/None(both feasible)"""
        q = st.quick(c)
        if q is not None: return q
        z = zb(c)
        if has_label(z): s.fail(st, 'oblivious', 'control decision depends on the content of a wire label')
        if not st.feasible(c): return False
        if not st.feasible(znot(c)): return True
        return None

    def run(s, f, bb, prev, env, st, ctx, idx=0):
        """returns list of ('ret', st, val, allocas) / ('edge', st, env, prev, bb)"""
        s.ctxs.append(ctx)
        try: return s.run2(f, bb, prev, env, st, ctx, idx)
        finally: s.ctxs.pop()
    def run2(s, f, bb, prev, env, st, ctx, idx):
        work = [(bb, prev, env, st, idx)]; outs = []
        blocks = f.blocks
        loops = find_loops(f)
        while work:
            bb, prev, env, st, idx = work.pop()
            try:
                CUR[0] = st
                while True:
                    if idx == 0:
                        if ctx is not None and prev is not None and ctx(prev, bb):
                            outs.append(('edge', st, env, prev, bb)); break
                        if bb in loops and prev is not None and prev not in loops[bb].body and s.mode == 'sym' :
                            r = s.enter_loop(f, loops[bb], prev, env, st, ctx)
                            if r is not None:
                                for o in r:
                                    if o[0] == 'ret': outs.append(o)
                                    else: work.append((o[4], o[3], o[2], o[1], 0))
                                break
                    B = blocks[bb]
                    if idx == -1: idx = 0
                    elif idx == 0 and B.phis:
                        vals_ = [s.ev(st, env, p.a[prev], p.ty) for p in B.phis]
                        for p, v in zip(B.phis, vals_): env[p.dst] = v
                    nxt = s.block(f, B, bb, env, st, idx, work, outs)
                    if nxt is None: break
                    prev = bb; bb = nxt; idx = 0
            except (Infeasible, Dead):
                continue
            if len(work) + len(outs) > s.maxpaths: raise Unsupported('too many paths in ' + f.name)
        return outs

    def block(s, f, B, bb, env, st, idx, work, outs):
        ins_list = B.ins; n = len(ins_list)
        ev = s.ev
        while idx < n:
            ins = ins_list[idx]; idx += 1
            op = ins.op
            s.steps += 1
            if s.deadline and (s.steps & 1023) == 0 and time.time() > s.deadline: raise Unsupported('time budget exhausted')
            if op == 'call' or op == 'invoke':
                callee = ins.x if op == 'call' else ins.x['callee']
                r = s.do_call(st, env, ins, callee)
                if type(r) is Outcomes:
                    l = r.l
                    if len(l) == 1:
                        ns, v = l[0]
                        if ins.dst is not None: env[ins.dst] = v
                        if ns is not st:
                            if op == 'invoke': work.append((ins.x['to'], bb, env, ns, 0))
                            else: work.append((bb, None, env, ns, idx))
                            return None
                    else:
                        for ns, v in l:
                            e2 = dict(env); e2['#a'] = list(env['#a'])
                            if ins.dst is not None: e2[ins.dst] = v
                            if op == 'invoke': work.append((ins.x['to'], bb, e2, ns, 0))
                            else: work.append((bb, None, e2, ns, idx))
                        return None
                elif ins.dst is not None: env[ins.dst] = r
                if op == 'invoke':
                    # continue in normal destination with the (possibly new) state
                    work.append((ins.x['to'], bb, env, st, 0)); return None
                continue
            if op == 'load':
                env[ins.dst] = s.load_ty(st, ev(st, env, ins.a[0]), ins.ty); continue
            if op == 'store':
                s.store_ty(st, ev(st, env, ins.a[1]), ins.ty, ev(st, env, ins.a[0], ins.ty)); continue
            if op == 'gep':
                base, ix = ins.a
                env[ins.dst] = s.gep(st, ins.ty, ev(st, env, base), [(t, ev(st, env, v, t)) for t, v in ix]); continue
            if op == 'br': return s.goto(env, st, bb, ins.x, work)
            if op == 'icmp':
                a = ev(st, env, ins.a[0], ins.ty); b = ev(st, env, ins.a[1], ins.ty)
                env[ins.dst] = s.icmp(st, ins.x, a, b, ins.ty); continue
            if op == 'cbr':
                c = ev(st, env, ins.a[0])
                if c is True: return ins.x[0]
                if c is False: return ins.x[1]
                if ins.x[0] == ins.x[1]: return ins.x[0]
                d = s.decide(st, c)
                if d is True: return ins.x[0]
                if d is False: return ins.x[1]
                for lp in s.detect:
                    if lp[0] is f and lp[1] == len(s.stack) and bb in lp[2].body and (ins.x[0] not in lp[2].body) != (ins.x[1] not in lp[2].body):
                        raise SymLoop(lp)
                s.paths += 1
                if FORKLOG is not None: FORKLOG[(f.name, bb)] = FORKLOG.get((f.name, bb), 0) + 1
                P = ipdom(f).get(bb) if not s.nomerge else None
                if P is not None and not (P in f.loops and bb not in f.loops[P].body):
                    if s.fork_merge(f, bb, env, st, c, ins.x[0], ins.x[1], P, work, outs): return None
                st2 = st.clone()
                e2 = dict(env); e2['#a'] = list(env['#a'])
                try:
                    st2.assume(znot(c)); work.append((ins.x[1], bb, e2, st2, 0))
                except Infeasible: pass
                st.assume(c)
                return ins.x[0]
            if op == 'ret':
                v = None if ins.a[0] is None else ev(st, env, ins.a[0], ins.ty)
                outs.append(('ret', st, v, env['#a'])); return None
            if op in OPS:
                a = ev(st, env, ins.a[0], ins.ty); b = ev(st, env, ins.a[1], ins.ty)
                env[ins.dst] = s.binop(st, op, a, b, ins.ty); continue
            if op == 'select':
                c = ev(st, env, ins.a[0], ins.x)
                a = ev(st, env, ins.a[1], ins.ty); b = ev(st, env, ins.a[2], ins.ty)
                if ins.x.k == 'vec':
                    w = ins.ty.e.bits(); nl = ins.ty.n; parts = []
                    for i in range(nl - 1, -1, -1):
                        ci = extract(c, i, i, nl) if type(c) is not int else (c >> i) & 1
                        cb = bool(ci) if type(ci) is int else ci == 1
                        parts.append((ite(cb, extract(a, i*w+w-1, i*w, w*nl), extract(b, i*w+w-1, i*w, w*nl), w), w))
                    env[ins.dst] = concat(parts); continue
                if type(c) is bool: env[ins.dst] = a if c else b; continue
                q = st.quick(c)
                if q is not None: env[ins.dst] = a if q else b; continue
                if same(a, b): env[ins.dst] = a; continue
                k = ins.ty.k
                if k == 'int' and ins.ty.n == 1: env[ins.dst] = bite(c, a, b); continue
                if k in ('int', 'vec') and not (k == 'int' and (type(a) is Lin or type(b) is Lin or type(c) is Rel)):
                    env[ins.dst] = ite(c, a, b, ins.ty.bits()); continue
                if k == 'ptr' and s.mode == 'conc' and type(a) in (Ptr, CPtr) and type(b) in (Ptr, CPtr):
                    d = s.decide(st, c)
                    env[ins.dst] = CPtr(c, a, b) if d is None else a if d else b; continue
                # fork
                d = s.decide(st, c)
                if d is not None: env[ins.dst] = a if d else b; continue
                st2 = st.clone(); e2 = dict(env); e2['#a'] = list(env['#a']); e2[ins.dst] = b
                try:
                    st2.assume(znot(c)); work.append((bb, None, e2, st2, idx))
                except Infeasible: pass
                st.assume(c); env[ins.dst] = a; continue
            if op in ('zext', 'sext', 'trunc'):
                env[ins.dst] = s.cast(st, op, ev(st, env, ins.a[0], ins.x), ins.x, ins.ty); continue
            if op == 'alloca':
                cnt = ev(st, env, ins.a[0][1])
                sz = op_mul(cnt, ins.ty.size(), 64)
                if isinstance(sz, BVR): sz = term_lin(sz)
                r = st.new_region(ins.dst[1:] + '@' + f.name[-24:], sz, max(ins.x, 16) if s.opts.get('align16', True) else ins.x)
                r.align = ins.x
                env['#a'].append(r.id)
                env[ins.dst] = Ptr(r.id, 0); continue
            if op == 'ptrtoint':
                v = ev(st, env, ins.a[0])
                if type(v) is FuncPtr: env[ins.dst] = v; continue
                if type(v) is CPtr: v = s.ptr_choice(st, v)
                if type(v) is Outcomes:
                    for ns, x in v.l:
                        e2 = dict(env); e2['#a'] = list(env['#a']); e2[ins.dst] = ns.ptr_int(x); work.append((bb, None, e2, ns, idx))
                    return None
                env[ins.dst] = st.ptr_int(v); continue
            if op == 'inttoptr': env[ins.dst] = s.inttoptr(st, ev(st, env, ins.a[0], ins.x)); continue
            if op == 'bitcast':
                v = ev(st, env, ins.a[0], ins.x)
                sk, dk = ins.x.k, ins.ty.k
                if dk in ('float', 'double') or sk in ('float', 'double'):
                    if dk in ('float', 'double') and sk in ('int', 'vec'): v = s.to_type(st, v, ins.ty)
                    elif dk in ('int', 'vec'): 
                        import struct
                        if type(v) is float: v = int.from_bytes(struct.pack('<d' if sk == 'double' else '<f', v), 'little')
                        elif type(v) is tuple: v = v[1]
                if ins.x.k == 'vec' and ins.ty.k == 'int' and ins.ty.n == 1: v = to_bool1(v, 8)
                env[ins.dst] = v; continue
            if op == 'extractvalue':
                v = ev(st, env, ins.a[0], ins.ty)
                for i in ins.x: v = v[i]
                env[ins.dst] = v; continue
            if op == 'insertvalue':
                v = ev(st, env, ins.a[0], ins.ty); e = ev(st, env, ins.a[1], ins.x[1])
                def iv(v, ix):
                    if not ix: return e
                    l = list(v); l[ix[0]] = iv(l[ix[0]], ix[1:]); return tuple(l)
                env[ins.dst] = iv(v, ins.x[0]); continue
            if op == 'extractelement':
                v = ev(st, env, ins.a[0], ins.ty); i = ev(st, env, ins.a[1])
                w = ins.ty.e.bits()
                if type(i) is not int: raise Unsupported('symbolic lane')
                r = extract(v, i * w + w - 1, i * w, w * ins.ty.n)
                if ins.ty.e.k in ('double', 'float'): r = s.to_type(st, r, ins.ty.e)
                env[ins.dst] = to_bool1(r, 1) if w == 1 and type(r) is not int else (bool(r) if w == 1 else r); continue
            if op == 'insertelement':
                v = ev(st, env, ins.a[0], ins.ty); e = ev(st, env, ins.a[1], ins.ty.e); i = ev(st, env, ins.a[2])
                w = ins.ty.e.bits(); nl = ins.ty.n
                if type(e) is float:
                    import struct
                    e = int.from_bytes(struct.pack('<d' if w == 64 else '<f', e), 'little')
                if w == 1: e = from_bool(e, 1)
                parts = []
                if i < nl - 1: parts.append((extract(v, nl*w-1, (i+1)*w, nl*w), (nl-1-i)*w))
                parts.append((to_bv(e, w) if type(e) is Lin else e, w))
                if i > 0: parts.append((extract(v, i*w-1, 0, nl*w), i*w))
                env[ins.dst] = concat(parts); continue
            if op == 'shufflevector':
                a = ev(st, env, ins.a[0], ins.ty); b = ev(st, env, ins.a[1], ins.ty)
                mt, mk = ins.x; w = ins.ty.e.bits(); nl = ins.ty.n; tw = w * nl
                if isinstance(mk, CAgg): ms = [None if isinstance(x, Undef) else x for _, x in mk.vals]
                elif isinstance(mk, Zero): ms = [0] * mt.n
                else: ms = [None] * mt.n
                parts = []
                for x in reversed(ms):
                    if x is None: parts.append((0, w))
                    elif x < nl: parts.append((extract(a, x*w+w-1, x*w, tw), w))
                    else: x -= nl; parts.append((extract(b, x*w+w-1, x*w, tw), w))
                env[ins.dst] = concat(parts); continue
            if op == 'switch':
                v = ev(st, env, ins.a[0], ins.ty)
                if type(v) is int:
                    for cv, l in ins.x[1]:
                        if cv == v: return s.goto(env, st, bb, l, work)
                    return ins.x[0]
                for cv, l in ins.x[1]:
                    c = op_icmp('eq', v, cv, ins.ty.n)
                    d = s.decide(st, c)
                    if d is True: return l
                    if d is None:
                        st2 = st.clone(); e2 = dict(env); e2['#a'] = list(env['#a'])
                        try: st2.assume(c); work.append((l, bb, e2, st2, 0))
                        except Infeasible: pass
                        st.assume(znot(c))
                return ins.x[0]
            if op == 'freeze': env[ins.dst] = ev(st, env, ins.a[0], ins.ty); continue
            if op == 'unreachable': s.fail(st, 'unreachable', 'unreachable code reached')
            if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fcmp', 'fneg', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'frem'):
                env[ins.dst] = s.fop(st, ins, [ev(st, env, x, ins.x if op in ir.CAST else ins.ty) for x in ins.a]); continue
            raise Unsupported('instruction ' + op)
        return None
    def goto(s, env, st, bb, to, work): return to
    nomerge = False
    def fork_merge(s, f, bb, env, st, c, t, e, P, work, outs):
        """run both sides of a branch up to the immediate post-dominator and join the states where possible"""
        octx = s.ctxs[-1]
        def ctx(p, b): return b == P or (octx is not None and octx(p, b))
        base = st.clone(); sides = []
        base_al = list(env['#a'])
        for cond, tgt in ((c, t), (znot(c), e)):
            s1 = base.clone(); e1 = dict(env); e1['#a'] = list(base_al)
            try: s1.assume(cond)
            except Infeasible: continue
            if octx is not None and octx(bb, tgt): sides.append(('edge', s1, e1, bb, tgt)); continue
            if tgt == P: sides.append(('edge', s1, e1, bb, P)); continue
            sides += s.run(f, tgt, bb, e1, s1, ctx)
        joins = []
        for o in sides:
            if o[0] == 'ret' or (octx is not None and octx(o[3], o[4])) or o[4] != P: outs.append(o)
            else: joins.append(o)
        if not joins: return True
        B = f.blocks[P]
        items = []
        for o in joins:
            CUR[0] = o[1]
            try: items.append((o[1], o[2], [s.ev(o[1], o[2], p.a[o[3]], p.ty) for p in B.phis], o[3]))
            except Infeasible: pass
        tys = [p.ty for p in B.phis]
        i = 0
        while i < len(items):
            j = i + 1
            while j < len(items):
                m = merge_states(s, base, env, items[i], items[j], tys)
                if m is not None: items[i] = m; del items[j]
                else: j += 1
            i += 1
        for stx, e1, vs, pv in items:
            for p, v in zip(B.phis, vs): e1[p.dst] = v
            work.append((P, None, e1, stx, -1))
        CUR[0] = base
        return True

    def icmp(s, st, pred, a, b, ty):
        k = ty.k
        if k == 'ptr': return s.ptr_cmp(st, pred, a, b)
        if k == 'int':
            if ty.n == 1:
                if pred == 'eq': return znot(bxor(a, b))
                if pred == 'ne': return bxor(a, b)
                a = from_bool(a, 1); b = from_bool(b, 1); return op_icmp(pred, a, b, 1)
            if type(a) is FuncPtr or type(b) is FuncPtr: raise Unsupported('cmp of function pointers')
            if isinstance(a, Ptr): a = st.ptr_int(a)
            if isinstance(b, Ptr): b = st.ptr_int(b)
            return op_icmp(pred, a, b, ty.n)
        if k == 'vec':
            w = ty.e.bits(); parts = []
            for i in range(ty.n - 1, -1, -1):
                r = op_icmp(pred, extract(a, i*w+w-1, i*w, w*ty.n), extract(b, i*w+w-1, i*w, w*ty.n), w)
                parts.append((from_bool(r, 1), 1))
            return concat(parts)
        raise Unsupported('icmp %r' % ty)
    def binop(s, st, op, a, b, ty):
        k = ty.k
        if k == 'int':
            if ty.n == 1:
                if op == 'and': return band(a, b)
                if op == 'or': return bor(a, b)
                if op in ('xor', 'add', 'sub'): return bxor(a, b)
                if op == 'mul': return band(a, b)
                raise Unsupported('i1 ' + op)
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if type(b) is int:
                    if b == 0: s.fail(st, 'arith', 'division by zero')
                else: s.oblige(st, op_icmp('ne', b, 0, ty.n), 'divisor is non-zero', 'arith')
            return norm(OPS[op](a, b, ty.n))
        if k == 'vec':
            W = ty.bits()
            if op in ('and', 'or', 'xor'): return norm(OPS[op](a, b, W))
            w = ty.e.bits(); parts = []
            if type(a) is int and type(b) is int:
                r = 0
                for i in range(ty.n): r |= OPS[op]((a >> i*w) & mask(w), (b >> i*w) & mask(w), w) << (i*w)
                return r
            for i in range(ty.n - 1, -1, -1):
                parts.append((OPS[op](extract(a, i*w+w-1, i*w, W), extract(b, i*w+w-1, i*w, W), w), w))
            return concat(parts)
        raise Unsupported('binop %r' % ty)
    def cast(s, st, op, v, ft, tt):
        if ft.k == 'vec':
            w, W = ft.e.bits(), tt.e.bits(); parts = []; n = ft.n
            f = {'zext': op_zext, 'sext': op_sext, 'trunc': op_trunc}[op]
            for i in range(n - 1, -1, -1):
                e = extract(v, i*w+w-1, i*w, w*n)
                if w == 1:
                    b = to_bool1(e, 1) if type(e) is not int else bool(e)
                    r = from_bool(b, W) if op == 'zext' else ite(b, mask(W), 0, W)
                elif W == 1: r = extract(e, 0, 0, w)
                else: r = f(e, w, W)
                parts.append((r, W))
            return concat(parts)
        w, W = ft.n, tt.n
        if op == 'zext':
            if w == 1: return from_bool(v, W)
            if isinstance(v, Ptr): v = st.ptr_int(v)
            return op_zext(v, w, W)
        if op == 'sext':
            if w == 1: return ite(v, mask(W), 0, W) if type(v) is not bool else (mask(W) if v else 0)
            return op_sext(v, w, W)
        if W == 1: return to_bool1(v, w)
        return norm(op_trunc(v, w, W))
    def fop(s, st, ins, a):
        op = ins.op
        if op == 'sitofp' or op == 'uitofp':
            v = a[0]
            if type(v) is int: return float(sgn(v, ins.x.n) if op == 'sitofp' else v)
            return ('i2f', v, ins.x.n, op)
        if op in ('fpext', 'fptrunc'):
            if type(a[0]) is float: return a[0]
            if op == 'fpext' and type(a[0]) is tuple and a[0][0] == 'fbits': return ('fbits', z3.Function('fpext', z3.BitVecSort(32), z3.BitVecSort(64))(to_bv(a[0][1], 32)))
            raise Unsupported('symbolic float %r' % type(a[0]))
        if op in ('fptosi', 'fptoui'):
            if type(a[0]) is float: return int(a[0]) & mask(ins.ty.n)
            if type(a[0]) is tuple and a[0][0] == 'fint': return a[0][1]
            raise Unsupported('symbolic float %r' % type(a[0]))
        if any(type(x) is not float for x in a): raise Unsupported('symbolic float')
        if op == 'fadd': return a[0] + a[1]
        if op == 'fsub': return a[0] - a[1]
        if op == 'fmul': return a[0] * a[1]
        if op == 'fdiv': return a[0] / a[1]
        if op == 'fneg': return -a[0]
        if op == 'fcmp':
            p = ins.x[1:]; x, y = a
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]
        raise Unsupported(op)

    # ------------------------------------------------------------ calls
    def do_call(s, st, env, ins, callee):
        if type(callee) is str:
            c = env[callee]
            if type(c) is not FuncPtr: raise Unsupported('indirect call through %r' % (c,))
            name = c.name
        elif type(callee) is GRef: name = callee.name
        elif type(callee) is tuple: raise Unsupported('inline asm')
        else:
            c = s.const(st, callee); name = c.name
        if s.redirect:
            n2 = s.redirect.get(name)
            if n2 is not None:
                s.used_contracts.add('%s (proved contract %s in its place)' % (demangle(name).split('(')[0], n2)); name = n2
        h = s.builtins.get(name)
        if h is None and name.startswith('llvm.'):
            h = s.builtins.intrinsic(name)
        args = [None if v is None else s.ev(st, env, v, t) for t, v in ins.a]
        if h is not None:
            for k, x in enumerate(args):
                if type(x) is CPtr:
                    outs = []
                    if k == 1 and type(args[0]) is Ptr and type(args[2]) is int and args[2] <= 64 and ('memcpy' in name or 'memmove' in name):
                        if s.copy_cond(st, args[0], x, args[2]): return args[0]
                    ch = s.ptr_choice(st, x)
                    for ns, q in (ch.l if type(ch) is Outcomes else [(st, ch)]):
                        CUR[0] = ns
                        a2 = list(args); a2[k] = q
                        try: outs += s.call_h(h, ns, a2, ins)
                        except (Infeasible, Dead): pass
                    if not outs: raise Infeasible()
                    CUR[0] = st
                    return Outcomes(outs)
            return h(s, st, args, ins)
        for pat, fn in s.contracts.items():
            if re.search(pat, name):
                r = fn(s, st, args, ins)
                if r is not NotImplemented:
                    s.used_contracts.add(name); return r
        if name in s.m.funcs or name in s.m.aliases:
            outs = s.call_fn(st, name, args)
            return Outcomes(outs) if True else None
        h = s.builtins.pattern(name)
        if h is not None: return h(s, st, args, ins)
        raise Unsupported('external function without contract: ' + demangle(name))

    def ptr_choice(s, st, p):
        if type(p) is not CPtr: return p
        d = s.decide(st, p.c)
        if d is True: return s.ptr_choice(st, p.a)
        if d is False: return s.ptr_choice(st, p.b)
        s2 = st.clone(); s3 = st.clone(); s2.assume(p.c); s3.assume(znot(p.c)); out = []
        for x, q in ((s2, p.a), (s3, p.b)):
            r = s.ptr_choice(x, q)
            if type(r) is Outcomes: out += r.l
            else: out.append((x, r))
        return Outcomes(out)
    def copy_cond(s, st, d, p, n):
        """small copy from a conditional pointer: copy the joined value"""
        def rd(x, q, o, pl):
            if type(q) is CPtr:
                a = s.under(x, q.c, lambda y: rd(y, q.a, o, pl)); b = s.under(x, znot(q.c), lambda y: rd(y, q.b, o, pl))
                if a is None and b is None: raise Infeasible()
                if a is None or b is None: return (a or b)[0]
                return merge_val(q.c, a[0], b[0], pl * 8, True)
            return load(s, x, Ptr(q.r, op_add(q.o, o, 64)), pl)
        pl = 16 if n % 16 == 0 else 8 if n % 8 == 0 else 4 if n % 4 == 0 else 1
        try: vs = [rd(st, p, o, pl) for o in range(0, n, pl)]
        except NoMerge: return False
        for k, v in enumerate(vs): store(s, st, Ptr(d.r, op_add(d.o, k * pl, 64)), pl, v)
        return True
    def call_h(s, h, st, args, ins):
        for k, x in enumerate(args):
            if type(x) is CPtr:
                outs = []
                ch = s.ptr_choice(st, x)
                for ns, q in (ch.l if type(ch) is Outcomes else [(st, ch)]):
                    a2 = list(args); a2[k] = q; CUR[0] = ns
                    outs += s.call_h(h, ns, a2, ins)
                return outs
        r = h(s, st, args, ins)
        return r.l if type(r) is Outcomes else [(st, r)]
    def enter_loop(s, f, loop, prev, env, st, ctx):
        return None

_dm = {}
def demangle(n):
    if n in _dm: return _dm[n]
    try:
        o = subprocess.run(['c++filt', n], capture_output=True, text=True).stdout.strip()
    except Exception: o = n
    _dm[n] = o
    return o
