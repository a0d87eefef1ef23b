"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits for /repo.

Function bodies are parsed lazily.  Constants are kept symbolic (GRef/CExpr) until linked.
"""
import re

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'e', 'fs', 'packed', 'name', '_sz', '_al', '_offs')
    def __init__(s, k, n=0, e=None, fs=None, packed=False, name=None):
        s.k = k; s.n = n; s.e = e; s.fs = fs; s.packed = packed; s.name = name
        s._sz = None; s._al = None; s._offs = None
    def __repr__(s):
        if s.k == 'int': return 'i%d' % s.n
        if s.k == 'vec': return '<%d x %r>' % (s.n, s.e)
        if s.k == 'arr': return '[%d x %r]' % (s.n, s.e)
        if s.k == 'struct': return s.name or '{%s}' % ','.join(map(repr, s.fs or []))
        return s.k
    def align(s):
        if s._al is None:
            k = s.k
            if k == 'int':
                b = (s.n + 7) // 8; a = 1
                while a < b: a *= 2
                s._al = min(a, 16)
            elif k in ('ptr', 'double'): s._al = 8
            elif k == 'float': s._al = 4
            elif k == 'x86_fp80': s._al = 16
            elif k == 'vec':
                b = (s.n * s.e.bits() + 7) // 8; a = 1
                while a < b: a *= 2
                s._al = a
            elif k == 'arr': s._al = s.e.align()
            elif k == 'struct': s._al = 1 if s.packed or not s.fs else max(f.align() for f in s.fs)
            else: raise Exception('align of ' + k)
        return s._al
    def bits(s):
        if s.k == 'int': return s.n
        if s.k == 'ptr': return 64
        if s.k == 'double': return 64
        if s.k == 'float': return 32
        if s.k == 'x86_fp80': return 80
        if s.k == 'vec': return s.n * s.e.bits()
        return s.size() * 8
    def store_size(s):
        if s.k in ('int', 'vec', 'float', 'double', 'ptr', 'x86_fp80'):
            return (s.bits() + 7) // 8
        return s.size()
    def size(s):
        if s._sz is None:
            k = s.k
            if k == 'arr': s._sz = s.n * s.e.size()
            elif k == 'struct':
                s.offs()
            else:
                b = s.store_size(); a = s.align()
                s._sz = (b + a - 1) // a * a
        return s._sz
    def offs(s):
        if s._offs is None:
            o = 0; r = []
            for f in s.fs:
                if not s.packed:
                    a = f.align(); o = (o + a - 1) // a * a
                r.append(o); o += f.size()
            if not s.packed:
                a = s.align(); o = (o + a - 1) // a * a
            s._offs = r; s._sz = o
        return s._offs

INTS = {}
def I(n):
    t = INTS.get(n)
    if t is None: t = INTS[n] = Ty('int', n)
    return t
PTR = Ty('ptr'); VOID = Ty('void'); FLOAT = Ty('float'); DOUBLE = Ty('double'); LABEL = Ty('label'); META = Ty('metadata'); FP80 = Ty('x86_fp80'); TOKEN = Ty('token')
PRIMS = {'ptr': PTR, 'void': VOID, 'float': FLOAT, 'double': DOUBLE, 'label': LABEL, 'metadata': META, 'x86_fp80': FP80, 'token': TOKEN}

# ---------------------------------------------------------------- constants
class GRef:
    __slots__ = ('name',)
    def __init__(s, n): s.name = n
    def __repr__(s): return '@' + s.name
class CExpr:
    __slots__ = ('op', 'ty', 'args')
    def __init__(s, op, ty, args): s.op = op; s.ty = ty; s.args = args
class CAgg:
    __slots__ = ('ty', 'vals')
    def __init__(s, ty, vals): s.ty = ty; s.vals = vals
class Zero:
    __slots__ = ('ty',)
    def __init__(s, ty): s.ty = ty
class Undef:
    __slots__ = ('ty',)
    def __init__(s, ty): s.ty = ty
class Meta:
    pass

TOK = re.compile(r'''\s*(?:
  (c"(?:[^"])*")
 |([%@]"[^"]*"|[%@][\w.$\-]+)
 |(![\w.]*(?:\([^)]*\))?|\#\d+)
 |("(?:[^"])*")
 |(0x[HKLMR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+)
 |([A-Za-z_][\w.]*)
 |(\.\.\.|[()\[\]{}<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    m = TOK.match
    while i < n:
        r = m(s, i)
        if not r:
            if s[i:].strip() == '': break
            if s[i:].lstrip().startswith(';'): break
            raise Exception('tokenize: %r' % s[i:i+80])
        out.append(r.group(r.lastindex)); i = r.end()
    return out

class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'x', 'line')
    def __init__(s, op, dst, ty, a, x=None):
        s.op = op; s.dst = dst; s.ty = ty; s.a = a; s.x = x; s.line = None
    def __repr__(s): return '%s = %s %r %r %r' % (s.dst, s.op, s.ty, s.a, s.x)

class Block:
    __slots__ = ('name', 'phis', 'ins', 'succ')
    def __init__(s, name): s.name = name; s.phis = []; s.ins = []; s.succ = []

class Func:
    def __init__(s, name): 
        s.name = name; s.params = []; s.ptys = []; s.rty = None; s.blocks = None; s.entry = None
        s.raw = None; s.vararg = False; s.loops = None; s.byval = {}; s.linkage = ''
    def __repr__(s): return 'Func(%s)' % s.name

class Global:
    __slots__ = ('name', 'ty', 'init', 'const', 'external')

PARAM_ATTRS_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align', 'byref', 'inalloca', 'preallocated', 'elementtype', 'nofpclass', 'range', 'memory', 'captures', 'initializes', 'alignstack', 'allocsize'}
FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'volatile', 'disjoint', 'nneg', 'nusw', 'inrange', 'samesign'}

class P:
    """token cursor"""
    def __init__(s, mod, toks): s.m = mod; s.t = toks; s.i = 0
    def peek(s): return s.t[s.i] if s.i < len(s.t) else None
    def next(s):
        r = s.t[s.i]; s.i += 1; return r
    def accept(s, x):
        if s.i < len(s.t) and s.t[s.i] == x: s.i += 1; return True
        return False
    def expect(s, x):
        if s.t[s.i] != x: raise Exception('expected %r got %r in %r' % (x, s.t[s.i], ' '.join(s.t)))
        s.i += 1
    def ty(s):
        t = s.next()
        if t[0] == 'i' and t[1:].isdigit(): r = I(int(t[1:]))
        elif t in PRIMS: r = PRIMS[t]
        elif t[0] == '%': r = s.m.named(t)
        elif t == '[':
            n = int(s.next()); s.expect('x'); e = s.ty(); s.expect(']'); r = Ty('arr', n, e)
        elif t == '<':
            if s.peek() == '{':
                s.next(); fs = []
                while s.peek() != '}':
                    fs.append(s.ty())
                    if not s.accept(','): break
                s.expect('}'); s.expect('>'); r = Ty('struct', fs=fs, packed=True)
            else:
                n = int(s.next()); s.expect('x'); e = s.ty(); s.expect('>'); r = Ty('vec', n, e)
        elif t == '{':
            fs = []
            while s.peek() != '}':
                fs.append(s.ty())
                if not s.accept(','): break
            s.expect('}'); r = Ty('struct', fs=fs)
        else: raise Exception('type? %r in %r' % (t, ' '.join(s.t)))
        while s.peek() == '(' and r.k in ('void', 'int', 'ptr', 'double', 'float', 'vec', 'struct'):
            # function type: only when used as callee type; caller decides
            break
        return r
    def skip_paren(s):
        s.expect('('); d = 1
        while d:
            t = s.next()
            if t == '(': d += 1
            elif t == ')': d -= 1
    def attrs(s):
        """skip parameter/return attributes; return dict of interesting ones"""
        at = {}
        while True:
            t = s.peek()
            if t is None: break
            if t == 'align':
                s.next()
                if s.peek() == '(': s.skip_paren()
                else: s.next()
                continue
            if t in ('byval', 'sret'):
                s.next(); s.expect('('); at[t] = s.ty(); s.expect(')'); continue
            if t in PARAM_ATTRS_PAREN:
                s.next()
                if s.peek() == '(': s.skip_paren()
                continue
            if t in ('noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'returned', 'immarg', 'inreg', 'nofree', 'nest', 'swiftself', 'writable', 'dead_on_unwind', 'nounwind', 'allocptr', 'allocalign', 'range', 'noreturn', 'nosync', 'willreturn', 'inbounds', 'unnamed_addr', 'local_unnamed_addr'):
                s.next(); continue
            break
        return at
    def val(s, ty):
        t = s.next()
        c = t[0]
        if c == '%': return t if t[1] != '"' else '%' + t[2:-1]
        if c == '@': return GRef(t[1:] if t[1] != '"' else t[2:-1])
        if c == '-' or c.isdigit():
            if t.startswith('0x'):
                return s.m.fconst(t, ty)
            if ty.k in ('double', 'float'): return float(t)
            v = int(t)
            return v & ((1 << ty.n) - 1)
        if t == 'true': return True
        if t == 'false': return False
        if t in ('null', 'none'): return Zero(PTR)
        if t == 'zeroinitializer': return Zero(ty)
        if t in ('undef', 'poison'): return Undef(ty)
        if c == 'c' and t[1:2] == '"': return CAgg(ty, s.m.cstr(t))
        if t == '<':
            if s.peek() == '{':
                s.next(); vs = s.vlist('}'); s.expect('>'); return CAgg(ty, vs)
            vs = s.vlist('>'); return CAgg(ty, vs)
        if t == '[': return CAgg(ty, s.vlist(']'))
        if t == '{': return CAgg(ty, s.vlist('}'))
        if t == 'splat':
            s.expect('('); et = s.ty(); v = s.val(et); s.expect(')'); return CAgg(ty, [(et, v)] * ty.n)
        if t == 'getelementptr':
            while s.peek() in FLAGS:
                s.next()
                if s.peek() == '(' and s.t[s.i-1] == 'inrange': s.skip_paren()
            s.expect('('); bt = s.ty(); s.expect(','); args = []
            while True:
                s.accept('inrange')
                at = s.ty(); args.append((at, s.val(at)))
                if not s.accept(','): break
            s.expect(')')
            return CExpr('gep', bt, args)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            s.expect('('); at = s.ty(); v = s.val(at); s.expect('to'); rt = s.ty(); s.expect(')')
            return CExpr(t, rt, [(at, v)])
        if t in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'ashr'):
            while s.peek() in FLAGS: s.next()
            s.expect('('); at = s.ty(); a = s.val(at); s.expect(','); bt = s.ty(); b = s.val(bt); s.expect(')')
            return CExpr(t, at, [(at, a), (bt, b)])
        if t in ('dso_local_equivalent', 'no_cfi'): return s.val(ty)
        if ty.k == 'metadata': return Meta()
        raise Exception('value? %r in %r' % (t, ' '.join(s.t)))
    def vlist(s, end):
        vs = []
        if s.accept(end): return vs
        while True:
            t = s.ty(); vs.append((t, s.val(t)))
            if not s.accept(','): break
        s.expect(end); return vs

def unq(t):
    return '%' + t[2:-1] if t[1] == '"' else t

BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'addrspacecast'}
LINKAGE = {'internal', 'private', 'linkonce_odr', 'linkonce', 'weak', 'weak_odr', 'external', 'available_externally', 'appending', 'common', 'extern_weak', 'dso_local', 'hidden', 'protected', 'default', 'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'noundef', 'fastcc', 'ccc', 'coldcc', 'externally_initialized'}

class Module:
    def __init__(s):
        s.types = {}; s.funcs = {}; s.globals = {}; s.decls = {}; s.aliases = {}
    def named(s, t):
        r = s.types.get(t)
        if r is None:
            r = s.types[t] = Ty('struct', fs=None, name=t)
        return r
    def fconst(s, t, ty):
        import struct
        h = t[2:]
        if h[0] in 'KLMHR': return ('fp80', t)
        return struct.unpack('>d', int(h, 16).to_bytes(8, 'big'))[0]
    def cstr(s, t):
        b = t[2:-1]; out = []; i = 0
        while i < len(b):
            if b[i] == '\\': out.append((I(8), int(b[i+1:i+3], 16))); i += 3
            else: out.append((I(8), ord(b[i]))); i += 1
        return out

    @staticmethod
    def load(path):
        m = Module(); m.parse(open(path).read()); return m

    def parse(m, text):
        lines = text.split('\n'); i = 0; n = len(lines)
        gl = []; 
        while i < n:
            L = lines[i]
            if L.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                m.fhead(L, lines[i+1:j]); i = j + 1; continue
            if L.startswith('declare'):
                m.fdecl(L)
            elif L.startswith('%'):
                k = L.index(' = type ')
                t = m.named(L[:k])
                body = L[k+8:]
                if body != 'opaque':
                    p = P(m, tokenize(body)); b = p.ty()
                    if b.k == 'struct': t.fs = b.fs; t.packed = b.packed
                    else: raise Exception(L)
            elif L.startswith('@'):
                gl.append(L)
            i += 1
        for L in gl: m.pglobal(L)

    def fdecl(m, L):
        k = L.index('@'); r = re.match(r'@"([^"]*)"|@([\w.$-]+)', L[k:])
        m.decls[r.group(1) or r.group(2)] = L

    def fhead(m, L, body):
        k = L.index('@'); r = re.match(r'@"([^"]*)"|@([\w.$-]+)', L[k:])
        f = Func(r.group(1) or r.group(2)); f.raw = (L, body)
        m.funcs[f.name] = f

    def pglobal(m, L):
        p = P(m, tokenize(L)); t = p.next(); g = Global(); g.name = t[1:] if t[1] != '"' else t[2:-1]
        p.expect('='); g.const = False; g.external = False; g.init = None
        while True:
            t = p.peek()
            if t in ('global', 'constant'): g.const = (t == 'constant'); p.next(); break
            if t in ('alias', 'ifunc'):
                p.next(); p.ty(); p.expect(','); p.ty(); v = p.val(PTR); m.aliases[g.name] = v; return
            if t in ('external', 'extern_weak'): g.external = True
            p.next()
            if p.peek() == '(': p.skip_paren()
        g.ty = p.ty()
        if not g.external: g.init = p.val(g.ty)
        m.globals[g.name] = g

    def func(m, name):
        f = m.funcs.get(name)
        if f is None:
            a = m.aliases.get(name)
            if isinstance(a, GRef): return m.func(a.name)
            return None
        if f.blocks is None: m.body(f)
        return f

    def body(m, f):
        L, lines = f.raw
        k = L.index('@')
        hp = P(m, tokenize(L[len('define'):k]))
        while hp.peek() in LINKAGE: hp.next()
        hp.attrs()
        while hp.peek() in LINKAGE: hp.next()
        f.rty = hp.ty()
        p = P(m, tokenize(L[k:].rstrip('{')))
        p.next(); p.expect('(')
        idx = 0
        while p.peek() != ')':
            if p.accept('...'): f.vararg = True; break
            t = p.ty(); at = p.attrs(); nm = p.peek()
            if nm and nm[0] == '%': p.next(); nm = unq(nm)
            else: nm = '%' + str(idx)
            if 'byval' in at: f.byval[idx] = at['byval']
            f.params.append(nm); f.ptys.append(t); idx += 1
            if not p.accept(','): break
        blocks = {}; cur = None
        # entry label: explicit or implicit number = nparams
        j = 0; n = len(lines); order = []
        lab = re.compile(r'^("(?:[^"]*)"|[\w.$\-]+):')
        while j < n:
            s = lines[j]
            if not s.strip() or s.lstrip().startswith(';'): j += 1; continue
            if not s.startswith(' '):
                r = lab.match(s)
                nm = r.group(1)
                if nm[0] == '"': nm = nm[1:-1]
                cur = Block('%' + nm); blocks[cur.name] = cur; order.append(cur); j += 1; continue
            if cur is None:
                cur = Block('%' + str(idx)); blocks[cur.name] = cur; order.append(cur)
            st = s.strip()
            if st.startswith('switch'):
                while ']' not in lines[j]: j += 1; st += ' ' + lines[j].strip()
            elif 'invoke ' in st and ' to label ' not in st:
                j += 1; st += ' ' + lines[j].strip()
            elif 'landingpad' in st:
                while j + 1 < n and re.match(r'\s+(cleanup|catch|filter)\b', lines[j+1]): j += 1; st += ' ' + lines[j].strip()
            ins = m.instr(st)
            if ins is not None:
                ins.line = st
                if ins.op == 'phi': cur.phis.append(ins)
                else: cur.ins.append(ins)
            j += 1
        for b in order:
            t = b.ins[-1]
            if t.op == 'br': b.succ = [t.x]
            elif t.op == 'cbr': b.succ = [t.x[0], t.x[1]]
            elif t.op == 'switch': b.succ = [t.x[0]] + [l for _, l in t.x[1]]
            elif t.op == 'invoke': b.succ = [t.x['to']]      # unwind edges are not followed
        f.blocks = blocks; f.entry = order[0].name

    def instr(m, st):
        p = P(m, tokenize(st)); dst = None
        if p.peek()[0] == '%':
            dst = unq(p.next()); p.expect('=')
        op = p.next()
        if op in BIN:
            while p.peek() in FLAGS: p.next()
            t = p.ty(); a = p.val(t); p.expect(','); b = p.val(t)
            return Instr(op, dst, t, (a, b))
        if op in ('tail', 'musttail', 'notail'): op = p.next()
        if op == 'call' or op == 'invoke':
            while p.peek() in FLAGS or p.peek() in LINKAGE: p.next()
            p.attrs()
            rt = p.ty()
            if p.peek() == '(':      # function type given
                p.skip_paren()
                while p.accept('*'): pass
            if p.peek() == 'asm':
                p.next()
                while p.peek() in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'): p.next()
                a = p.next(); p.expect(','); c = p.next(); callee = ('asm', a, c)
            else:
                callee = p.val(PTR)
            p.expect('('); args = []
            while p.peek() != ')':
                t = p.ty(); at = p.attrs()
                if t is META:
                    # metadata operand: skip to , or )
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        if x in '([{': d += 1
                        if x in ')]}': d -= 1
                    args.append((t, None))
                else:
                    args.append((t, p.val(t)))
                if not p.accept(','): break
            p.expect(')')
            if op == 'call': return Instr('call', dst, rt, args, callee)
            while p.peek() != 'to': p.next()
            p.next(); p.expect('label'); to = unq(p.next()); p.expect('unwind'); p.expect('label'); uw = unq(p.next())
            return Instr('invoke', dst, rt, args, {'callee': callee, 'to': to, 'uw': uw})
        if op == 'load':
            while p.peek() in ('volatile', 'atomic'): p.next()
            t = p.ty(); p.expect(','); p.ty(); return Instr('load', dst, t, (p.val(PTR),))
        if op == 'store':
            while p.peek() in ('volatile', 'atomic'): p.next()
            t = p.ty(); v = p.val(t); p.expect(','); p.ty(); return Instr('store', None, t, (v, p.val(PTR)))
        if op == 'getelementptr':
            while p.peek() in FLAGS:
                p.next()
                if p.peek() == '(': p.skip_paren()
            bt = p.ty(); p.expect(','); p.ty(); base = p.val(PTR); ix = []
            while p.accept(','):
                if p.peek()[0] == '!': break
                t = p.ty(); ix.append((t, p.val(t)))
            return Instr('gep', dst, bt, (base, ix))
        if op in ('icmp', 'fcmp'):
            while p.peek() in FLAGS: p.next()
            pred = p.next(); t = p.ty(); a = p.val(t); p.expect(','); b = p.val(t)
            return Instr(op, dst, t, (a, b), pred)
        if op == 'br':
            if p.peek() == 'label':
                p.next(); return Instr('br', None, None, (), unq(p.next()))
            t = p.ty(); c = p.val(t); p.expect(','); p.expect('label'); a = unq(p.next()); p.expect(','); p.expect('label'); b = unq(p.next())
            return Instr('cbr', None, None, (c,), (a, b))
        if op == 'switch':
            t = p.ty(); v = p.val(t); p.expect(','); p.expect('label'); d = unq(p.next()); p.expect('['); cs = []
            while p.peek() != ']':
                ct = p.ty(); cv = p.val(ct); p.expect(','); p.expect('label'); cs.append((cv, unq(p.next())))
            return Instr('switch', None, t, (v,), (d, cs))
        if op == 'phi':
            while p.peek() in FLAGS: p.next()
            t = p.ty(); inc = {}
            while True:
                p.expect('['); v = p.val(t); p.expect(','); inc[unq(p.next())] = v; p.expect(']')
                if not p.accept(','): break
                if p.peek()[0] == '!': break
            return Instr('phi', dst, t, inc)
        if op == 'ret':
            t = p.ty()
            return Instr('ret', None, t, (None if t is VOID else p.val(t),))
        if op in CAST:
            while p.peek() in FLAGS: p.next()
            t = p.ty(); v = p.val(t); p.expect('to'); rt = p.ty()
            return Instr(op, dst, rt, (v,), t)
        if op == 'alloca':
            p.accept('inalloca')
            t = p.ty(); cnt = (I(32), 1); al = t.align()
            while p.accept(','):
                if p.peek() == 'align': p.next(); al = int(p.next())
                elif p.peek()[0] == '!': break
                else:
                    ct = p.ty(); cnt = (ct, p.val(ct))
            return Instr('alloca', dst, t, (cnt,), al)
        if op == 'select':
            while p.peek() in FLAGS: p.next()
            ct = p.ty(); c = p.val(ct); p.expect(','); t = p.ty(); a = p.val(t); p.expect(','); p.ty(); b = p.val(t)
            return Instr('select', dst, t, (c, a, b), ct)
        if op == 'extractvalue':
            t = p.ty(); v = p.val(t); ix = []
            while p.accept(','):
                if p.peek()[0] == '!': break
                ix.append(int(p.next()))
            return Instr(op, dst, t, (v,), ix)
        if op == 'insertvalue':
            t = p.ty(); v = p.val(t); p.expect(','); et = p.ty(); e = p.val(et); ix = []
            while p.accept(','):
                if p.peek()[0] == '!': break
                ix.append(int(p.next()))
            return Instr(op, dst, t, (v, e), (ix, et))
        if op == 'extractelement':
            t = p.ty(); v = p.val(t); p.expect(','); it = p.ty(); return Instr(op, dst, t, (v, p.val(it)))
        if op == 'insertelement':
            t = p.ty(); v = p.val(t); p.expect(','); et = p.ty(); e = p.val(et); p.expect(','); it = p.ty()
            return Instr(op, dst, t, (v, e, p.val(it)))
        if op == 'shufflevector':
            t = p.ty(); a = p.val(t); p.expect(','); p.ty(); b = p.val(t); p.expect(','); mt = p.ty(); mk = p.val(mt)
            return Instr(op, dst, t, (a, b), (mt, mk))
        if op == 'unreachable': return Instr(op, None, None, ())
        if op == 'landingpad': return Instr(op, dst, p.ty(), ())
        if op == 'resume': return Instr(op, None, None, ())
        if op == 'freeze':
            t = p.ty(); return Instr(op, dst, t, (p.val(t),))
        if op == 'fneg':
            while p.peek() in FLAGS: p.next()
            t = p.ty(); return Instr(op, dst, t, (p.val(t),))
        if op == 'fence': return None
        if op in ('atomicrmw', 'cmpxchg'):
            return Instr(op, dst, I(32), (), st)
        raise Exception('instr? ' + st)
