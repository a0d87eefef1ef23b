#!/usr/bin/env -S python3-vt
"""check.py <property> : regenerate every proof obligation of a property from /repo's current sources and discharge it."""
import sys, os, time, json, re, subprocess, multiprocessing as mp, signal, resource, shutil, itertools, traceback
VERIF = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, VERIF + '/vc')
import build
T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick'); SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
BUDGET = 780 if TIER == 'quick' else 3000
NPROC = int(os.environ.get('VC_JOBS', '8'))
VERBOSE = os.environ.get('VC_VERBOSE')

def parse_list(spec):
    q, _, t = spec.partition('|')
    out = []
    for part in [q] + ([t] if TIER != 'quick' and t else []):
        for x in part.split(','):
            x = x.strip()
            if not x: continue
            if '..' in x:
                a, b = x.split('..'); out += list(range(int(a), int(b) + 1))
            else: out.append(int(x))
    return sorted(set(out))

def worker(conn, ll, harness, mode, sizes, opts):
    resource.setrlimit(resource.RLIMIT_AS, (int(opts.get('mem', 6)) << 30,) * 2)
    try:
        os.setsid()
        import ctypes; ctypes.CDLL(None).prctl(1, 9)
    except Exception: pass
    import ir, engine, builtins_, loops, mem, z3
    res = {'status': 'crash', 'harness': harness, 'mode': mode, 'sizes': sizes}
    E = None; t0 = time.time()
    try:
        m = ir.Module.load(ll)
        B = builtins_.install(builtins_.Builtins())
        o = dict(opts); o['sizes'] = sizes
        E = loops.LEngine(m, B, mode=mode, opts=o); E.sizes_seen = {}
        import models
        models.install(E, B)
        E.harness('h_' + harness)
        res['status'] = 'ok'
    except builtins_.NeedSize as e:
        res['status'] = 'need'; res['need'] = (e.nm, e.lo, e.hi, e.conc)
    except mem.Violation as v:
        res['status'] = 'violation'; res['kind'] = v.kind; res['msg'] = v.msg
        res['approx'] = bool(getattr(v.st, 'approx', False)) or bool(E.groups)
        res['inputs'] = model_inputs(E, v.model)
    except engine.Unsupported as e:
        res['status'] = 'unsupported'; res['msg'] = str(e) + E.where() if E else str(e)
    except MemoryError: res['status'] = 'unsupported'; res['msg'] = 'out of memory'
    except RecursionError: res['status'] = 'unsupported'; res['msg'] = 'recursion limit'
    except engine.Dead: res['status'] = 'unsupported'; res['msg'] = 'assumption of the contract is unsatisfiable'
    except BaseException as e:
        res['status'] = 'unsupported'; res['msg'] = 'engine error %s: %s' % (type(e).__name__, str(e)[:300]); res['tb'] = traceback.format_exc()[-3000:]
    if E is not None:
        try:
            by = {}
            for ob in E.obs:
                by[ob.how] = by.get(ob.how, 0) + 1
            res['obs'] = len(E.obs) + E.ob_quick; res['by'] = by; res['quick'] = E.ob_quick
            kinds = {}
            for ob in E.obs: kinds[ob.kind] = kinds.get(ob.kind, 0) + 1
            res['kinds'] = kinds
            res['covers'] = E.covers; res['steps'] = E.steps; res['paths'] = E.paths
            res['calls'] = sorted(E.calls); res['stats'] = dict(mem.STATS); res['notes'] = sorted(E.notes); res['models'] = sorted(E.used_contracts)
            res['loops'] = list(E.sumlog)
        except Exception: pass
    res['time'] = time.time() - t0
    try: conn.send(res)
    except Exception as e: conn.send({'status': 'unsupported', 'harness': harness, 'mode': mode, 'sizes': sizes, 'msg': 'result: %s' % e})
    conn.close()
    os._exit(0)

def model_inputs(E, model):
    import z3
    out = {}
    if model is None: return out
    for x in E.inputs:
        try:
            if x[1] in ('bv',): out[x[0]] = ['%x' % model.eval(x[3], model_completion=True).as_long()]
            elif x[1] == 'bool': out[x[0]] = ['1' if z3.is_true(model.eval(x[3], model_completion=True)) else '0']
            elif x[1] == 'const': out[x[0]] = ['%x' % x[3]]
            elif x[1] in ('arr', 'arrbool'):
                n = x[4]
                if type(n) is not int: n = model.eval(n.bv64(), model_completion=True).as_long()
                n = min(n, 8192); l = []
                for k in range(n):
                    v = model.eval(x[3](z3.BitVecVal(k, 64)), model_completion=True)
                    l.append(('1' if z3.is_true(v) else '0') if x[1] == 'arrbool' else '%x' % v.as_long())
                out[x[0]] = l
        except Exception: pass
    return out

class Task:
    def __init__(s, unit, harness, mode, sizes, limit, opts): s.unit = unit; s.harness = harness; s.mode = mode; s.sizes = sizes; s.limit = limit; s.opts = opts; s.p = None
def run_tasks(tasks, deadline, on_done):
    queue = list(tasks); running = []
    while queue or running:
        while queue and len(running) < NPROC and time.time() < deadline:
            t = queue.pop(0)
            a, b = mp.Pipe(False)
            t.conn = a; t.p = mp.Process(target=worker, args=(b, t.unit, t.harness, t.mode, t.sizes, t.opts)); t.p.start(); b.close(); t.t0 = time.time(); running.append(t)
        if time.time() >= deadline and queue:
            for t in queue: on_done(t, {'status': 'unsupported', 'msg': 'time budget exhausted', 'harness': t.harness, 'mode': t.mode, 'sizes': t.sizes, 'time': 0})
            queue = []
        import multiprocessing.connection as mc
        if running: mc.wait([t.conn for t in running], 0.5)
        nr = []
        for t in running:
            r = None
            if t.conn.poll():
                try: r = t.conn.recv()
                except EOFError: r = {'status': 'unsupported', 'msg': 'worker died', 'harness': t.harness, 'mode': t.mode, 'sizes': t.sizes, 'time': time.time() - t.t0}
            elif time.time() - t.t0 > t.limit or time.time() > deadline + 20:
                r = {'status': 'unsupported', 'msg': 'time limit %ds' % t.limit, 'harness': t.harness, 'mode': t.mode, 'sizes': t.sizes, 'time': time.time() - t.t0}
            if r is None: nr.append(t); continue
            try: os.killpg(t.p.pid, signal.SIGKILL)
            except Exception: pass
            t.p.kill(); t.p.join(); t.conn.close()
            if r['status'] == 'need':
                nm, lo, hi, conc = r['need']
                for v in parse_list(conc):
                    s2 = dict(t.sizes); s2[nm] = v
                    queue.append(Task(t.unit, t.harness, t.mode, s2, t.limit, t.opts))
            else: on_done(t, r, queue)
        running = nr

class Native:
    """the same contract compiled by the ordinary compiler against the real code: replay and witness search"""
    def __init__(s, src, dir, extra): s.src = src; s.dir = dir; s.exe = None; s.err = None; s.extra = extra
    def get(s):
        if s.exe or s.err: return s.exe
        exe = s.dir + '/native_' + os.path.basename(s.src)[:-4]
        r = subprocess.run(['g++', '-std=c++11', '-O1', '-g1', '-march=x86-64-v3', '-maes', '-mpclmul', '-mrdseed', '-w', '-fsanitize=address', '-DVC_NATIVE', '-DVC_REPO_DIR="%s"' % build.REPO, '-I' + build.REPO, '-I' + VERIF + '/vc', '-I' + VERIF + '/contracts', '-rdynamic',
                            s.src, VERIF + '/vc/vc_native.cpp', '-o', exe, '-lcrypto', '-ldl', '-pthread'] + s.extra, capture_output=True, text=True)
        if r.returncode: s.err = r.stderr[-2000:]; return None
        s.exe = exe; return exe
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99')
    def run(s, args, to):
        if not s.get(): return None, s.err
        try:
            r = subprocess.run([s.exe] + args, capture_output=True, text=True, errors='replace', timeout=to, env=s.env, cwd=s.dir, stdin=subprocess.DEVNULL)
            return r.returncode, (r.stdout + r.stderr)[-6000:]
        except subprocess.TimeoutExpired: return 124, 'native run exceeded %d s (does not terminate)' % to
    def replay(s, harness, path):
        rc, out = s.run([harness, 'replay', path], 40)
        return (rc is not None and rc not in (0, 2, 77)), out, rc
    def search(s, harness, secs):
        rc, out = s.run([harness, 'search', str(secs), str(SEED)], secs + 60)
        return rc == 3 and 'FOUND' in out, out

def harness_opts(src):
    """//@ name key=val ..."""
    o = {}
    for l in open(src):
        m = re.match(r'\s*//@\s*(\w+)\s+(.*)', l)
        if m: o.setdefault(m.group(1), {}).update(dict(x.split('=', 1) if '=' in x else (x, '1') for x in m.group(2).split()))
    return o

def main():
    pid = sys.argv[1]; only = sys.argv[2:]
    meta = json.load(open(VERIF + '/contracts/props.json'))[pid]
    dir = os.environ.get('VC_BUILD', VERIF + '/build') + '/' + pid; shutil.rmtree(dir, ignore_errors=True); os.makedirs(dir)
    viol = []; results = []; names = {}; natives = {}
    tasks = []; hinfo = {}
    import ir
    t0 = time.time()
    units = []
    procs = []
    from concurrent.futures import ThreadPoolExecutor
    srcs = [VERIF + '/contracts/' + u for u in meta['units']]
    def comp(i):
        try: return build.compile_unit(srcs[i], '%s/u%d.ll' % (dir, i), meta.get('defs', []))
        except build.BuildError as e: return e
    with ThreadPoolExecutor(4) as ex: comps = list(ex.map(comp, range(len(srcs))))
    for i, src in enumerate(srcs):
        ll = '%s/u%d.ll' % (dir, i)
        if isinstance(comps[i], Exception):
            path = dir + '/build-error.txt'; open(path, 'w').write(str(comps[i]))
            print('contract unit %s does not compile against /repo:\n%s' % (src, comps[i]))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
            finish(pid, meta, [], [('build', 'unit does not compile')], {}, {}); return 1
        ho = harness_opts(src)
        natives[src] = Native(src, dir, meta.get('ldflags', []))
        text = open(src).read()
        for h in comps[i]:
            h = h[2:]
            if only and h not in only: continue
            o = dict(ho.get('all', {})); o.update(ho.get(h, {}))
            if 'tier' in o and o['tier'] == 'thorough' and TIER == 'quick': continue
            opts = {'ob_timeout': int(o.get('ob', 60)) * 1000}
            if o.get('replace'): opts['replace'] = o['replace']
            if o.get('split'): opts['split'] = o['split'].split(',')
            for k in ('unroll', 'maxpaths', 'mem', 'sum_small', 'mergeint'):
                if k in o: opts[k] = int(o[k])
            lim = int(o.get('limit', 300 if TIER == 'quick' else 1200))
            hinfo[h] = {'src': src, 'opts': o, 'sym': None, 'conc': [], 'll': ll, 'lim': lim, 'eopts': opts}
            if o.get('sym', '1') != '0': tasks.append(Task(ll, h, 'sym', {}, int(o.get('symlimit', min(lim, 240))), opts))
            if o.get('conc', '1') != '0': tasks.append(Task(ll, h, 'conc', {}, lim, opts))
    build_s = time.time() - t0
    tasks.sort(key=lambda t: (t.mode == 'sym', 0))
    def done(t, r, queue=None):
        results.append(r); H = hinfo[r['harness']]
        if r['mode'] == 'sym': H['sym'] = r
        else: H['conc'].append(r)
        if VERBOSE or (r['status'] != 'ok' and r['mode'] == 'conc'):
            print('  [%6.1fs] %-24s %-4s %-28s %-11s obs=%s steps=%s %.1fs %s' % (time.time() - T0, r['harness'], r['mode'], json.dumps(r['sizes']) if r['sizes'] else '', r['status'], r.get('obs'), r.get('steps'), r.get('time', 0), r.get('msg', '') if r['status'] != 'ok' else ''), flush=True)
            if VERBOSE and r.get('tb'): print(r['tb'])
    run_tasks(tasks, T0 + BUDGET - 120, done)
    # ---------------- decide
    notes = []; mode_of = {}
    for h, H in hinfo.items():
        S, C = H['sym'], H['conc']
        nat = natives[H['src']]
        bad = [r for r in C if r['status'] == 'violation'] + ([S] if S and S['status'] == 'violation' else [])
        symok = S is not None and S['status'] == 'ok'
        concok = bool(C) and all(r['status'] == 'ok' for r in C)
        cov = {}
        for r in C + ([S] if S else []):
            for k, v in (r.get('covers') or {}).items(): cov[k] = cov.get(k, 0) + v
        H['cov'] = cov
        confirmed = None
        for r in bad[:6]:
            rp = '%s/%s-%d.replay' % (dir, h, len(viol)); write_replay(rp, pid, H, r)
            ok, out, rc = nat.replay(h, rp)
            if ok:
                with open(rp, 'a') as f: f.write('# native replay on the real code:\n' + ''.join('# %s\n' % l for l in out.split('\n')[-40:]))
                confirmed = (rp, r, out); break
        left = (T0 + (840 if TIER == 'quick' else 3400)) - time.time()
        if not confirmed and (bad or not (symok or concok)) and left > 40:
            ok, out = nat.search(h, min(20, left / 3) if TIER == 'quick' else 60)
            if ok:
                rp = '%s/%s-search.replay' % (dir, h)
                r0 = bad[0] if bad else {'msg': 'obligation undecided: ' + str(([S] if S else []) + C)[:1500], 'kind': 'undecided', 'sizes': {}, 'mode': '', 'inputs': {}}
                write_replay(rp, pid, H, r0)
                with open(rp, 'a') as f: f.write('# failing input found by executing the contract on the real code (seed %d):\n' % SEED + ''.join('# %s\n' % l for l in out.split('\n')[:400]))
                confirmed = (rp, r0, out)
        cbad = [r for r in C if r['status'] == 'violation'] or [r for r in bad if not r.get('approx')]
        if confirmed: viol.append((h, confirmed[1], confirmed[0], ''))
        elif cbad:
            rp = '%s/%s-obligation.replay' % (dir, h); write_replay(rp, pid, H, cbad[0]); viol.append((h, cbad[0], rp, ' no-failing-input-found'))
        elif symok: mode_of[h] = 'proved'
        elif concok:
            mode_of[h] = 'proved' if not any(set(r['sizes']) - set(H['eopts'].get('split', ())) for r in C) else 'bounded'
            if S is not None: notes.append('%s: unbounded proof not established (%s), decided for the listed sizes only' % (h, (S.get('msg') or S['status'])[:200]))
        else:
            und = [r for r in C + ([S] if S else []) if r['status'] != 'ok']
            rp = '%s/%s-undecided.replay' % (dir, h)
            write_replay(rp, pid, H, dict(und[0] if und else {'msg': 'no task ran', 'sizes': {}, 'mode': ''}, kind='undecided'))
            viol.append((h, dict(und[0] if und else {'msg': 'no task'}), rp, ' no-failing-input-found'))
    # vacuity: every named assertion of the contract must have been reached
    for src in srcs:
        want = set(re.findall(r'vc_assert\((?:[^;"]|"(?=\s*\)))*?,\s*"([^"]+)"\)', open(src).read()))
        got = set()
        for h, H in hinfo.items():
            if H['src'] == src: got |= set(H.get('cov', {}))
        miss = want - got
        if miss and not only and not viol and not (TIER == 'quick' and meta.get('thorough_only')):
            rp = dir + '/uncovered.replay'; open(rp, 'w').write('# assertions of the contract never reached: %s\n' % sorted(miss))
            viol.append(('coverage', {'kind': 'vacuous', 'msg': 'contract assertions never reached: %s' % sorted(miss)[:5]}, rp, ' no-failing-input-found'))
    seen = set()
    for h, r, rp, suf in viol:
        print('FAILED obligation in %s: %s: %s %s' % (h, r.get('kind', r.get('status')), r.get('msg'), json.dumps(r.get('sizes'))))
    if viol:
        v = sorted(viol, key=lambda x: x[3] != '')[0]
        print('VIOLATION property=%s replay=%s%s' % (pid, v[2], v[3]))
    finish(pid, meta, results, viol, mode_of, hinfo, notes, build_s)
    nob = sum(r.get('obs', 0) or 0 for r in results)
    print('%s: %d contract harnesses, %d obligations, %s, %.1f s' % (pid, len(hinfo), nob, 'VIOLATED' if viol else 'all discharged (%d unbounded, %d bounded)' % (sum(v == 'proved' for v in mode_of.values()), sum(v == 'bounded' for v in mode_of.values())), time.time() - T0))
    for n in notes: print('  note:', n)
    return 1 if viol else 0

def write_replay(path, pid, H, r):
    with open(path, 'w') as f:
        f.write('# property %s harness %s mode %s sizes %s\n# failed obligation: [%s] %s\n' % (pid, r.get('harness', ''), r.get('mode'), json.dumps(r.get('sizes')), r.get('kind'), str(r.get('msg')).replace('\n', ' ')))
        f.write('# replay natively: the inputs below feed the contract compiled from %s against /repo\n' % os.path.relpath(H['src'], VERIF))
        for k, v in (r.get('inputs') or {}).items(): f.write(k + ' ' + ' '.join(v) + '\n')

TRUST = ['clang-18 front end and the LLVM passes sroa/early-cse/instsimplify/simplifycfg (the obligations are generated from the LLVM IR of /repo\'s sources, compiled on every run)',
         '/verif/vc: VC generator, memory model, loop rule', 'z3 5.3 and cvc5 1.1.2', 'undef values read as 0, distinct allocations do not overlap, operator new succeeds']
def finish(pid, meta, results, viol, mode_of, hinfo, notes=(), build_s=0):
    import engine
    ob = sum(r.get('obs', 0) or 0 for r in results); und = sum(1 for r in results if r['status'] not in ('ok',) and r['mode'] == 'conc')
    by = {}; kinds = {}; st = {'queries': 0, 'solver_s': 0.0}; calls = set(); models = set(); en = set()
    for r in results:
        for k, v in (r.get('by') or {}).items(): by[k] = by.get(k, 0) + v
        for k, v in (r.get('kinds') or {}).items(): kinds[k] = kinds.get(k, 0) + v
        by['bounds/simplifier'] = by.get('bounds/simplifier', 0) + (r.get('quick') or 0)
        for k in st: st[k] += (r.get('stats') or {}).get(k, 0)
        calls |= set(r.get('calls') or []); models |= set(r.get('models') or []); en |= set(r.get('notes') or [])
    dm = subprocess.run(['c++filt'], input='\n'.join(sorted(calls)), capture_output=True, text=True).stdout.split('\n') if calls else []
    fns = sorted(x for x in dm if x.startswith('emp::') or '(emp::' in x or ' emp::' in x)
    cov = {'obligations': ob + len(viol), 'discharged': ob, 'checker_cmd': 'python3-vt /verif/check.py ' + pid,
           'trusted_base': TRUST + meta.get('trusted', []) + sorted('external contract: ' + x for x in models),
           'by_backend': by, 'by_kind': kinds, 'solver_queries': st['queries'], 'solver_seconds': round(st['solver_s'], 2), 'build_seconds': round(build_s, 1),
           'functions_of_repo_executed_under_contract': fns[:400],
           'harnesses': {h: {'status': mode_of.get(h, 'violated'), 'unbounded_mode': (H['sym'] or {}).get('status'), 'sizes_checked': [r['sizes'] for r in H['conc'] if r['status'] == 'ok'][:80],
                             'loops_summarised_by_induction': ((H['sym'] or {}).get('loops') or [])[:40]} for h, H in hinfo.items()},
           'explanation': meta.get('explanation', '')}
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': meta['level'], 'coverage': cov,
          'assumptions': meta.get('assumptions', []) + sorted(en) + list(notes), 'wall_s': round(time.time() - T0, 2), 'violations': len(viol)}
    edir = os.environ.get('VC_EVID', VERIF + '/evidence')
    os.makedirs(edir, exist_ok=True)
    json.dump(ev, open(edir + '/%s.json' % pid, 'w'), indent=1)

if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'; os.execv(sys.executable, [sys.executable] + sys.argv)
    mp.set_start_method('fork')
    sys.exit(main())
