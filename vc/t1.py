import sys, time; sys.path.insert(0, '/verif/vc')
import build, ir, engine, builtins_, mem
from engine import *
import traceback
src, h = sys.argv[1], sys.argv[2]
sizes = dict((k, int(v)) for k, v in (x.split('=') for x in sys.argv[3:] if '=' in x))
mode = 'sym' if 'sym' in sys.argv else 'conc'
t = time.time(); hs = build.compile_unit(src, '/tmp/w/u.ll'); print('build', time.time() - t, hs)
m = ir.Module.load('/tmp/w/u.ll')
B = builtins_.install(builtins_.Builtins())
import loops
import re
ho = {}
for l in open(src):
    q = re.match(r'\s*//@\s*(\w+)\s+(.*)', l)
    if q and q.group(1) in (h, 'all'): ho.update(dict(x.split('=', 1) if '=' in x else (x, '1') for x in q.group(2).split()))
for k in list(ho):
    if k != 'replace' and ho[k].isdigit(): ho[k] = int(ho[k])
E = loops.LEngine(m, B, mode=mode, opts=dict(ho, sizes=sizes))
import models; models.install(E, B)
E.sizes_seen = {}
t = time.time()
try:
    outs = E.harness('h_' + h)
    print('OK paths', len(outs), 'obs', len(E.obs), 'quick', E.ob_quick, 'steps', E.steps, 'time %.2f' % (time.time() - t), mem.STATS)
    print(E.covers)
except mem.Violation as v:
    print('VIOLATION', v.kind, v.msg)
    for x in E.inputs[:20]:
        if x[1] in ('bv', 'bool') and v.model is not None: print('  ', x[0], v.model.eval(x[3], model_completion=True))
    print('time', time.time() - t)
except Exception as e:
    traceback.print_exc(); print('stack', [demangle(x) for x in E.stack], 'steps', E.steps)

if engine.FORKLOG:
    for k, v in sorted(engine.FORKLOG.items(), key=lambda x: -x[1])[:12]: print('fork', demangle(k[0])[:90], k[1], v)
