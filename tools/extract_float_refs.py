#!/usr/bin/env python3
"""one-off: pinned reference netlists from the base commit of /repo (contracts/ref/*.inc), and the per-function contract units"""
import subprocess, re
V='/verif'; BASE='d84dc4b'
ops={'add':('a + b',2,32),'sub':('a - b',2,32),'mul':('a * b',2,32),'div':('a / b',2,32),'sq':('a.sqr()',1,31),'sqrt':('a.sqrt()',1,32),'sin':('a.sin()',1,32),'cos':('a.cos()',1,32),'exp2':('a.exp2()',1,31),'exp':('a.exp()',1,31),'ln':('a.ln()',1,32),'log2':('a.log2()',1,32),'eq':('a.equal(b)',2,1),'le':('a.less_than(b)',2,1),'leq':('a.less_equal(b)',2,1)}
for o,(e,ar,outs) in ops.items():
    t=subprocess.run(['git','-C','/repo','show',BASE+':emp-tool/circuits/float32_%s.cpp'%o],capture_output=True,text=True).stdout
    nw=int(re.search(r'new Bit\[(\d+)\]',t).group(1)); g=re.search(r'gates\[\]\s*=\s*\{(.*?)\};',t,re.S).group(1)
    g=[int(x) for x in g.replace('\n',' ').split(',') if x.strip()]
    assert len(g)%4==0
    open(V+'/contracts/ref/%s.inc'%o,'w').write('\n'.join(','.join(map(str,g[i:i+4]))+',' for i in range(0,len(g),4))+'\n')
    open(V+'/contracts/C13_%s.cpp'%o,'w').write('#define OPNAME %s\n#define OPFILE "emp-tool/circuits/float32_%s.cpp"\n#define OPREF "ref/%s.inc"\n#define OPEXPR %s\n#define OPARITY %d\n#define OPOUTS %d\n#define OPWIRES %d\n#include "C13_op.h"\n//@ f_%s sym=0 limit=600\n'%(o,o,o,e,ar,outs,nw,o))
print('ok')
