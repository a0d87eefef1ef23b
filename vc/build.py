import subprocess, os, re, hashlib, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VC_REPO', '/repo')
CLANG = '/usr/bin/clang++-18'; OPT = 'opt-18'
CFLAGS = ['-std=c++11', '-O1', '-Xclang', '-disable-llvm-passes', '-march=x86-64-v3', '-maes', '-mpclmul', '-mrdseed', '-w',
          '-I' + REPO, '-I' + VERIF + '/vc', '-I' + VERIF + '/contracts', '-fno-math-errno', '-include', VERIF + '/vc/pre.h', '-U_GLIBCXX_ASSERTIONS']
PASSES = 'internalize,globaldce,function(sroa,early-cse,instsimplify,simplifycfg,loop-simplify)'
class BuildError(Exception): pass
def compile_unit(src, out, defs=()):
    ll = out + '.raw.ll'
    r = subprocess.run([CLANG] + CFLAGS + list(defs) + ['-S', '-emit-llvm', src, '-o', ll], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[-4000:])
    txt = open(ll).read()
    hs = sorted(set(re.findall(r'^define [^@]*@(h_\w+)\(', txt, re.M)))
    cs = sorted(set(re.findall(r'^define [^@]*@(c_\w+)\(', txt, re.M)))
    r = subprocess.run([OPT, '-S', '-phi-node-folding-threshold=24', '-two-entry-phi-node-folding-threshold=24', '-passes=' + PASSES, '--internalize-public-api-list=' + ','.join(hs + cs), ll, '-o', out], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[-4000:])
    os.unlink(ll)
    return hs
