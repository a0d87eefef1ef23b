"""Contracts of external library functions whose only effect is output (diagnostics); the functional externals (stdio streams, OpenSSL) have ghost implementations in contracts/*.h."""
from vals import *
from mem import *
import builtins_
def install(E, B):
    def ext_global(st, r, g):
        n = g.name if hasattr(g, 'name') else r.name
        if r.name in ('@stderr', '@stdout', '@stdin'):
            f = st.new_region('FILE ' + r.name, 216, 16, 'global')
            cells_write(st, st.wreg(r.id), 0, 8, Ptr(f.id, 0))
    E.ext_global = ext_global
    def out(name):
        def f(e, st, a, i):
            e.used_contracts.add(name + ' (output only)')
            return fresh_bv(name, 32)
        return f
    for n in ('fprintf', 'printf', 'puts', 'putchar', 'perror', 'fputs', 'fputc', 'fwrite_stderr', 'vfprintf'): B.reg(n, out(n))
