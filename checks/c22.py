# NOTE: random histories of up to 10 calls, each in a process of its own; with and without the default trap mask. Kokkos is not started again after it was ended, which Kokkos does not allow
import os
from concurrent.futures import ThreadPoolExecutor
import vlib
def flip(recs):
    for i in range(len(recs) - 1, -1, -1):
        if recs[i]['event'] == 'Fin': recs[i]['on'] = True; return recs[:i + 1]
def run(ctx):
    src = vlib.core_src() + ['kokkos/ekat_kokkos_session.cpp', 'testing-support/ekat_test_session.cpp']
    with ThreadPoolExecutor(3) as ex:
        f = ex.submit(ctx.build, 'session', ['session.cpp'], src, (), (), False, True)
        g = ex.submit(ctx.build, 'sessionm', ['session.cpp'], src, (), ('-DEKAT_ENABLE_FPE_DEFAULT_MASK',), False, True)
        ctx.model('SessionMC.tla', 'SessionMC.cfg')
        exes = [f.result(), g.result()]
    def produce():
        return [ctx.drive(x, [], trace=os.path.join(ctx.tdir, 'b%d.ndjson' % i), timeout=240, env=dict(OMP_NUM_THREADS=3)) for i, x in enumerate(exes)]
    ctx.conform('SessionTrace', produce, canary=flip, split=20000)
