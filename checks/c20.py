# NOTE: random histories of 14 calls and operations (float, double, long double), nested threads; every subset of traps. The fallback for platforms without feenableexcept is compiled against the fields of the local fenv_t
import os
from concurrent.futures import ThreadPoolExecutor
import vlib
def flip(recs):
    for i in range(len(recs) - 1, -1, -1):
        if recs[i]['event'] == 'Op':
            recs[i]['sig'] = 8 - recs[i]['sig']; return recs[:i + 1]
def run(ctx):
    def fallback():
        # the code for systems without feenableexcept (it only compiles where the names it defines are not taken)
        return ctx.build('fpefb', ['fpe.cpp', 'fpefb.cpp'], (), ('-frounding-math',), ('-DVP_ONCE', '-I' + vlib.REPO + '/src'), False)
    with ThreadPoolExecutor(3) as ex:
        f = ex.submit(ctx.build, 'fpe', ['fpe.cpp'], ['core/ekat_fpe.cpp'], ('-frounding-math',), (), False)
        g = ex.submit(fallback)
        ctx.model('FpeMC.tla', 'FpeMC.cfg')
        exes = [f.result()]
        try: exes.append(g.result())
        except vlib.CheckError as e: ctx.notes['fallback_not_built'] = str(e)[-300:]
    def produce():
        return [ctx.drive(x, [], trace=os.path.join(ctx.tdir, 'b%d.ndjson' % i), timeout=240) for i, x in enumerate(exes)]
    ctx.conform('FpeTrace', produce, canary=flip, split=20000)
