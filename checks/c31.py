# NOTE: bisection and pieces exhaustive on small grids; real interpolation exact for all grids in 0..5 and seeded ones, pack lengths 1..16, six ways of running it
from concurrent.futures import ThreadPoolExecutor
def flip(recs):
    for i, r in enumerate(recs):
        if r['event'] == 'Interp': r['y2'][-1] += 1; return recs[:i + 1]
def run(ctx):
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(ctx.build, 'interp%s%d' % (t, p), ['interp.cpp'], ('core/ekat_arch.cpp',), f, ('-DPART=%d' % p,), False, True, True, (), o) for p in (0, 1, 2) for t, f, o in (('O0', (), '-O0'), ('O2', ('-DNDEBUG',), '-O2'))]
        ctx.model('InterpMC.tla', 'InterpMC_deep.cfg' if ctx.thorough else 'InterpMC.cfg', timeout=1500)
        ctx.model('InterpMC.tla', 'InterpMC_two.cfg', timeout=1500)
        exes = [f.result() for f in fs]
    ctx.conform('InterpTrace', lambda: [ctx.drive(e, [], timeout=300, env=dict(OMP_NUM_THREADS=5, OMP_PROC_BIND='false')) for e in exes], canary=flip, split=2000)
