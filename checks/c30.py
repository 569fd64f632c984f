# NOTE: exact solution over a finite field on every kind of schedule of a simulated team, races per phase; real teams, numbers, packs
from concurrent.futures import ThreadPoolExecutor
def flip(recs):
    for i, r in enumerate(recs):
        if r['event'] == 'Solve' and r['n'] > 2:
            r['x'][-1][0] += 1; return recs[:i + 1]
def run(ctx):
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(ctx.build, 'tridiag' + t, ['tridiag.cpp'], (), f, (), False, True, True, (), o) for t, f, o in (('O0', (), '-O0'), ('O2', ('-DNDEBUG',), '-O2'))]
        ctx.model('TridiagMC.tla', 'TridiagMC_deep.cfg' if ctx.thorough else 'TridiagMC.cfg', timeout=1500)
        if ctx.thorough: ctx.model('TridiagMC.tla', 'TridiagMC_p5.cfg', timeout=1500)
        exes = [f.result() for f in fs]
    ctx.conform('TridiagTrace', lambda: [ctx.drive(e, [], timeout=300, env=dict(OMP_NUM_THREADS=5, OMP_PROC_BIND='false')) for e in exes], canary=flip, split=2000)
