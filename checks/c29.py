# NOTE: all ranges of short arrays, random longer ones; teams of 1-4 and 1-2 leagues; both default modes
from concurrent.futures import ThreadPoolExecutor
def flip(recs):
    for i, r in enumerate(recs):
        if r['event'] == 'View' and r['n'] > 1:
            r['r'][-1] += 1; return recs[:i + 1]
def run(ctx):
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(ctx.build, 'reduce' + t, ['reduce.cpp'], (), (), f, False, True, True, (), o) for t, f, o in (('O0', (), '-O0'), ('par', ('-UEKAT_DEFAULT_BFB', '-DNDEBUG'), '-O2'))]
        ctx.model('ReduceMC.tla', 'ReduceMC_deep.cfg' if ctx.thorough else 'ReduceMC.cfg')
        exes = [f.result() for f in fs]
    ctx.conform('ReduceTrace', lambda: [ctx.drive(e, [], timeout=300, env=dict(OMP_NUM_THREADS=4, OMP_PROC_BIND='false')) for e in exes], canary=flip, split=3000)
