# NOTE: ranks 0-7 with pack lengths 1-8, random histories; index functions for every length up to 3n+2; debug and NDEBUG
from concurrent.futures import ThreadPoolExecutor
def flip(recs):
    for i, r in enumerate(recs):
        if r['event'] == 'Diff' or r['event'] == 'Dump':
            if r['event'] == 'Diff': r['r'][-1][-1] += 1
            else: r['r'][-1] += 1
            return recs[:i + 1]
def run(ctx):
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(ctx.build, 'layout' + t + str(k), ['layout.cpp'], (), f, ('-DPART=%d' % k,), False, True, True, (), o)
              for t, f, o, ks in (('', (), '-O0', (1, 2, 3)), ('N', ('-DNDEBUG',), '-O2', (3,))) for k in ks]
        ctx.model('LayoutMC.tla', 'LayoutMC_deep.cfg' if ctx.thorough else 'LayoutMC.cfg')
        exes = [f.result() for f in fs]
    ctx.conform('LayoutTrace', lambda: [ctx.drive(e, [], timeout=300) for e in exes], canary=flip, split=6000)
