# NOTE: every fixed index, range and small shape over ranks 1..6 with extents 1..4, also subviews of subviews (padded parents) up to depth 3
from concurrent.futures import ThreadPoolExecutor
def flip(recs):
    for i, r in enumerate(recs):
        if r['event'] == 'Second': r['addr'][-1] += 1; return recs[:i + 1]
def run(ctx):
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(ctx.build, 'subview%s%d' % (t, p), ['subview.cpp'], ('core/ekat_arch.cpp',), f, ('-DPART=%d' % p,), False, True, False, (), o) for p in (0, 1, 2) for t, f, o in (('O0', (), '-O0'), ('O2', ('-DNDEBUG',), '-O2'))]
        ctx.model('SubviewMC.tla', 'SubviewMC_deep.cfg' if ctx.thorough else 'SubviewMC.cfg', timeout=1500)
        exes = [f.result() for f in fs]
    ctx.conform('SubviewTrace', lambda: [ctx.drive(e, [], timeout=300, env=dict(OMP_NUM_THREADS=2, OMP_PROC_BIND='false')) for e in exes], canary=flip, split=6000)
