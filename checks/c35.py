# NOTE: both variants, the one for GPUs compiled for the host with a stand-in for the device space; NaN, infinities, signed zeros, ties; arrays beyond 2^31 elements
from concurrent.futures import ThreadPoolExecutor
def flip(recs):
    for i, r in enumerate(recs):
        if r['event'] == 'Upper': r['r'] += 1; return recs[:i + 1]
def run(ctx):
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(ctx.build, 'search-%s%s' % (v, o), ['search.cpp'], ('core/ekat_arch.cpp',), g, f, False, True, True, (), o)
              for v, g in (('host', ()), ('gpu', ('-DGPUV',))) for o, f in (('-O0', ()), ('-O2', ('-DNDEBUG',)))]
        for a in ('upper', 'max', 'text', 'flat'): ctx.model('SearchMC.tla', 'SearchMC_%s%s.cfg' % (a, '_deep' if ctx.thorough else ''), timeout=1500)
        exes = [f.result() for f in fs]
    ctx.conform('SearchTrace', lambda: [ctx.drive(e, [], timeout=300, env=dict(OMP_NUM_THREADS=2, OMP_PROC_BIND='false')) for e in exes], canary=flip, split=6000)
