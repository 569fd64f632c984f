# NOTE: all placements of the dimensions to rank 4 and seeded ones to rank 8, extents 0..3; dense, strided, LayoutLeft, const and fixed-size sources; host and kernel access
from concurrent.futures import ThreadPoolExecutor
def flip(recs):
    for i, r in enumerate(recs):
        if r['event'] == 'Look' and r['addr']: r['addr'][-1] += 1; return recs[:i + 1]
def run(ctx):
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(ctx.build, 'bcast%s%d' % (t, a), ['bcast.cpp'], ('core/ekat_arch.cpp',), f, ('-DMINF=%d' % a, '-DMAXF=%d' % b, '-DTV=' + v, '-DCV=' + c), False, True, True, (), o)
              for a, b, v, c in ((1, 1, 'int', 'int'), (2, 2, 'double', 'const double'), (3, 3, 'ekat::Pack<float,2>', 'ekat::Pack<float,2>'), (4, 8, 'char', 'const char')) for t, f, o in (('O0', (), '-O0'), ('O2', ('-DNDEBUG',), '-O1'))]
        ctx.model('BroadcastMC.tla', 'BroadcastMC_deep.cfg' if ctx.thorough else 'BroadcastMC.cfg', timeout=1500)
        exes = [f.result() for f in fs]
    ctx.conform('BroadcastTrace', lambda: [ctx.drive(e, [], timeout=300, env=dict(OMP_NUM_THREADS=2, OMP_PROC_BIND='false')) for e in exes], canary=flip, split=6000)
