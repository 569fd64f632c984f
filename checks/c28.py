# NOTE: ranks 1-3, packs of 1-16, random histories over three host arrays and three views, under AddressSanitizer
from concurrent.futures import ThreadPoolExecutor
def flip(recs):
    for i, r in enumerate(recs):
        if r['event'] == 'D2H':
            r['h'][0][0] += 1; return recs[:i + 1]
def run(ctx):
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(ctx.build, 'xfer%d' % k, ['xfer.cpp'], (), ('-fsanitize=address',), ('-DPART=%d' % k,), False, True, True, (), '-O0') for k in (1, 2, 3)]
        ctx.model('XferMC.tla', 'XferMC_deep.cfg' if ctx.thorough else 'XferMC.cfg')
        exes = [f.result() for f in fs]
    ctx.conform('XferTrace', lambda: [ctx.drive(e, [], timeout=300, env=dict(ASAN_OPTIONS='detect_leaks=0')) for e in exes], canary=flip, split=300)
