from concurrent.futures import ThreadPoolExecutor
def flip(recs):
    for i, r in enumerate(recs):
        if r['event'] in ('Asg', 'Where') and len(r['v']) > 1:
            r['v'][-1] += 16; return recs[:i + 1]
def run(ctx, src):
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(ctx.build, src + o + str(k), [src + '.cpp'], (), (), ('-DPART=%d' % k,), False, True, False, (), '-' + o) for o in ('O2', 'O0') for k in (1, 2, 3)]
        if ctx.thorough: fs.append(ex.submit(ctx.build, src + 'O3', [src + '.cpp'], (), ('-march=native', '-ffp-contract=off'), (), False, True, False, (), '-O3'))
        ctx.model('PackMC.tla', 'PackMC_deep.cfg' if ctx.thorough else 'PackMC.cfg')
        exes = [f.result() for f in fs]
    ctx.conform('PackTrace', lambda: [ctx.drive(e, [], timeout=300) for e in exes], canary=flip, split=6000)
