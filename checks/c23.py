# NOTE: all size combinations of zipped containers, histories of map key iterators under insertions and removals, all sequences of up to 4 of 3 values for the searches
from concurrent.futures import ThreadPoolExecutor
def flip(recs):
    for i in range(len(recs)):
        if recs[i]['event'] == 'Zip' and recs[i]['out']:
            recs[i]['out'][0][0] += 1; return recs[:i + 1]
def run(ctx):
    with ThreadPoolExecutor(2) as ex:
        f = ex.submit(ctx.build, 'cont', ['cont.cpp'], 'core', ('-fsanitize=address,undefined', '-fno-sanitize-recover=all'), (), False)
        ctx.model('ContMC.tla', 'ContMC.cfg')
        exe = f.result()
    ctx.conform('ContTrace', lambda: [ctx.drive(exe, [], timeout=200, env=dict(ASAN_OPTIONS='detect_stack_use_after_return=1:detect_leaks=0'))], canary=flip, split=6000)
