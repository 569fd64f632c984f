# NOTE: random programs (nesting up to 6) of 16 spellings of the checks, debug and release, three threads at a time
import os
from concurrent.futures import ThreadPoolExecutor
def flip(recs):
    for i in range(len(recs) - 1, -1, -1):
        if recs[i]['event'] == 'Check' and recs[i]['out'] == 'throw' and recs[i]['kind'] == 1:
            recs[i]['what'] = recs[i]['what'].replace('cond', 'cand'); return recs[:i + 1]
def run(ctx):
    with ThreadPoolExecutor(3) as ex:
        f = ex.submit(ctx.build, 'chk', ['chk.cpp'], (), (), (), False, True)
        g = ex.submit(ctx.build, 'chkrel', ['chk.cpp'], (), ('-DNDEBUG',), (), False, True)
        ctx.model('ChkMC.tla', 'ChkMC.cfg')
        exes = [f.result(), g.result()]
    def produce():
        with ThreadPoolExecutor(2) as ex:
            return list(ex.map(lambda i: ctx.drive(exes[i], [], trace=os.path.join(ctx.tdir, 'b%d.ndjson' % i), timeout=240), range(2)))
    ctx.conform('ChkTrace', produce, canary=flip, split=9000)
