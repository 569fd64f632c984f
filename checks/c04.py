# NOTE: host, GPU-mimicking and GPU variants (the latter compiled for the host); level counts 1..300, thread counts 1..64; leagues of at least one team, teams not larger than the threads there are
import os
from concurrent.futures import ThreadPoolExecutor
def flip(recs):
    for i in range(len(recs) - 1, -1, -1):
        if 'team' in recs[i]: recs[i]['team'] += 32; return recs[:i + 1]
def run(ctx):
    with ThreadPoolExecutor(8) as ex:
        B = lambda n, s, d: ex.submit(ctx.build, n, [s], (), (), d, False, True)
        bs = [B('szhost', 'sizing.cpp', []), B('szmimic', 'sizing.cpp', ['-DVP_MIMIC']), B('szgpu', 'sizing.cpp', ['-DVP_GPU']), B('sz2host', 'sizing2.cpp', []), B('sz2gpu', 'sizing2.cpp', ['-DVP_GPU'])]
        ctx.model('SizingMC.tla', 'SizingMC.cfg')
        ths = [1, 2, 3, 5, 8, 13, 64] if not ctx.thorough else list(range(1, 33)) + [64, 128]
        jobs = [(b.result(), th) for b in bs for th in ths if th > 1 or b is not bs[4]]
    def produce():
        with ThreadPoolExecutor(6) as ex:
            ts = list(ex.map(lambda j: ctx.drive(j[1][0], [], os.path.join(ctx.tdir, 's%d.ndjson' % j[0]), env=dict(OMP_NUM_THREADS=j[1][1]), timeout=200), enumerate(jobs)))
        # one file: the records have no state
        one = os.path.join(ctx.tdir, 'all.ndjson')
        with open(one, 'w') as f:
            for t in ts: f.write(open(t).read())
        return [one]
    ctx.conform('SizingTrace', produce, canary=flip, split=8000)
