# NOTE: schedules: all of TLC's for 3 teams on 2 slots, all prefixes of length 9 for 2 teams on 1 slot, 500 random ones up to 6 teams; real threads: 1 to 9 threads, every team size, both variants. Sequentially consistent memory (x86): weak-memory reorderings are not explored
import os, random
from concurrent.futures import ThreadPoolExecutor
import vlib
def flip(recs):
    for i, r in enumerate(recs):
        if r['event'] == 'Got' and i > 30:
            r['w'] = r['w'] + 1000; return recs[:i + 1]
def run(ctx):
    with ThreadPoolExecutor(8) as ex:
        b1 = ex.submit(ctx.build, 'lock', ['lock.cpp', 'tsanhooks.c'], (), (), ['-fsanitize=thread'], False, True)
        b2 = ex.submit(ctx.build, 'lockomp', ['lockomp.cpp'], (), (), (), False, True)
        b3 = ex.submit(ctx.build, 'lockgpu', ['lockomp.cpp'], (), (), ['-DVP_GPU'], False, True)
        b4 = ex.submit(ctx.build, 'lockfree', ['lock.cpp'], (), (), (), False, True, False, (), '-O1')
        ctx.model('WsLock.tla', 'WsLock_mc.cfg')
        ctx.model('WsLock.tla', 'WsLock_live.cfg')
        init, es = ctx.edges('WsLock.tla', 'WsLock_edges.cfg')
        lock, omp, gpu, free = b1.result(), b2.result(), b3.result(), b4.result()
    walks, left = vlib.tours(init, es, ctx.rng, maxlen=40)
    assert left == 0
    sp = os.path.join(ctx.tdir, 'sched.txt')
    with open(sp, 'w') as f:
        for w in walks:
            # the code has more stops (before the first access) than the model: stretch at random
            for k in range(3):
                f.write(' '.join(x for x in w for _ in range(ctx.rng.randint(1, 1 + k))) + '\n')
    ctx.notes['schedules_from_model'] = 3 * len(walks)
    e8 = dict(OMP_NUM_THREADS=8)
    def produce():
        jobs = [(lock, ['sched', sp], 's.ndjson', 8), (free, ['free'], 'f.ndjson', 8)]
        for n in ([1, 2, 3, 5, 8] if not ctx.thorough else range(1, 17)):
            jobs += [(omp, [], 'o%d.ndjson' % n, n)]
            if n > 1: jobs += [(gpu, [], 'g%d.ndjson' % n, n)]
        with ThreadPoolExecutor(3) as ex:
            return list(ex.map(lambda j: ctx.drive(j[0], j[1], os.path.join(ctx.tdir, j[2]), timeout=100 if not ctx.thorough else 1200, env=dict(OMP_NUM_THREADS=j[3])), jobs))
    ctx.conform('LockTrace', produce, canary=flip, split=15000)
