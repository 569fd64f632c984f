"""C01 and C02: one specification, one driver."""
import os, json, random
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import tours, CheckError

def builds(ctx, both=True):
    jobs = {'debug': []}
    if both: jobs['release'] = ['-DNDEBUG']
    with ThreadPoolExecutor(5) as ex:
        ft = {k: ex.submit(ctx.build, 'wsteam-' + k, ['wsteam.cpp', 'tsanhooks.c'], mpi=False, kokkos=True, defs=jobs[k] + ['-fsanitize=thread']) for k in jobs}
        fbig = ex.submit(ctx.build, 'wsbig', ['wsbig.cpp'], mpi=False, kokkos=True, defs=['-DNDEBUG'])
        r = dict(zip(jobs, ex.map(lambda k: ctx.build('ws-' + k, ['ws.cpp'], mpi=False, kokkos=True, defs=jobs[k]), jobs)))
    r['sizes'] = fbig.result()
    for k in ft: r['team-' + k] = ft[k].result()
    return r

def script(ctx, name, walks, cap, sizes, report=False):
    p = os.path.join(ctx.tdir, name)
    with open(p, 'w') as f:
        for i, w in enumerate(walks):
            f.write('new %d %d\n' % (cap, sizes[i % len(sizes)]))
            for k, op in enumerate(w):
                f.write(op + '\n')
                if report and k % 7 == 6: f.write('report\n')
            if report: f.write('report\n')
    return p

def big(ctx, n):
    """Walks of the same specification with 140 blocks, from TLC's simulation."""
    rc, out = ctx.tlc('WorkspaceBig.tla', 'WorkspaceBig.cfg', timeout=600, extra=['-simulate', 'num=%d' % n, '-depth', '242', '-seed', str(ctx.seed * 31 + 7)])
    w = [json.loads(json.loads(l)[2:]) for l in out.splitlines() if l.startswith('"W~')]
    if rc != 0 or len(w) != n: raise CheckError('simulation of WorkspaceBig failed (rc %s):\n%s' % (rc, out[-3000:]))
    return w

def merge_random(rng, edges, init, n, length):
    adj = {}
    for a, op, b in edges: adj.setdefault(a, []).append((op, b))
    res = []
    for _ in range(n):
        s = init; w = []
        for _ in range(length):
            op, s = rng.choice(adj[s]); w.append(op)
        res.append(w)
    return res

def sizes(ctx, n):
    """Managers of every size, also beyond what 31 bits count; the memory is only
    touched at the ends of the blocks."""
    ts = dict(double=8, float=4, char=1, short=2, pack=32)
    ls = []
    for k in range(n):
        t = ctx.rng.choice(sorted(ts)); s = ctx.rng.choice([1, 2, 3, 7, 8, 100, 4095, 65536, 100003]); c = ctx.rng.randint(1, 9); l = ctx.rng.choice([1, 1, 2, 3, 5])
        ls.append((t, s, c, l, c))
    # about 2.2, 2.2, 2.8, 4.4 and 3.2 GB; the last with more elements than 31 bits count
    ls += [('double', 70000000, 4, 1, 4), ('float', 140000000, 4, 1, 4), ('char', 700000000, 4, 1, 4), ('pack', 15000003, 9, 1, 9), ('short', 800000000, 2, 1, 2), ('char', 800000000, 4, 1, 4)]
    p = os.path.join(ctx.tdir, 'sizes.txt')
    with open(p, 'w') as f:
        for x in ls: f.write('big %s %d %d %d %d\n' % x)
    return p

def sizes_conform(ctx, exe):
    sc = sizes(ctx, 40 if not ctx.thorough else 400)
    def wrong(recs):
        recs[3]['off'][0] = recs[3]['bytes']; return recs[:4]
    ctx.conform('WsBytes', lambda: [ctx.drive(exe, [sc], os.path.join(ctx.tdir, 'sizes.ndjson'), timeout=300, env=dict(OMP_NUM_THREADS='3'))], canary=wrong)

def corrupt(recs):
    """Move one block onto another live one."""
    out = []; live = []
    for r in recs:
        if r['event'] in ('New', 'Reset', 'TakeAndReset', 'ResetManager'): live = []
        if r['event'] == 'Take' and live:
            r = dict(r, off=[live[0]] + r['off'][1:]); out.append(r); return out
        if r['event'] == 'Take': live += r['off']
        if r['event'] == 'Release': live = []
        out.append(r)
    return None

def team_runs(ctx, bins, init, edges, cap, few=False):
    """The same operations by teams whose threads are interleaved at every access to the
    manager's memory, without barriers other than the operations' own."""
    es = [e for e in edges if e[1] != 'resetmgr']
    walks, left = tours(init, es, ctx.rng, 60)
    if left: raise CheckError('tour left %d edges' % left)
    rnd = merge_random(ctx.rng, es, init, 15 if not ctx.thorough else 150, 50)
    n = 0; runs = []
    full = script(ctx, 'steam.txt', walks, cap, [5, 8, 2]); some = script(ctx, 'steamr.txt', rnd, cap, [6, 3, 16])
    for i, b in enumerate(x for x in ('release', 'debug') if 'team-' + x in bins):
        runs.append((b, 'dd', (2, 3)[i], 1, 1, full))
        for t, ts, mode in (('dd', 2, 0), ('dd', 3, 1), ('fd', 3, 2), ('dd', 4, 2), ('cc', 2, 2), ('pp', 2, 2)):
            for s in range(1, 4 if mode == 2 and ctx.thorough else 2): runs.append((b, t, ts, mode, s + n % 3, some)); n += 1
    def one(k):
        b, t, ts, mode, s, sc = runs[k]
        return ctx.drive(bins['team-' + b], [sc, t, ts, mode, s + 100 * ctx.seed], os.path.join(ctx.tdir, 'st%d.ndjson' % k), timeout=200, env=dict(OMP_NUM_THREADS='1'))
    with ThreadPoolExecutor(4) as ex: return list(ex.map(one, range(len(runs))))
