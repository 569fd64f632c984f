from ws import *
def run(ctx):
    with ThreadPoolExecutor(4) as ex:
        fb = ex.submit(builds, ctx)
        fm = ex.submit(ctx.model, 'Workspace.tla', 'Workspace_mc5.cfg' if ctx.thorough else 'Workspace_mc.cfg', 900, 4)
        fw = ex.submit(big, ctx, 2 if not ctx.thorough else 20)
        init, edges = ctx.edges('Workspace.tla', 'Workspace_edges5.cfg' if ctx.thorough else 'Workspace_edges.cfg', timeout=900)
        fm.result(); bins = fb.result()
    cap = 5 if ctx.thorough else 4
    walks, left = tours(init, edges, ctx.rng, 80)
    if left: raise CheckError('tour left %d edges' % left)
    ctx.notes['spec_edges_replayed'] = len(set(edges)); ctx.notes['walks'] = len(walks)
    rnd = merge_random(ctx.rng, edges, init, 40 if not ctx.thorough else 400, 60)
    full = script(ctx, 'tour.txt', walks, cap, [5, 1, 16, 7])
    some = script(ctx, 'some.txt', rnd, cap, [5, 1, 16, 7, 32])
    large = script(ctx, 'large.txt', fw.result(), 140, [3, 1, 6])
    # teams that share one manager: no manager-wide reset inside
    nor = [[o for o in w if o != 'resetmgr'] for w in merge_random(ctx.rng, [e for e in edges if e[1] != 'resetmgr'], init, 25, 40)]
    team = script(ctx, 'team.txt', nor, cap, [5, 8])
    runs = [('debug', 'dd', 'user', 1, 1, full), ('release', 'dd', 'own', 1, 1, full)]
    types = ['ff', 'fd', 'df', 'cc', 'ii', 'pd', 'pp', 'dd']
    for i, t in enumerate(types):
        for j, m in enumerate(('own', 'user')):
            sizes = None
            if ctx.thorough or (i + i // 2 + j) % 2 == 0: runs.append((('debug', 'release')[(i + j) % 2 if ctx.thorough else i % 2], t, m, 1, 1, some))
            if ctx.thorough: runs.append((('debug', 'release')[(i + j + 1) % 2], t, m, 1, 1, some))
    for t in ('dd', 'ff') if not ctx.thorough else types: runs.append((('release', 'debug')[t == 'ff'], t, 'user', 1, 1, large))
    for i, (l, ts) in enumerate([(3, 1), (2, 2), (2, 4), (1, 3), (5, 1)]):
        runs.append((('debug', 'release')[i % 2], 'dd', 'own', l, ts, team))
        if ctx.thorough: runs.append((('debug', 'release')[(i + 1) % 2], 'fd', 'user', l, ts, team))
    # blocks of element types wider than 8 bytes or smaller: even sizes so that views of wider type exist
    def produce():
        def one(k):
            b, t, m, l, ts, sc = runs[k]
            return ctx.drive(bins[b], [sc, t, m, l, ts], os.path.join(ctx.tdir, 'r%d.ndjson' % k), timeout=200,
                             env=dict(OMP_NUM_THREADS=str(max(1, l * ts)) if l * ts > 1 else '1'))
        with ThreadPoolExecutor(4) as ex:
            r = list(ex.map(one, range(len(runs))))
        return r + team_runs(ctx, bins, init, edges, cap)
    ctx.assumptions = ['requests respect the documented preconditions (contiguous requests only where the free list is contiguous)',
                       'LIFO reuse decides only which requests are legal, not which block is returned']
    ctx.conform('WsTrace', produce, cfg='WsTrace1.cfg', canary=corrupt)
    sizes_conform(ctx, bins['sizes'])
