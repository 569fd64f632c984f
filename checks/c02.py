from ws import *
MIS = None
def misuse(ctx, edges, init, n):
    """Prefixes that lead to a state of the model, followed by an operation that
    the model forbids there."""
    import re
    # shortest path to every state
    from collections import deque
    adj = {}
    for a, op, b in edges: adj.setdefault(a, []).append((op, b))
    path = {init: []}; q = deque([init])
    while q:
        s = q.popleft()
        for op, b in adj.get(s, ()):
            if b not in path: path[b] = path[s] + [op]; q.append(b)
    states = sorted(path); ctx.rng.shuffle(states)
    res = []; kinds = {}
    for s in states:
        m = re.match(r'<<(\d+), (?:\((.*?)\)|<<(.*?)>>), \{(.*)\}>>$', s)
        head = int(m.group(1)); nxt = {}
        for x in (m.group(2) or '').split(' @@ '):
            if ':>' in x: a, b = x.split(' :> '); nxt[int(a)] = int(b)
        free = []; h = head
        while h < 4 and h >= 0: free.append(h); h = nxt[h]
        live = [(k, int(a), int(b)) for k, b, a in re.findall(r'\[k \|-> "(\w+)", n \|-> (\d+), s \|-> (\d+)\]', m.group(4))]
        assert bool(live) == bool(m.group(4).strip())
        used = set(x for k, a, b in live for x in range(a, a + b))
        dead = [x for x in range(4) if x not in used]
        ever = [x for x in dead if any(re.match(r'(take|many|contig)( \d+)* %d( |$)' % x, o) for o in path[s])]
        cand = []
        if not free: cand += ['take 9', 'macro 9 2', 'many 9 10']
        if len(free) == 1: cand += ['many 9 10', 'contig 9 10', 'macro 9 2', 'macro 9 3']
        if len(free) >= 2 and free[1] != free[0] + 1: cand += ['contig 9 10', 'macro 9 2']
        # a block that was taken singly, released, and whose memory was not reused
        for x in ever: cand.append('stale %d' % x)
        for c in cand:
            k = c.split()[0]
            if kinds.get((k, len(used), len(c.split()))) is None or kinds[(k, len(used), len(c.split()))] < n:
                kinds[(k, len(used), len(c.split()))] = kinds.get((k, len(used), len(c.split())), 0) + 1
                res.append((path[s], c))
    return res

def run(ctx):
    with ThreadPoolExecutor(4) as ex:
        fb = ex.submit(builds, ctx, False)
        fm = ex.submit(ctx.model, 'Workspace.tla', 'Workspace_mc5.cfg' if ctx.thorough else 'Workspace_mc.cfg', 900, 4)
        fw = ex.submit(big, ctx, 2 if not ctx.thorough else 20)
        init, edges = ctx.edges('Workspace.tla', 'Workspace_edges.cfg', timeout=900)
        fm.result(); bins = fb.result(); exe = bins['debug']
    walks, left = tours(init, edges, ctx.rng, 50)
    full = script(ctx, 'tour.txt', walks, 4, [5, 2], report=True)
    some = script(ctx, 'some.txt', merge_random(ctx.rng, edges, init, 40 if not ctx.thorough else 400, 60), 4, [6, 2], report=True)
    large = script(ctx, 'large.txt', fw.result(), 140, [3, 1, 6], report=True)
    cases = misuse(ctx, edges, init, 3 if not ctx.thorough else 20)
    ctx.notes['misuse_cases'] = len(cases)
    def produce():
        tr = [ctx.drive(exe, [full, 'dd', 'own', 1, 1], os.path.join(ctx.tdir, 'full.ndjson'), timeout=200, env=dict(OMP_NUM_THREADS='1')),
              ctx.drive(exe, [some, 'fd', 'user', 1, 1], os.path.join(ctx.tdir, 'some.ndjson'), timeout=200, env=dict(OMP_NUM_THREADS='1')),
              ctx.drive(exe, [some, 'pp', 'own', 1, 1], os.path.join(ctx.tdir, 'some2.ndjson'), timeout=200, env=dict(OMP_NUM_THREADS='1'))]
        tr += [ctx.drive(exe, [large, 'dd', 'own', 1, 1], os.path.join(ctx.tdir, 'large.ndjson'), timeout=200, env=dict(OMP_NUM_THREADS='1'))]
        tr += team_runs(ctx, bins, init, edges, 4)
        def mis(k):
            pre, bad = cases[k]
            sc = os.path.join(ctx.tdir, 'mis%d.txt' % k); t = os.path.join(ctx.tdir, 'mis%d.nd' % k)
            w = bad.split()
            with open(sc, 'w') as f:
                f.write('new 4 5\n' + ''.join(o + '\n' for o in pre) + bad + '\nundiagnosed\n')
            ctx.drive(exe, [sc, 'dd', 'own', 1, 1], t, timeout=60, env=dict(OMP_NUM_THREADS='1'))
            lines = open(t).readlines()
            last = json.loads(lines[-1])
            if last['event'] == 'Crash' and last['rc'] == '-6' and 'KERNEL CHECK FAILED' in last['out']:
                op = 'release' if w[0] == 'stale' else w[0]
                h = [int(w[1])] if op in ('take', 'macro', 'release') else [int(x) for x in w[1:]]
                lines[-1] = json.dumps(dict(event='Diagnosed', by='kernel check', op=op, h=h)) + '\n'
            return lines
        with ThreadPoolExecutor(vlib.NCPU) as ex: all_ = list(ex.map(mis, range(len(cases))))
        t = os.path.join(ctx.tdir, 'misuse.ndjson')
        with open(t, 'w') as f:
            for ls in all_: f.writelines(ls)
        return tr + [t]
    ctx.assumptions = ['a debug build; the report is read from its text']
    def corrupt_name(recs):
        for i, r in enumerate(recs):
            if r.get('names'):
                r['names'][0][1] += 'x'; return recs[:i + 1]
    ctx.conform('WsTrace', produce, cfg='WsTrace2.cfg', canary=corrupt_name)
    sizes_conform(ctx, bins['sizes'])
