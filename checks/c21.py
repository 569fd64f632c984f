# NOTE: every list of up to 3 of 20 arguments, random ones of up to 7; runs of a test program (serial and 1 to 3 ranks) and of the launcher with a command that reports what it got
import os, json, sys, shutil
from concurrent.futures import ThreadPoolExecutor
import vlib
def flip(recs):
    for i in range(len(recs) - 1, -1, -1):
        if recs[i]['event'] == 'Parse' and recs[i].get('vec') and not recs[i]['err']:
            recs[i]['vec'][0][1].append([97]); return recs[:i + 1]
def codes(s): return [ord(c) for c in s]
def mains(ctx, exe):
    out = []
    jobs = []
    customs = [[], ['--args'], ['--args', '-x'], ['--args', '-x', '1', '--y=2,3'], ['--args', '--args', 'a'], ['--args', 'x'], ['--args', '-a=b=c'], ['--args', '-a', 'b', '-a', 'c', '-f'], ['--args', '-x=b', 'c'], ['--args', '-r', 'xml']]
    k = 0
    for c in customs:
        for named in ([], ['a'], ['b'], ['a', 'c']):
            for fails in ([], ['a'], ['b', 'c']):
                k += 1
                if not ctx.thorough and k % 2: continue
                pre = [','.join(named)] if named else []
                if k % 3 == 0: pre = ['-r', 'compact'] + pre
                if k % 3 == 1: pre = pre + ['-d', 'yes']
                jobs.append((k, pre, c, named, fails))
    def one(j):
        k, pre, c, named, fails = j
        t = os.path.join(ctx.tdir, 'm%d' % k); open(t, 'w').close()
        rc, o = vlib.sh([exe] + pre + c, timeout=100, env=dict(VP_TRACE=t, VP_FAIL=','.join(fails), VP_HOW=['check', 'throw', 'many'][k % 3], OMP_NUM_THREADS='2'))
        rs = [json.loads(l) for l in open(t)]
        os.remove(t)
        custom = c[1:] if c else []
        r = dict(event='Main', custom=[codes(x) for x in custom], named=named, fails=fails, ran=[x['name'] for x in rs], status=rc if isinstance(rc, int) else 999,
                 flags=rs[0]['flags'] if rs else [], vec=rs[0]['vec'] if rs else [], params=rs[0]['params'] if rs else [])
        return r
    with ThreadPoolExecutor(6) as ex: return list(ex.map(one, jobs))
def ranks(ctx, exe):
    def one(j):
        n, f = j
        rc, o = vlib.sh(['mpiexec', '--oversubscribe', '--bind-to', 'none', '-n', str(n), exe, '--args', '-x', '1'], timeout=100,
                        env=dict(VP_TRACE='/dev/null', VP_FAIL='b' if f else '', VP_RANKS=','.join(map(str, f)), OMP_NUM_THREADS='1'))
        return dict(event='Ranks', n=n, failing=f, status=rc if isinstance(rc, int) else 0)
    with ThreadPoolExecutor(2) as ex: return list(ex.map(one, [(1, []), (1, [0]), (2, []), (2, [1]), (3, [0]), (3, [2]), (3, [5])]))
def launches(ctx):
    d = os.path.join(ctx.tdir, 'launch'); shutil.rmtree(d, ignore_errors=True); os.makedirs(os.path.join(d, 'bin'), exist_ok=True)
    src = open(os.path.join(vlib.REPO, 'bin', 'test-launcher')).read()
    py = sys.executable or '/usr/bin/python3'
    def put(p, s):
        with open(p, 'w') as f: f.write(s)
        os.chmod(p, 0o755)
    put(os.path.join(d, 'bin', 'taskset'), '#!/bin/sh\nshift\necho "$1" >> "$VP_OUT.cpus"\nshift\nexec "$@"\n')
    # the command: reports its arguments and the environment, then ends as asked
    put(os.path.join(d, 'cmd'), '#!%s\nimport os,sys,json\no=os.environ["VP_OUT"]\nopen(o,"a").write(json.dumps(dict(argv=sys.argv[1:],bind=os.environ.get("OMP_PROC_BIND",""),places=os.environ.get("OMP_PLACES",""),aff=os.environ.get("OMP_DISPLAY_AFFINITY","")))+"\\n")\nprint("said-on-stdout",flush=True)\nsys.stderr.write("said-on-stderr\\n")\nsys.stderr.flush()\nc=int(os.environ["VP_CODE"])\nif c<0: os.kill(os.getpid(),-c)\nsys.exit(c)\n' % py)
    res = []; jobs = []
    groups = [[], [[0, 1, 2, 3]], [[4, 5], [6, 7]], [[1, 3]], [[2]], [[0, 1, 2]]]
    k = 0
    for manage in (False, True):
        for gpu in (False, True):
            for g in (groups if manage else [[]]):
                for n, rank in ((1, 0), (2, 0), (2, 1), (4, 3)):
                    for opt in ([], ['-b'], ['-p'], ['-b', '-p']):
                        for code in (0, 1, 2, 3, 77, 128, 255, -9, -6):
                            k += 1
                            h = ctx.rng.random()
                            if h > (0.5 if ctx.thorough else 0.06 if manage else 0.2): continue
                            jobs.append((k, manage, gpu, g, n, rank, opt, code, ctx.rng.randrange(4), ctx.rng.randrange(3), ctx.rng.randrange(14) == 0))
    def one(j):
        k, manage, gpu, g, n, rank, opt, code, args, sets, nocmd = j
        text = src.replace('${EKAT_MPIRUN_COMM_WORLD_SIZE}', 'VP_SIZE').replace('${EKAT_MPIRUN_COMM_WORLD_RANK}', 'VP_RANK') \
                  .replace('${TEST_LAUNCHER_MANAGE_RESOURCES}', str(manage)).replace('${TEST_LAUNCHER_ON_GPU}', str(gpu))
        p = os.path.join(d, 'launcher-%s-%s' % (manage, gpu))
        if not os.path.exists(p): put(p + '.%d' % k, text); os.rename(p + '.%d' % k, p)
        o = os.path.join(d, 'o%d' % k)
        env = {a: b for a, b in os.environ.items() if not a.startswith('OMP') and not a.startswith('CTEST')}
        env.update(VP_OUT=o, VP_CODE=str(code), PATH=os.path.join(d, 'bin') + ':' + os.environ['PATH'])
        if n > 1: env.update(VP_SIZE=str(n), VP_RANK=str(rank))
        sb = ['', 'close', 'false'][sets]; sp = ['', 'cores', ''][sets]
        if sb: env['OMP_PROC_BIND'] = sb
        if sp: env['OMP_PLACES'] = sp
        if g:
            env['CTEST_RESOURCE_GROUP_COUNT'] = str(len(g))
            for i, ids in enumerate(g):
                env['CTEST_RESOURCE_GROUP_%d' % i] = 'devices'
                env['CTEST_RESOURCE_GROUP_%d_DEVICES' % i] = ';'.join('id:%d,slots:1' % x for x in reversed(ids))
        given = [[], ['-x', '1'], ['a', '--args', '-k=v'], ['t1', '-b']][args]
        import subprocess
        cmd = [py, p] + opt + ['--'] + ([] if nocmd else [os.path.join(d, 'cmd')] + given)
        try:
            pr = subprocess.run(cmd, env=env, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
            status, out = pr.returncode, pr.stdout.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired: status, out = 124, ''
        rs = [json.loads(l) for l in open(o)] if os.path.exists(o) else []
        def cpus(l):    # a CPU list, with ranges; anything else names no CPU
            r = []
            for x in l.strip().split(','):
                t = x.split('-'); r += list(range(int(t[0]), int(t[-1]) + 1)) if all(u.isdigit() for u in t) and len(t) < 3 else [-1]
            return r
        cp = [cpus(l) for l in open(o + '.cpus')] if os.path.exists(o + '.cpus') else []
        per = len(g[rank % len(g)]) if g else 0
        badres = bool(manage and g and (per % n or (gpu and per // n != 1)))
        return dict(event='Launch', manage=manage, gpu=gpu, groups=g, n=n, rank=rank, p='-p' in opt, b='-b' in opt, code=code, nocmd=nocmd, badres=badres, given=given,
                    setbind=sb, setplaces=sp, status=status, runs=len(rs), argv=rs[0]['argv'] if rs else [], bind=rs[0]['bind'] if rs else '',
                    places=rs[0]['places'] if rs else '', affinity=rs[0]['aff'] if rs else '', shown='said-on-stdout' in out and 'said-on-stderr' in out, cpus=cp[0] if cp else [])
    with ThreadPoolExecutor(6) as ex: return list(ex.map(one, jobs))
def run(ctx):
    lib = ['-lCatch2']
    with ThreadPoolExecutor(4) as ex:
        a = ex.submit(ctx.build, 'args', ['args.cpp'], 'core', (), (), False)
        b = ex.submit(ctx.build, 'sess', ['sess.cpp'], [s for s in vlib.core_src()] + ['core/ekat_comm_serial.cpp', 'kokkos/ekat_kokkos_session.cpp', 'testing-support/ekat_catch_main.cpp', 'testing-support/ekat_test_session.cpp'], (), (), False, True, libs=lib)
        c = ex.submit(ctx.build, 'sessmpi', ['sess.cpp'], [s for s in vlib.core_src()] + ['core/ekat_comm.cpp', 'testing-support/ekat_catch_main.cpp', 'testing-support/ekat_test_session.cpp'], (), (), True, False, libs=lib)
        ctx.model('ArgsMC.tla', 'ArgsMC.cfg')
        exe, ses, sesm = a.result(), b.result(), c.result()
    state = ctx.rng.getstate()
    def produce():
        ctx.rng.setstate(state)
        with ThreadPoolExecutor(4) as ex:
            p = ex.submit(ctx.drive, exe, [], timeout=120)
            q = ex.submit(mains, ctx, ses); r = ex.submit(ranks, ctx, sesm); s = ex.submit(launches, ctx)
            t = os.path.join(ctx.tdir, 'runs.ndjson')
            with open(t, 'w') as f:
                for x in q.result() + r.result() + s.result(): f.write(json.dumps(x) + '\n')
            return [p.result(), t]
    ctx.conform('ArgsTrace', produce, canary=flip, split=3000)
