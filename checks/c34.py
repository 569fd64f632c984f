# NOTE: every operator within every other at every operand and seeded deeper trees over a term scalar (so for all values); ranks 0..6; every operator over all pairs of 7 number types
import os, hashlib
from concurrent.futures import ThreadPoolExecutor
import exprs
def flip(recs):
    for i, r in enumerate(recs):
        if r['event'] == 'Direct': r['vals'][-1] += '?'; return recs[:i + 1]
        if r['event'] == 'Num': r['r'] += 1; return recs[:i + 1]
def run(ctx):
    seed = int(os.environ.get('VERIF_SEED', '1')); ts = exprs.trees(seed, ctx.thorough); P = 8
    def part(p):
        t = exprs.include(ts[p::P]); d = os.path.join(ctx.work, 'trees-' + hashlib.sha256(t.encode()).hexdigest()[:16]); os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'trees.inc'), 'w').write(t)
        return ctx.build('exprsym%d' % p, ['exprsym.cpp'], ('core/ekat_arch.cpp',), ('-I' + d,) + (('-DNDEBUG',) if p % 2 else ()), ('-DPART=%d' % p,), False, True, True, (), '-O1' if p % 2 else '-O0')
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(part, p) for p in range(P)]
        fs += [ex.submit(ctx.build, 'exprsymr%d' % p, ['exprsym.cpp'], ('core/ekat_arch.cpp',), (), ('-DPART=-%d' % p,), False, True, True, (), '-O0') for p in (3, 2, 1)]
        fs += [ex.submit(ctx.build, 'exprnum-' + t.split()[-1], ['exprnum.cpp'], ('core/ekat_arch.cpp',), (), ('-DTV=' + t,), False, True, True, (), '-O0') for t in ('double', 'float', 'int', 'long', 'short', 'bool', 'signed char')]
        ctx.model('ExprMC.tla', 'ExprMC.cfg', timeout=1500)
        ctx.model('ExprMC.tla', 'ExprMC_deep.cfg', timeout=1500)
        exes = [f.result() for f in fs]
    ctx.conform('ExprTrace', lambda: [ctx.drive(e, [], timeout=300, env=dict(OMP_NUM_THREADS=3, OMP_PROC_BIND='false')) for e in exes], canary=flip, split=4000)
