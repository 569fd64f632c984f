# NOTE: every list of up to 4 of 3 types, every map from such keys to 2 value types, every type of up to 4 constructors over 4 bases; programs that must not compile
import os, json, itertools
from concurrent.futures import ThreadPoolExecutor
import vlib
def flip(recs):
    for i in range(len(recs)):
        if recs[i]['event'] == 'List' and len(recs[i]['ts']) > 2:
            recs[i]['pos'][1] += 1; return recs[:i + 1]
def programs(ctx):
    T = ['int', 'float', 'char']; jobs = []
    for ks, vs in ((['int', 'float'], ['int', 'int']), (['int', 'int'], ['int', 'float']), (['int', 'float', 'int'], ['int'] * 3), (['float', 'int', 'int'], ['int'] * 3), (['int', 'float'], ['int']),
                   (['int'], ['int', 'int']), ([], []), ([], ['int']), (['int', 'float', 'char'], ['float'] * 3), (['char'], ['char']), (['int', 'float', 'char', 'float'], ['int'] * 4)):
        for at in [''] + (T if ctx.thorough or len(ks) in (1, 2) else []): jobs.append((ks, vs, at))
    d = os.path.join(ctx.tdir, 'prog'); os.makedirs(d, exist_ok=True)
    def one(ij):
        i, (ks, vs, at) = ij; p = os.path.join(d, '%d.cpp' % i)
        open(p, 'w').write('#include "ekat_meta_utils.hpp"\nusing M=ekat::TypeMap<ekat::TypeList<%s>,ekat::TypeList<%s>>;\nint main() { M m; %s return M::size>99; }\n' % (','.join(ks), ','.join(vs), 'm.at<%s>()=0;' % at if at else ''))
        rc, out = vlib.sh(['g++', '-std=gnu++17', '-fsyntax-only', '-w', '-I%s/src/core' % vlib.REPO, p], timeout=60)
        return dict(event='Program', ks=ks, vs=vs, at=at, compiles=rc == 0)
    with ThreadPoolExecutor(6) as ex: return list(ex.map(one, enumerate(jobs)))
def run(ctx):
    with ThreadPoolExecutor(3) as ex:
        f = ex.submit(ctx.build, 'types', ['types.cpp'], 'core', (), (), False, True, True)
        g = ex.submit(programs, ctx)
        ctx.model('TypesMC.tla', 'TypesMC.cfg')
        exe = f.result(); recs = g.result()
    def produce():
        t = ctx.drive(exe, [], timeout=200); p = os.path.join(ctx.tdir, 'programs.ndjson')
        open(p, 'w').write(''.join(json.dumps(r) + '\n' for r in recs))
        return [t, p]
    ctx.conform('TypesTrace', produce, canary=flip, split=6000)
