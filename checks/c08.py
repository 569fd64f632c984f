# NOTE: all histories of 3 operations over 14 (4 in the thorough tier), random ones of 40 over five factory types (key types, pointer types, creator arguments)
from concurrent.futures import ThreadPoolExecutor
def flip(recs):
    for i in range(len(recs) - 1, -1, -1):
        if recs[i]['event'] == 'Create' and not recs[i]['err']:
            recs[i]['c'] = recs[i]['c'] % 3 + 1; return recs[:i + 1]
def run(ctx):
    with ThreadPoolExecutor(2) as ex:
        f = ex.submit(ctx.build, 'factory', ['factory.cpp'], 'core', (), (), False)
        ctx.model('FactoryMC.tla', 'FactoryMC.cfg')
        exe = f.result()
    ctx.conform('FactoryTrace', lambda: [ctx.drive(exe, [], timeout=200)], canary=flip, split=6000)
