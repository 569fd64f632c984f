# NOTE: every predefined unit, prefix and pair, and random histories of 26 operations; scalings over the primes 2,3,5,7,73,193 with exponents up to 400 in size and root denominators; equality at any size, products whose exact values fit 58 bits
from concurrent.futures import ThreadPoolExecutor
def flip(recs):
    for i in range(len(recs) - 1, -1, -1):
        if recs[i].get('si'):
            recs[i]['si'] = recs[i]['si'] + [32, 109]      # one factor more
            return recs[:i + 1]
def run(ctx):
    with ThreadPoolExecutor(2) as ex:
        f = ex.submit(ctx.build, 'units', ['units.cpp'], 'core', (), (), False)
        ctx.model('UnitsMC.tla', 'UnitsMC.cfg')
        exe = f.result()
    ctx.conform('UnitsTrace', lambda: [ctx.drive(exe, [], timeout=200)], canary=flip, split=500)
