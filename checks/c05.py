# NOTE: all histories of 3 operations over an alphabet of 18 on two trees (half of them in the quick tier), random ones of 30 operations on three trees of depth up to 2 and 11 value types
from concurrent.futures import ThreadPoolExecutor
def flip(recs):
    for i in range(len(recs) - 1, -1, -1):
        if recs[i]['event'] == 'Set':
            recs[i]['dump'][recs[i]['l'] - 1]['n'] += 'x'; return recs[:i + 1]
def run(ctx):
    with ThreadPoolExecutor(2) as ex:
        f = ex.submit(ctx.build, 'plist', ['plist.cpp'], 'core', (), (), False)
        ctx.model('ParamListMC.tla', 'ParamListMC.cfg')
        exe = f.result()
    ctx.conform('ParamListTrace', lambda: [ctx.drive(exe, [], timeout=200)], canary=flip, split=3000)
