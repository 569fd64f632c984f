"""C09..C12: the string helpers."""
import os
from concurrent.futures import ThreadPoolExecutor
import vlib

def flip(recs, key='r', skip=0):
    """Change one recorded result."""
    for i in range(len(recs) - 1, -1, -1):
        r = recs[i]; v = r.get(key)
        if r.get('err') or v is None: continue
        if isinstance(v, bool): r[key] = not v
        elif isinstance(v, int): r[key] = v + 1000000
        elif isinstance(v, list): r[key] = v + [v[0] if v and isinstance(v[0], (list, dict)) else ([] if not v else v[0])]
        else: continue
        return recs[:i + 1]
    return None

def run_mode(ctx, modes, model):
    exe = None
    with ThreadPoolExecutor(3) as ex:
        f = ex.submit(ctx.build, 'strings', ['strings.cpp'], 'core', (), (), False)
        ctx.model('TextMC.tla', 'TextMC_%s.cfg' % model, timeout=800, workers=4)
        exe = f.result()
    def produce():
        return [ctx.drive(exe, [m], os.path.join(ctx.tdir, m + '.ndjson'), timeout=60 if not ctx.thorough else 600) for m in modes.split()]
    ctx.conform('TextTrace', produce, canary=flip, split=8000)
