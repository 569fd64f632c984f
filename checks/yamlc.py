import vlib, glob, os
SRC = vlib.core_src() + ['parser/' + os.path.basename(p) for p in sorted(glob.glob(vlib.REPO + '/src/parser/*.cpp'))]
def build(ctx):
    return ctx.build('yaml', ['yaml.cpp'], SRC, (), (), False, libs=('-lyaml-cpp',))
def flip(ev):
    def f(recs):
        for i in range(len(recs) - 1, -1, -1):
            r = recs[i]
            if r['event'] != ev or r['err']: continue
            d = r['dump'] if ev == 'Parse' else r['dump'][r['l'] - 1]
            if d['p']:
                k = sorted(d['p'])[0]; d['p'][k]['ty'] += 'x'; return recs[:i + 1]
    return f
