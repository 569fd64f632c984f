# NOTE: every text of up to 4 characters over the alphabet of numbers (5 in the thorough tier), every listed text under every quoting and tag, all pairs of 15 kinds of sequence entries, 700 random documents (block and flow style, comments, anchors, nesting 3)
from concurrent.futures import ThreadPoolExecutor
import yamlc
def run(ctx):
    with ThreadPoolExecutor(2) as ex:
        f = ex.submit(yamlc.build, ctx)
        ctx.model('YamlMC.tla', 'YamlMC.cfg')
        exe = f.result()
    ctx.assumptions.append('yaml-cpp tokenises documents correctly; text is ASCII')
    ctx.conform('YamlTrace', lambda: [ctx.drive(exe, ['parse'], timeout=200, cwd=ctx.tdir)], canary=yamlc.flip('Parse'), split=500)
