# NOTE: 350 random histories (3000 in the thorough tier) of stores into three lists, writes to and reads from two files; reals compared to the 14 digits written
from concurrent.futures import ThreadPoolExecutor
import yamlc
def run(ctx):
    with ThreadPoolExecutor(2) as ex:
        f = ex.submit(yamlc.build, ctx)
        ctx.model('ParamListMC.tla', 'ParamListMC.cfg')
        exe = f.result()
    ctx.assumptions.append('reals are finite; text is valid UTF-8')
    ctx.conform('YamlTrace', lambda: [ctx.drive(exe, ['files'], timeout=200, cwd=ctx.tdir)], canary=yamlc.flip('Load'), split=600)
