# NOTE: 1 to 4 ranks (1 to 7 in the thorough tier), every rank with files of its own directory; rotation with messages of up to 9 MB
from concurrent.futures import ThreadPoolExecutor
import logs
def run(ctx):
    with ThreadPoolExecutor(3) as ex:
        f = ex.submit(logs.mpi, ctx)
        ctx.model('LogMC.tla', 'LogMC.cfg')
        exe = f.result()
    def produce():
        with ThreadPoolExecutor(2) as ex:
            return sum(ex.map(lambda n: logs.ranks(ctx, exe, n), range(1, 8) if ctx.thorough else range(1, 5)), [])
    ctx.conform('LogTrace', produce, canary=logs.flip, split=3000)
