# NOTE: random histories (30 steps, up to 5 loggers at once, sinks shared in chains) on one and two processes; threads only through the thread-safe sinks of the library at hand
import os
from concurrent.futures import ThreadPoolExecutor
import logs
def run(ctx):
    with ThreadPoolExecutor(3) as ex:
        f = ex.submit(logs.serial, ctx)
        g = ex.submit(logs.mpi, ctx)
        ctx.model('LogMC.tla', 'LogMC.cfg')
        ctx.model('LogMC.tla', 'LogMC_share.cfg')
        exe, exe2 = f.result(), g.result()
    def produce():
        with ThreadPoolExecutor(2) as ex2:
            a = ex2.submit(ctx.drive, exe, [os.path.join(ctx.tdir, 'h')], timeout=240)
            b = ex2.submit(logs.ranks, ctx, exe2, 2)
            return [a.result()] + b.result()
    ctx.conform('LogTrace', produce, canary=logs.flip, split=3000)
