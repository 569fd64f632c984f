# NOTE: the same histories on the serial implementation and on one MPI process, both checked against the same specification of collectives
import os, comms
from concurrent.futures import ThreadPoolExecutor
def run(ctx):
    with ThreadPoolExecutor(3) as ex:
        f = ex.submit(comms.mpi, ctx); g = ex.submit(comms.serial, ctx)
        ctx.model('CommMC.tla', 'CommMC.cfg')
        m, s = f.result(), g.result()
    def produce():
        return [ctx.drive(s, [], trace=os.path.join(ctx.tdir, 'serial.ndjson'), timeout=120),
                ctx.drive(m, [], trace=os.path.join(ctx.tdir, 'mpi1.ndjson'), timeout=120, mpi_ranks=1)]
    ctx.conform('CommTrace', produce, canary=comms.flip, split=100000)
