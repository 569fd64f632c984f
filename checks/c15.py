# NOTE: 1 to 6 processes (1 to 10 in the thorough tier): every operation x type x in place or not, every root, and random histories over up to 12 communicators from nested splits; interleavings are those of the MPI library at hand
from concurrent.futures import ThreadPoolExecutor
import os, comms
def run(ctx):
    with ThreadPoolExecutor(2) as ex:
        f = ex.submit(comms.mpi, ctx)
        ctx.model('CommMC.tla', 'CommMC.cfg')
        exe = f.result()
    ctx.assumptions.append('the MPI library implements its standard; values are exact in the types used')
    ranks = range(1, 11) if ctx.thorough else [1, 2, 3, 4, 5, 6]
    def produce():
        def one(n): return ctx.drive(exe, [], trace=os.path.join(ctx.tdir, 'n%d.ndjson' % n), timeout=240, mpi_ranks=n)
        with ThreadPoolExecutor(2) as ex:
            return list(ex.map(one, ranks))
    ctx.conform('CommTrace', produce, canary=comms.flip, split=100000)
