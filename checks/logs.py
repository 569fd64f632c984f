import os
def flip(recs):
    for i in range(len(recs) - 1, -1, -1):
        r = recs[i]
        if r['event'] == 'Msg' and r['con']:
            r['con'][0] += '!'; return recs[:i + 1]
LIBS = ['-lspdlog', '-lfmt']
def mpi(ctx): return ctx.build('log', ['log.cpp'], ['core/ekat_comm.cpp'], (), (), True, libs=LIBS)
def serial(ctx): return ctx.build('logser', ['log.cpp'], ['core/ekat_comm_serial.cpp'], (), ('-UEKAT_ENABLE_MPI',), False, libs=LIBS)
def ranks(ctx, exe, n):
    """Every rank records a trace of its own."""
    t = os.path.join(ctx.tdir, 'n%d.ndjson' % n)
    for r in range(1, n):
        if os.path.exists(t + '.%d' % r): os.remove(t + '.%d' % r)
    ctx.drive(exe, [os.path.join(ctx.tdir, 'h%d' % n)], trace=t, timeout=240, mpi_ranks=n)
    return [x for x in [t] + [t + '.%d' % r for r in range(1, n)] if os.path.exists(x) and os.path.getsize(x)]
