def flip(recs):
    for i in range(len(recs) - 1, -1, -1):
        r = recs[i]
        if r['event'] == 'Reduce' and r['count'] and r['op'] == 'sum' and any(r['out']):
            k = [x for x in range(len(r['out'])) if r['out'][x]][0]
            r['out'][k][0] += 1; return recs[:i + 1]
def mpi(ctx): return ctx.build('comm', ['comm.cpp'], COMM, (), ['-DEKAT_ENABLE_MPI'], True)
def serial(ctx): return ctx.build('commser', ['comm.cpp'], ['core/ekat_comm_serial.cpp'], (), ('-UEKAT_ENABLE_MPI',), False)
COMM = ['core/ekat_comm.cpp']
