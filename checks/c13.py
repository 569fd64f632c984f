# NOTE: all numerators and denominators up to 40 in size, all operand pairs up to 5, and random ones up to 61 bits whose intermediate products overflow although the result fits; checked with exact integer arithmetic; results that do not fit the 64-bit type are outside the property
from concurrent.futures import ThreadPoolExecutor
from strs import flip
def run(ctx):
    with ThreadPoolExecutor(2) as ex:
        f = ex.submit(ctx.build, 'rational', ['rational.cpp'], (), (), (), False)
        ctx.model('RatMC.tla', 'RatMC.cfg')
        exe = f.result()
    ctx.conform('RatTrace', lambda: [ctx.drive(exe, [], timeout=120)], canary=flip, split=6000)
