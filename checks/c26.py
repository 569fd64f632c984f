# NOTE: every mask for lengths up to 4, seeded for 8 and 16; -O0 and -O2; where on packs and scalars
import packs
def run(ctx): packs.run(ctx, "packmask")
