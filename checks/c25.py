# NOTE: pack lengths 1..16, int/float/double in all pairings, at -O0 and -O2; seeded histories with exactly representable values, special values lane against scalar
import packs
def run(ctx): packs.run(ctx, "pack")
