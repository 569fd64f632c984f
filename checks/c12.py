from strs import *
# NOTE: scores compared with exact fractions to 6 or more digits where the denominators allow it
def run(ctx): run_mode(ctx, "score", "score")
