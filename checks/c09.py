from strs import *
# NOTE: every text over {[ ] , a} up to length 6 and every character, plus random lists of all bracket kinds, parsed by the real code and by the specification
def run(ctx): run_mode(ctx, "nested", "nested")
