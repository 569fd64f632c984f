from strs import *
# NOTE: all operand mixes; map histories against the specification state
def run(ctx): run_mode(ctx, "ci cimap", "order")
