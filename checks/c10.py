from strs import *
# NOTE: all texts over three letters up to length 5 and random texts; each call compared with the TLA+ operator
def run(ctx): run_mode(ctx, "helpers", "split")
