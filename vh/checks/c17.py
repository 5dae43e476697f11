from ..gen_statetrack import track_suites


def check(ctx):
    track_suites(ctx, *((20000, 4, 2) if ctx.thorough else (2500, 3, 2)))
