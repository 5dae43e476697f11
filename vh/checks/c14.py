from ..gen_parallel import parallel_suites


def check(ctx):
    parallel_suites(ctx, *((1500, 60, 8, 1200, 1500) if ctx.thorough else (120, 8, 2, 120, 150)))
