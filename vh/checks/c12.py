from ..gen_compare import compare_suites


def check(ctx):
    compare_suites(ctx, *((8000, 4000, 8000) if ctx.thorough else (500, 300, 600)))
