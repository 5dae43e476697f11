from ..gen_cluster import quality_suites


def check(ctx):
    quality_suites(ctx, *((12000, 12000, 4000) if ctx.thorough else (900, 900, 300)))
