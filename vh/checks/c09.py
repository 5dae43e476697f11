from ..gen_cluster import partition_suites


def check(ctx):
    partition_suites(ctx, *((4000, 4000, 8000) if ctx.thorough else (500, 500, 1000)))
