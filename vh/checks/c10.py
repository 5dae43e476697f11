from ..gen_cluster import louvain_suites


def check(ctx):
    louvain_suites(ctx, *((12000, 600) if ctx.thorough else (2600, 200)))
