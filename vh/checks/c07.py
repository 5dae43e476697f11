from ..gen_sparse import sparse_suites


def check(ctx):
    if ctx.thorough:
        sparse_suites(ctx, 20000, 10000)
    else:
        sparse_suites(ctx, 1500, 600)
