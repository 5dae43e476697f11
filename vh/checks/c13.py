from ..gen_store import store_suite


def check(ctx):
    store_suite(ctx, 3000 if ctx.thorough else 500)
