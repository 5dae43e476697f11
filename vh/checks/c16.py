from ..gen_static import static_suites


def check(ctx):
    static_suites(ctx, *((12000, 300) if ctx.thorough else (2500, 100)))
