from ..gen_net import *  # noqa: F403


def check(ctx):
    construct_suite(ctx, 9000 if ctx.thorough else 1800, 20000 if ctx.thorough else 600)
    static_suite(ctx, 6000 if ctx.thorough else 1200)
