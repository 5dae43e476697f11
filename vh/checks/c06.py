from ..gen_net import *  # noqa: F403


def check(ctx):
    cumul_suite(ctx, 12000 if ctx.thorough else 1500)
