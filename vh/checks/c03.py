from ..gen_net import *  # noqa: F403


def check(ctx):
    lap_suite(ctx, 8000 if ctx.thorough else 1800, 20000 if ctx.thorough else 600)
