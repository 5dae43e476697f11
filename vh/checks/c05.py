from ..gen_net import inter_suite
from ..gen_parallel import serial_suites


def check(ctx):
    inter_suite(ctx, 12000 if ctx.thorough else 1500)
    serial_suites(ctx, *((3000, 60, 60) if ctx.thorough else (300, 6, 8)))
