from ..gen_synth import synth_suites


def check(ctx):
    synth_suites(ctx, *((6000, 120) if ctx.thorough else (400, 16)))
