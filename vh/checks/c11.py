from ..gen_flow import flow_suites


def check(ctx):
    flow_suites(ctx, *((15000, 1500) if ctx.thorough else (2600, 200)))
