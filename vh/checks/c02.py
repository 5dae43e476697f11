from ..gen_netcache import netcache_suite
from ..suites_pipeline import pipeline_suite


def check(ctx):
    pipeline_suite(ctx, 400, 8000, 14, facet="fresh")
    netcache_suite(ctx, 6000 if ctx.thorough else 300)
