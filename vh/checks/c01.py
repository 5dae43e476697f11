from ..suites_pipeline import pipeline_suite


def check(ctx):
    pipeline_suite(ctx, 600, 12000, 14, facet="structure")
