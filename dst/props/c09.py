from .. import models

ID = 'C09'
shrink = models.shrink_algebra


def generate(rng, tier, i):
    return models.gen_algebra(rng)


def execute(plan, ctx):
    models.run_algebra(plan, ctx)
