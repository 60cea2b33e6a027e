from .. import grouptools

ID = 'C12'
shrink = grouptools.shrink


def generate(rng, tier, i):
    return grouptools.generate(rng)


def execute(plan, ctx):
    grouptools.run(plan, ctx)
