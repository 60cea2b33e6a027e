from .. import concurrent

ID = 'C15'
STEADY = True         # positions inside a run are counted in steps
BUDGET = False
shrink = concurrent.shrink


def generate(rng, tier, i):
    return concurrent.generate(rng)


def execute(plan, ctx):
    concurrent.run(plan, ctx)
