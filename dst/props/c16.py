from .. import failures

ID = 'C16'
STEADY = True         # positions inside a run are counted in steps
BUDGET = False
shrink = failures.shrink


def generate(rng, tier, i):
    return failures.generate(rng)


def execute(plan, ctx):
    failures.run(plan, ctx)
