from .. import history

ID = 'C20'
STEADY = True         # positions inside a run are counted in steps
BUDGET = False
shrink = history.shrink


def generate(rng, tier, i):
    return history.generate(rng)


def execute(plan, ctx):
    history.run(plan, ctx)
