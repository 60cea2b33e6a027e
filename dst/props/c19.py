from .. import version as V

ID = 'C19'
BUDGET = False
shrink = V.shrink


def generate(rng, tier, i):
    return V.generate(rng)


def execute(plan, ctx):
    V.run(plan, ctx)
