from .. import persist

ID = 'C18'
BUDGET = False
shrink = persist.shrink


def generate(rng, tier, i):
    return persist.generate(rng)


def execute(plan, ctx):
    persist.run(plan, ctx)
