from .. import linear

ID = 'C25'


def generate(rng, tier, i):
    return linear.generate(rng)


def execute(plan, ctx):
    linear.run(plan, ctx)
