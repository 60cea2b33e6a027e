from .. import elements

ID = 'C11'
shrink = elements.shrink


def generate(rng, tier, i):
    return elements.generate(rng)


def execute(plan, ctx):
    elements.run(plan, ctx)
