from .. import rmt

ID = 'C14'
shrink = rmt.shrink


def generate(rng, tier, i):
    return rmt.generate(rng)


def execute(plan, ctx):
    rmt.run(plan, ctx)
