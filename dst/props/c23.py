from .. import spinmom

ID = 'C23'


def generate(rng, tier, i):
    return spinmom.generate(rng)


def execute(plan, ctx):
    spinmom.run(plan, ctx)
