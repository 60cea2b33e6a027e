from .. import reduce

ID = 'C22'


def generate(rng, tier, i):
    return reduce.generate(rng)


def execute(plan, ctx):
    reduce.run(plan, ctx)
