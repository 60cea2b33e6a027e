from .. import names

ID = 'C21'


def generate(rng, tier, i):
    return names.generate(rng)


def execute(plan, ctx):
    names.run(plan, ctx)
