from .. import refuse

ID = 'C26'


def generate(rng, tier, i):
    return refuse.generate(rng)


def execute(plan, ctx):
    refuse.run(plan, ctx)
