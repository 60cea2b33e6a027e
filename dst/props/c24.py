from .. import texts

ID = 'C24'


def generate(rng, tier, i):
    return texts.generate(rng)


def execute(plan, ctx):
    texts.run(plan, ctx)
