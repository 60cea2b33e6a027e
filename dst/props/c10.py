from .. import convert

ID = 'C10'
shrink = convert.shrink_chain


def generate(rng, tier, i):
    return convert.gen_chain(rng)


def execute(plan, ctx):
    convert.run_chain(plan, ctx)
