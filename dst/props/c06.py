from .. import families

ID = 'C06'
shrink = families.shrink


def generate(rng, tier, i):
    return families.gen_bloch(rng)


def execute(plan, ctx):
    families.run_bloch(plan, ctx)
