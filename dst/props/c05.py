from .. import families

ID = 'C05'
shrink = families.shrink


def generate(rng, tier, i):
    return families.gen_continuum(rng)


def execute(plan, ctx):
    families.run_continuum(plan, ctx)
