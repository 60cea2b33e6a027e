from .. import families

ID = 'C07'
shrink = families.shrink


def generate(rng, tier, i):
    return families.gen_pairing(rng)


def execute(plan, ctx):
    families.run_pairing(plan, ctx)
