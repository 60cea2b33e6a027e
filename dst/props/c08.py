from .. import families

ID = 'C08'
shrink = families.shrink


def generate(rng, tier, i):
    return families.gen_tools(rng)


def execute(plan, ctx):
    families.run_tools(plan, ctx)
