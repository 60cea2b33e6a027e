from .. import arguments

ID = 'C17'
BUDGET = False
shrink = arguments.shrink


def generate(rng, tier, i):
    return arguments.generate(rng)


def execute(plan, ctx):
    arguments.run(plan, ctx)
