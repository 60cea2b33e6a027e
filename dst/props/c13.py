from .. import lattice

ID = 'C13'
shrink = lattice.shrink


def generate(rng, tier, i):
    return lattice.generate(rng)


def execute(plan, ctx):
    lattice.run(plan, ctx)
