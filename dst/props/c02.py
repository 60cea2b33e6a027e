from .. import symfind

ID = 'C02'
shrink = symfind.shrink


def generate(rng, tier, i):
    plan = symfind.gen_plan(rng, ID)
    plan['entry'] = plan.get('entry') or rng.choice(['direct', 'symmetries'])
    plan['direct'] = rng.random() < .3 and not plan['sparse_linalg']
    return plan


def execute(plan, ctx):
    symfind.run_discrete(plan, ctx, 'complete')
