"""P10 consumer systems: first workable operational setting, crossover, sums over the members."""

from __future__ import annotations

from vf import judge, lab
from vf.refmodel import Model

CASES = {"quick": 1500, "thorough": 25000}
RULE = (
    'random models with compressor and pump systems (1-4 members, 1-4 operational settings, fractions or rates, crossover, dated) run end to end and compared, member by member and step by step, with an independent reference; distinct by the YAML'
)
MIN_OBS = {'operational-setting': 3000, 'model-result-point': 20000, 'setting 1 valid crossover': 40, 'setting 2 valid': 150, 'setting 2 valid crossover': 15}
ASSUMPTIONS = ['operating points on a decision boundary (within rounding) are set aside and counted', 'table values are affine in two and three variables, so that every triangulation interpolates alike']


def case(ctx):
    rng = ctx.rng
    g = Model(rng, n=rng.choice([2, 3, 4, 6]), dated=rng.choice([0.0, 0.0, 0.25, 0.5]))
    if rng.random() < 0.7:
        g.p_cross, g.sys_n, g.genset_n = 0.9, (2, 2, 3, 4), (1,)
    fuel = rng.random() < 0.5
    both = rng.random() < 0.2
    g.compose(
        elec_kinds=["system"], fuel_kinds=["system"], n_inst=1, venting=0, gensets=1 if both or not fuel else 0,
        fuel_consumers=1 if both or fuel else 0, p_reg=0.3,
    )
    m, files = g.build()
    ctx.note(yaml=lab.dump(m), files=files)
    model, res = lab.run(m, files)
    ex = g.expected()
    if g.ambiguous:
        ctx.obs("set aside: on a decision boundary")
        return
    judge.everything(ctx, model, res, ex)
    ctx.distinct(lab.dump(m))
    ctx.sample({"components": [c.name for c in res.components][:12], "periods": len(ex["days"])})
