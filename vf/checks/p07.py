"""P07 electricity balance: generator set power, fuel, capacity margin and validity."""

from __future__ import annotations

from vf import judge, lab
from vf.refmodel import Model

CASES = {"quick": 1000, "thorough": 20000}
RULE = (
    'random models with 1-3 generator sets of 1-5 electricity consumers (dated generator models, negative and zero loads, loads beyond capacity) run end to end against an independent reference; distinct by the YAML'
)
MIN_OBS = {'generator-set-margin': 1500, 'power': 5000, 'energy-usage': 5000}
ASSUMPTIONS = ['operating points on a decision boundary (within rounding) are set aside and counted']


def case(ctx):
    rng = ctx.rng
    g = Model(rng, dated=rng.choice([0.0, 0.25, 0.6]))
    g.genset_n = (1, 2, 3, 5)
    kinds = rng.choice([["direct"], ["direct"], ["direct", "tabulated", "compressor"], None])
    g.compose(elec_kinds=kinds, n_inst=rng.choice([1, 1, 2]), venting=0, gensets=rng.choice([1, 1, 2, 3]), fuel_consumers=0)
    m, files = g.build()
    ctx.note(yaml=lab.dump(m), files=files)
    model, res = lab.run(m, files)
    ex = g.expected()
    if g.ambiguous:
        ctx.obs("set aside: on a decision boundary")
        return
    judge.everything(ctx, model, res, ex)
    ctx.distinct(lab.dump(m))
    ctx.sample({"components": [c.name for c in res.components][:12], "periods": len(ex["days"])})
