"""P09 venting emitters: every emission of every emitter is rate x factor, converted and added up."""

from __future__ import annotations

from vf import judge, lab
from vf.refmodel import Model

CASES = {"quick": 1000, "thorough": 20000}
RULE = (
    'random models with 1-4 venting emitters (direct emissions and oil volumes, conditions, units, day types, duplicate names) run end to end against an independent reference; distinct by the YAML'
)
MIN_OBS = {'emissions': 3000, 'totals-emissions': 5000}
ASSUMPTIONS = []


def case(ctx):
    rng = ctx.rng
    g = Model(rng, dated=rng.choice([0.0, 0.25, 0.6]), zero=0.2)
    g.compose(fuel_kinds=["direct"], n_inst=rng.choice([1, 1, 2]), venting=rng.choice([1, 2, 4]), gensets=0, fuel_consumers=rng.choice([0, 0, 1]), p_reg=0.8)
    m, files = g.build()
    ctx.note(yaml=lab.dump(m), files=files)
    model, res = lab.run(m, files)
    ex = g.expected()
    if g.ambiguous:
        ctx.obs("set aside: on a decision boundary")
        return
    judge.everything(ctx, model, res, ex)
    ctx.distinct(lab.dump(m))
    ctx.sample({"components": [c.name for c in res.components][:12], "periods": len(ex["days"])})
