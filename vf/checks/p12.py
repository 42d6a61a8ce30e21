"""P12 pumps: head, power, efficiency and validity follow from the pump chart."""

from __future__ import annotations

from vf import judge, lab
from vf.refmodel import Model

CASES = {"quick": 1000, "thorough": 20000}
RULE = (
    'random models with single- and variable-speed pumps (random charts, units, head margins, densities) run end to end against an independent chart reference; distinct by the YAML'
)
MIN_OBS = {'pump-operating-point': 5000, 'power': 3000, 'validity': 3000}
ASSUMPTIONS = ['operating points on a decision boundary (within rounding) are set aside and counted']


def case(ctx):
    rng = ctx.rng
    g = Model(rng, dated=rng.choice([0.0, 0.0, 0.25]))
    g.compose(elec_kinds=["pump"], n_inst=1, venting=0, gensets=1, fuel_consumers=0)
    m, files = g.build()
    ctx.note(yaml=lab.dump(m), files=files)
    model, res = lab.run(m, files)
    ex = g.expected()
    if g.ambiguous:
        ctx.obs("set aside: on a decision boundary")
        return
    judge.everything(ctx, model, res, ex)
    ctx.distinct(lab.dump(m))
    ctx.sample({"components": [c.name for c in res.components][:12], "periods": len(ex["days"])})
