"""P17 validity is honest: what a machine cannot do is reported as invalid, what it can do is not, and invalid reaches the top."""

from __future__ import annotations

from vf import judge, lab
from vf.refmodel import Model

CASES = {"quick": 1200, "thorough": 20000}
RULE = (
    'random models with every consumer kind driven inside and beyond its limits, run end to end; the validity of every component, model, installation and the asset compared per step with an independent reference; distinct by the YAML'
)
MIN_OBS = {'validity': 8000, 'validity-aggregate': 5000, 'model-result-valid': 5000, 'invalid step seen': 800, 'valid step seen': 3000}
ASSUMPTIONS = ['operating points on a decision boundary (within rounding) are set aside and counted', 'table values are affine in two and three variables, so that every triangulation interpolates alike']


def case(ctx):
    rng = ctx.rng
    g = Model(rng, n=rng.choice([2, 3, 4, 6]), dated=rng.choice([0.0, 0.0, 0.3]))
    g.p_over = rng.choice([0.3, 0.9])
    kind = rng.choice([["tabulated"], ["compressor"], ["pump"], ["system"], ["direct"]])
    g.compose(
        elec_kinds=kind, fuel_kinds=kind if kind != ["pump"] else ["compressor"], n_inst=rng.choice([1, 1, 2]), venting=rng.choice([0, 0, 1]),
        gensets=rng.choice([0, 1, 1]), fuel_consumers=rng.choice([0, 1, 2]), p_reg=0.3,
    )
    m, files = g.build()
    ctx.note(yaml=lab.dump(m), files=files)
    model, res = lab.run(m, files)
    ex = g.expected()
    if g.ambiguous:
        ctx.obs("set aside: on a decision boundary")
        return
    judge.everything(ctx, model, res, ex)
    for e in ex["comp"].values():
        for ok in e["valid"]:
            ctx.obs("valid step seen" if ok else "invalid step seen")
    ctx.distinct(lab.dump(m))
    ctx.sample({"components": [c.name for c in res.components][:12], "valid": list(res.component_result.is_valid.values)})
