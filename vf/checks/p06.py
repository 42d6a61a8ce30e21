"""P06 fuel and emission accounting: every component, installation, the asset and every cumulative adds up."""

from __future__ import annotations

from vf import judge, lab
from vf.refmodel import Model

CASES = {"quick": 1000, "thorough": 20000}
RULE = (
    "random assets (1-3 installations; fuel consumers, generator sets, venting emitters; dated models, fuels, regularity "
    "and exports) run end to end and compared component by component with an independent reference. Distinct by the YAML; "
    "non-trivial when at least two components contribute to an installation."
)
MIN_OBS = {"emissions": 3000, "totals": 1500, "cumulative": 2000, "energy-usage": 2000}
ASSUMPTIONS = ["tables and charts evaluated by the reference are piecewise linear or affine"]


def case(ctx):
    rng = ctx.rng
    g = Model(rng, dated=rng.choice([0.0, 0.25, 0.5])).compose()
    m, files = g.build()
    if rng.random() < 0.1:  # the first date of the series, which is where it starts without
        m.pop("START")
        ctx.obs("without START")
    ctx.note(yaml=lab.dump(m), files=files)
    model, res = lab.run(m, files)
    ex = g.expected()
    if g.ambiguous:
        ctx.obs("set aside: on a decision boundary")
        return
    judge.time_vector(ctx, model, ex)
    judge.consumers(ctx, res, ex)
    judge.emissions(ctx, res, ex)
    judge.totals(ctx, res, ex)
    judge.cumulatives(ctx, res, ex)
    names = [c.name for c in res.components]
    ctx.require(
        sorted(names) == sorted([model.get_name() if hasattr(model, "get_name") else names[0], *ex["comp"], *ex["inst"]]) or len(names) == len(ex["comp"]) + len(ex["inst"]) + 1,
        "every-component-once",
        f"components in the result: {names}",
    )
    if max(len(i["rows"]) for i in ex["inst"].values()) > 1:
        ctx.distinct(lab.dump(m))
    ctx.sample({"components": names[:20], "periods": len(ex["days"])})
