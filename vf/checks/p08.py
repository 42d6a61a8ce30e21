"""P08 regularity: between 0 and 1, and consistently applied between stream-day and calendar-day figures."""

from __future__ import annotations

from vf import judge, lab
from vf.refmodel import Model

CASES = {"quick": 1200, "thorough": 20000}
RULE = (
    'random models whose installations all have a (dated, expression, possibly zero) REGULARITY, all consumer kinds with stream-day and calendar-day inputs, run end to end against an independent reference; a third of the cases put the regularity outside 0..1 at one step and must be refused; distinct by the YAML'
)
MIN_OBS = {'totals-regularity': 2000, 'emissions': 4000, 'energy-usage': 4000, 'out-of-range-refused': 150, 'regularity 0 seen': 100}
ASSUMPTIONS = ['operating points on a decision boundary (within rounding) are set aside and counted', 'table values are affine in two and three variables, so that every triangulation interpolates alike']


def refusal(ctx):
    """A regularity outside 0..1 at any step of the run is refused; on or inside the limits it is not."""
    rng = ctx.rng
    g = Model(rng, dated=rng.choice([0.0, 0.5]))
    g.compose(elec_kinds=["direct"], fuel_kinds=["direct"], n_inst=rng.choice([1, 2]), p_reg=0.3)
    m, files = g.build()
    inst = rng.choice(m["INSTALLATIONS"])
    bad = rng.random() < 0.7
    v = rng.choice([1.0001, 1.5, -0.0001, -1, 100, 1 + 1e-7, 95]) if bad else rng.choice([0, 1, 0.5, 1.0, 0.0])
    how = rng.choice(["const", "text", "series", "dated"])
    if how == "const":
        inst["REGULARITY"] = v
    elif how == "text":
        inst["REGULARITY"] = f"{v} {{+}} 0" if v >= 0 else f"0 {{-}} {-v}"
    elif how == "series":
        k = rng.randrange(len(g.file_dates))
        rows = [[d, v if i == k else 0.9] for i, d in enumerate(g.file_dates)]
        files = {**files, "reg.csv": lab.csv_text(["DATE", "R"], rows)}
        m["TIME_SERIES"] = [*m["TIME_SERIES"], {"NAME": "REG", "TYPE": "MISCELLANEOUS", "FILE": "reg.csv", "INTERPOLATION_TYPE": "RIGHT", "EXTRAPOLATION": True}]
        inst["REGULARITY"] = "REG;R"
    else:
        later = [d for d in g.grid[1:-1]]
        inst["REGULARITY"] = {g.start: 0.9, **({rng.choice(later): v} if later else {})} if later else {g.start: v}
    ctx.note(yaml=lab.dump(m), files=files, regularity=v, how=how)
    no, r = lab.refused(lambda: lab.run(m, files))
    if bad:
        ctx.require(no, "out-of-range-refused", f"REGULARITY {v} ({how}) was accepted")
    else:
        ctx.require(not no, "in-range-accepted", f"REGULARITY {v} ({how}) was refused: {r}")
        name = inst["NAME"]
        vals = [c for c in r[1].sub_components if c.name == name][0].regularity.values
        ctx.require(all(0 <= x <= 1 for x in vals), "regularity-range", f"reported regularity {vals}")
    ctx.distinct((lab.dump(m), how))


def case(ctx):
    rng = ctx.rng
    if rng.random() < 0.33:
        return refusal(ctx)
    g = Model(rng, dated=rng.choice([0.0, 0.4, 0.8]))
    g.p_hard = 0.5
    g.compose(p_reg=1.0, n_inst=rng.choice([1, 2]), venting=rng.choice([0, 1, 2]))
    m, files = g.build()
    ctx.note(yaml=lab.dump(m), files=files)
    model, res = lab.run(m, files)
    ex = g.expected()
    if g.ambiguous:
        ctx.obs("set aside: on a decision boundary")
        return
    judge.everything(ctx, model, res, ex)
    for i in ex["inst"].values():
        for q in i["reg"]:
            ctx.obs("regularity 0 seen" if q == 0 else "regularity 1 seen" if q == 1 else "regularity between seen")
    ctx.distinct(lab.dump(m))
