"""P03 time-dependent input: each value applies from its date until the next one, and nothing else changes."""

from __future__ import annotations

from vf import judge, lab
from vf.refmodel import Model

CASES = {"quick": 600, "thorough": 10000}
RULE = (
    'random models with date keys almost everywhere (fuel, consumer models, generator models, regularity, export, categories, variables), run end to end against an independent reference; rerun with an extra irrelevant date (results must not change), and with other START/END; distinct by the YAML'
)
MIN_OBS = {'time-vector': 400, 'energy-usage': 8000, 'emissions': 8000, 'extra-date': 200, 'other-window': 200}
ASSUMPTIONS = ['operating points on a decision boundary (within rounding) are set aside and counted', 'table values are affine in two and three variables, so that every triangulation interpolates alike']


def snapshot(res):
    """{component: {series: value at each start}}"""
    out = {}
    for c in res.components:
        starts = [p.start for p in c.periods.periods]
        row = {
            "energy": dict(zip(starts, c.energy_usage.values)),
            "valid": dict(zip(starts, c.is_valid.values)),
        }
        if c.power is not None:
            row["power"] = dict(zip(starts, c.power.values))
        for n, e in c.emissions.items():
            row["em_" + n] = dict(zip(starts, e.rate.values))
        out[c.name] = row
    return out


def total(res):
    c = res.component_result
    return {n: e.cumulative.values[-1] for n, e in c.emissions.items()}


def case(ctx):
    rng = ctx.rng
    g = Model(rng, n=rng.choice([3, 4, 6, 8]), dated=rng.choice([0.6, 0.9]))
    g.compose(n_inst=rng.choice([1, 1, 2]), fuel_consumers=rng.choice([0, 1, 2]), gensets=rng.choice([0, 1, 1]))
    m, files = g.build()
    if rng.random() < 0.1:  # the first date of the series, which is where it starts without
        m.pop("START")
        ctx.obs("without START")
    ctx.note(yaml=lab.dump(m), files=files)
    model, res = lab.run(m, files)
    ex = g.expected()
    if g.ambiguous:
        ctx.obs("set aside: on a decision boundary")
        return
    judge.everything(ctx, model, res, ex)
    ctx.distinct(lab.dump(m))
    ctx.obs("date keys", len(g.used))
    k = rng.random()
    if k < 0.4:
        # a date that changes nothing splits a period and changes no value
        days = (g.end - g.start).days
        extra = g.start + (g.end - g.start) * rng.random()
        extra = extra.replace(hour=0, minute=0, second=0, microsecond=0)
        if days < 3 or extra in g.used or extra <= g.start:
            return
        m2 = {**m, "VARIABLES": {**m.get("VARIABLES", {}), "unusedvar": {g.start: {"VALUE": 1}, extra: {"VALUE": 2}}}}
        ctx.note(extra=str(extra))
        model2, res2 = lab.run(m2, files)
        g.used.add(extra)
        ex2 = g.expected()
        judge.everything(ctx, model2, res2, ex2)
        a, b = snapshot(res), snapshot(res2)
        ctx.require(set(a) == set(b), "extra-date", "components differ after adding an irrelevant date")
        for name, row in a.items():
            for key, vals in row.items():
                for t, v in vals.items():
                    w = b[name].get(key, {}).get(t)
                    ctx.require(w is not None and (w == v or (w != w and v != v) or abs(w - v) <= 1e-9 * max(abs(v), abs(w))), "extra-date", f"{key} of {name} at {t}: {v} became {w} after adding an irrelevant date {extra}")
        for n, v in total(res).items():
            w = total(res2)[n]
            ctx.require(v != v or abs(w - v) <= 1e-7 * max(abs(v), 1e-9), "extra-date", f"total {n}: {v} became {w}")
    elif k < 0.85:
        # another window: the same dates apply
        tv = g.tv()
        pts = sorted({*tv, *g.grid, g.start + (g.end - g.start) / 3, g.start + (g.end - g.start) * 0.7})
        pts = sorted({d.replace(hour=0, minute=0, second=0, microsecond=0) for d in pts})
        i = rng.randrange(len(pts) - 1)
        j = rng.randrange(i + 1, len(pts))
        old = (g.start, g.end)
        g.start, g.end = pts[i], pts[j]
        g.used |= {g.start, g.end}
        m2 = {**m, "START": g.start, "END": g.end}
        ctx.note(window=(str(g.start), str(g.end)), yaml2=lab.dump(m2))
        ex2 = g.expected()
        if g.ambiguous:
            return
        no, r = lab.refused(lambda: lab.run(m2, files))
        if ex2["refused"]:
            ctx.require(no, "half-active-genset", "a generator set without consumers, or consumers without a generator set, were accepted")
            return
        ctx.require(not no, "other-window-accepted", f"refused with another window: {r}")
        model2, res2 = r
        judge.everything(ctx, model2, res2, ex2)
        ctx.obs("other-window")
        ctx.sample({"window": [str(g.start), str(g.end)], "of": [str(d) for d in old]})
