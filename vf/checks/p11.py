"""P11 tabulated consumers and sampled compressors: interpolation inside, documented behaviour outside the table."""

from __future__ import annotations

import math

import numpy as np
from shapely.geometry import LineString, MultiPoint, Point

from libecalc.common.energy_usage_type import EnergyUsageType
from libecalc.domain.process.compressor.core.sampled import CompressorModelSampled
from vf import judge, lab
from vf.core import is_close
from vf.refmodel import Model, interp

CASES = {"quick": 2400, "thorough": 45000}
RULE = (
    'random models with tabulated consumers and sampled compressors (1-3 variables, constant columns, fuel and/or power) evaluated inside and outside their tables, end to end, against an independent reference; distinct by the YAML'
)
MIN_OBS = {'table-point': 20000, 'max-rate-value': 3000, 'table-sample': 3000, 'table-invalid': 3000, 'table-limit': 500, 'max-rate': 3000, 'energy-usage': 8000, 'validity': 8000, 'model-result': 15000, 'model-result-point': 8000}
ASSUMPTIONS = ['operating points on a decision boundary (within rounding) are set aside and counted', 'table values are affine in two and three variables, so that every triangulation interpolates alike']


class Axis:
    """One variable of a table: which side is refused, which side is evaluated on the limit."""

    def __init__(self, name, lo, hi):
        self.name, self.lo, self.hi = name, lo, hi
        self.up = name != "ps"  # rate and pd: raised up to the table from below; ps: choked down to it from above


def polygon(rng, a, b):
    pts = [(a.lo, b.lo), (a.hi, b.hi)]
    shape = rng.choice(["box", "box", "any", "slanted"])
    if shape == "box":
        pts += [(a.lo, b.hi), (a.hi, b.lo)]
    elif shape == "slanted":
        pts += [(a.lo + 0.2 * (a.hi - a.lo), b.hi), (a.hi - 0.3 * (a.hi - a.lo), b.lo)]
    k = rng.randrange(0, 4) if shape in ("box", "slanted") else rng.randrange(3, 9)
    pts += [(rng.uniform(a.lo, a.hi), rng.uniform(b.lo, b.hi)) for _ in range(k)]
    return list(dict.fromkeys(pts))


def limits(hull, fixed_axis, v):
    """Smallest and largest other coordinate of the hull at the given value of one coordinate (clamped into the hull)."""
    x0, y0, x1, y1 = hull.bounds
    lo, hi = (x0, x1) if fixed_axis == 0 else (y0, y1)
    v = min(max(v, lo), hi)
    ring = list(hull.exterior.coords)
    other = []
    for p, q in zip(ring[:-1], ring[1:]):
        a, b = (p, q) if p[fixed_axis] <= q[fixed_axis] else (q, p)
        if a[fixed_axis] <= v <= b[fixed_axis]:
            if a[fixed_axis] == b[fixed_axis]:
                other += [a[1 - fixed_axis], b[1 - fixed_axis]]
            else:
                w = (v - a[fixed_axis]) / (b[fixed_axis] - a[fixed_axis])
                other.append(a[1 - fixed_axis] + w * (b[1 - fixed_axis] - a[1 - fixed_axis]))
    return min(other), max(other)


def case_table(ctx):
    """One sampled compressor, driven with many operating points in and around its table."""
    rng = ctx.rng
    small = rng.choice([1, 1, 1, 1e-4])
    full = {
        "rate": Axis("rate", rng.uniform(1e4, 1e5) * small, rng.uniform(5e5, 2e6) * small),
        "ps": Axis("ps", rng.uniform(5, 20), rng.uniform(25, 50)),
        "pd": Axis("pd", rng.uniform(60, 80), rng.uniform(100, 200)),
    }
    vary = sorted(rng.sample(list(full), rng.choice([1, 2, 2, 3])), key=list(full).index)
    const = {n: rng.choice([full[n].lo, full[n].hi, round(full[n].hi)]) for n in full if n not in vary and rng.random() < 0.6}
    coef = {"rate": rng.uniform(5, 20) / full["rate"].hi, "ps": -rng.uniform(0.01, 0.1), "pd": rng.uniform(0.01, 0.1)}
    c0 = rng.uniform(6, 20)
    affine = rng.random() < 0.7 or len(vary) == 3
    hull = None
    if len(vary) == 1:
        a = full[vary[0]]
        pts = [(x,) for x in sorted({a.lo, a.hi, *(rng.uniform(a.lo, a.hi) for _ in range(rng.randrange(0, 5)))})]
    elif len(vary) == 2:
        pts = polygon(rng, full[vary[0]], full[vary[1]])
        hull = MultiPoint(pts).convex_hull
        if hull.geom_type != "Polygon" or hull.area < 0.05 * (full[vary[0]].hi - full[vary[0]].lo) * (full[vary[1]].hi - full[vary[1]].lo):
            ctx.obs("set aside: flat table")
            return
    else:
        pts = [(x, y, z) for x in (full["rate"].lo, full["rate"].hi) for y in (full["ps"].lo, full["ps"].hi) for z in (full["pd"].lo, full["pd"].hi)]
        pts += [tuple(rng.uniform(full[n].lo, full[n].hi) for n in vary) for _ in range(rng.randrange(0, 6))]
    rng.shuffle(pts)
    energy = [c0 + sum(coef[n] * v for n, v in zip(vary, p)) for p in pts]
    if not affine:
        energy = [e * rng.uniform(0.5, 1.5) for e in energy]
    fuel = rng.random() < 0.5
    both = fuel and rng.random() < 0.4 and len(set(energy)) == len(energy)
    cols = {n: [p[i] for p in pts] for i, n in enumerate(vary)}
    cols.update({n: [v] * len(pts) for n, v in const.items()})
    m = CompressorModelSampled(
        energy_usage_type=EnergyUsageType.FUEL if fuel else EnergyUsageType.POWER, energy_usage_values=list(energy),
        rate_values=cols.get("rate"), suction_pressure_values=cols.get("ps"), discharge_pressure_values=cols.get("pd"),
        power_interpolation_values=[e * 0.6 + 1 for e in energy] if both else None,
    )
    ctx.note(vary=vary, const=const, points=pts, energy=energy, fuel=fuel)
    ctx.distinct((tuple(vary), tuple(sorted(const)), affine, fuel, both, len(pts), ctx.index))
    lims = {n: full[n] for n in vary}

    def point():
        q = {}
        for n in full:
            a = full[n]
            lo, hi = (a.lo, a.hi) if n in vary else (const.get(n, a.lo), const.get(n, a.hi))
            k = rng.random()
            if k < 0.5:
                v = rng.uniform(lo, hi) if hi > lo else lo * rng.choice([0.7, 1.0, 1.3])
            elif k < 0.8:
                v = rng.choice([lo, hi]) * (1 + rng.choice([-1, 1]) * rng.choice([2e-3, 5e-3, 0.02, 0.1]))
            elif k < 0.9 and n in vary:
                v = rng.choice(pts)[vary.index(n)]
            else:
                v = rng.uniform(0.5 * lo, 1.3 * hi)
            q[n] = 0.0 if n == "rate" and rng.random() < 0.04 else v
        return q

    queries = [point() for _ in range(40)]
    for p in rng.sample(pts, min(len(pts), 6)):  # the samples themselves
        q = point()
        if len(vary) == 2:  # a sample at a corner of the table is approached from within: the corner itself is a matter of rounding
            c = (hull.centroid.x, hull.centroid.y)
            p2 = [a + 1e-8 * (b - a) for a, b in zip(p, c)]
        elif len(vary) == 3:
            p2 = [a + 2e-4 * ((full[n].lo + full[n].hi) / 2 - a) for n, a in zip(vary, p)]
        else:
            p2 = p
        q.update(dict(zip(vary, p2)))
        q.update(const)
        queries.append({**q, "sample": pts.index(p)})

    def expect(q):
        """-> (energy or nan or (low, high), kind) or None when on a decision boundary"""
        if q["rate"] <= 0:
            return 0.0, "zero-rate"
        bad = False
        for n, k in const.items():
            v = q[n]
            if abs(v - k) <= 1e-6 * k and v != k or (v == k and n == "rate" and False):
                return None
            bad = bad or (v < k if n == "ps" else v > k)
        if bad:
            return math.nan, "invalid"
        if len(vary) == 1:
            (n,) = vary
            a, v = full[n], q[n]
            beyond = v > a.hi if a.up else v < a.lo
            edge = a.hi if a.up else a.lo
            if v != edge and abs(v - edge) <= 1e-6 * edge:
                return None
            if beyond:
                return math.nan, "invalid"
            o = sorted(range(len(pts)), key=lambda i: pts[i][0])
            kind = "limit" if not a.lo <= v <= a.hi else "point"
            return interp([pts[i][0] for i in o], [energy[i] for i in o], min(max(v, a.lo), a.hi)), kind
        if len(vary) == 2:
            x, y = q[vary[0]], q[vary[1]]
            # first the one, then the other variable is brought up (or choked down) to the table
            if vary == ["ps", "pd"]:
                yp = max(y, limits(hull, 0, x)[0])
                xp = min(x, limits(hull, 1, yp)[1])
            else:
                xp = max(x, limits(hull, 1, y)[0])
                lo, hi = limits(hull, 0, xp)
                yp = max(y, lo) if vary[1] == "pd" else min(y, hi)
            sx, sy = full[vary[0]].hi, full[vary[1]].hi
            scaled = MultiPoint([(a / sx, b / sy) for a, b in pts]).convex_hull
            p = Point(xp / sx, yp / sy)
            moved = (xp, yp) != (x, y)
            if "sample" in q:
                return energy[q["sample"]], "sample"
            if p.distance(scaled.exterior) < 1e-6 and not (moved and p.distance(scaled) < 1e-12):
                return None
            if not scaled.covers(p) and p.distance(scaled) > 1e-9:
                return math.nan, "invalid"
            if moved and p.distance(scaled.exterior) < 1e-9:
                return None if not box2 else (c0 + coef[vary[0]] * xp + coef[vary[1]] * yp, "limit") if affine else None
            if affine:
                return c0 + coef[vary[0]] * xp + coef[vary[1]] * yp, "limit" if moved else "point"
            return (min(energy), max(energy)), "point"
        r, s, d = (full[n] for n in ("rate", "ps", "pd"))
        if "sample" in q:
            return energy[q["sample"]], "sample"
        for v, e in ((q["rate"], r.hi), (q["ps"], s.lo), (q["pd"], d.hi)):
            if v != e and abs(v - e) <= 1.1e-4 * e:
                return None
        if q["rate"] > r.hi or q["ps"] < s.lo or q["pd"] > d.hi:
            return math.nan, "invalid"
        p = (max(q["rate"], r.lo), min(q["ps"], s.hi), max(q["pd"], d.lo))
        kind = "limit" if p != (q["rate"], q["ps"], q["pd"]) else "point"
        return c0 + sum(coef[n] * v for n, v in zip(vary, p)), kind

    box2 = len(vary) == 2 and all(c in set(pts) for c in [(a, b) for a in (full[vary[0]].lo, full[vary[0]].hi) for b in (full[vary[1]].lo, full[vary[1]].hi)])
    R, S, D = (np.array([q[n] for q in queries]) for n in ("rate", "ps", "pd"))
    m.set_evaluation_input(rate=R.copy(), fluid_model=None, suction_pressure=S.copy(), discharge_pressure=D.copy())
    res = m.evaluate()
    er = res.get_energy_result()
    got, ok = list(er.energy_usage.values), list(er.is_valid)
    power = list(er.power.values) if er.power is not None else None
    ctx.require(len(got) == len(queries) == len(ok), "length", "one result per operating point")
    for i, q in enumerate(queries):
        want = expect(q)
        if want is None:
            ctx.obs("set aside: on a decision boundary")
            continue
        e, kind = want
        ctx.obs(f"table-{kind}")
        what = {n: q[n] for n in full}
        if isinstance(e, float) and math.isnan(e):
            if not math.isnan(got[i]) or ok[i]:
                ctx.violation("table-invalid", f"{what} outside the table gives {got[i]} valid={ok[i]}")
            continue
        if not ok[i]:
            ctx.violation("table-valid", f"{what} is within the table but invalid, expected {e}")
            continue
        if isinstance(e, tuple):
            ctx.require(e[0] * (1 - 1e-9) <= got[i] <= e[1] * (1 + 1e-9), "table-bounds", f"{what} gives {got[i]}, outside the tabulated values {e}")
        else:
            tol = 1e-6
            slack = 2e-4 * sum(abs(coef[n]) * full[n].hi for n in vary) if len(vary) == 3 else 1e-9
            ctx.require(is_close(got[i], e, tol, slack), "table-value", f"{what} gives {got[i]}, expected {e} ({kind})", expected=e)
            if not fuel:
                ctx.require(is_close(power[i], got[i], 1e-9, 1e-12), "table-power", f"{what}: power {power[i]} is not the energy usage {got[i]}")
            elif both and kind != "zero-rate" and got[i] > min(energy) * (1 + 1e-9):
                ctx.require(is_close(power[i], got[i] * 0.6 + 1, tol, slack + 1e-6), "table-power", f"{what}: power {power[i]} for fuel {got[i]}")
    # every operating point on its own gives the same as in the series
    j = rng.randrange(len(queries))
    m.set_evaluation_input(rate=R[j : j + 1].copy(), fluid_model=None, suction_pressure=S[j : j + 1].copy(), discharge_pressure=D[j : j + 1].copy())
    one = m.evaluate().get_energy_result()
    ctx.require(is_close(one.energy_usage.values[0], got[j], 1e-12, 0) or (math.isnan(got[j]) and math.isnan(one.energy_usage.values[0])), "table-independent", f"step {j} alone gives {one.energy_usage.values[0]}, in the series {got[j]}")
    # maximum rate
    if "rate" in vary:
        mx = m.get_max_standard_rate(suction_pressures=S.copy(), discharge_pressures=D.copy())
        for i, q in enumerate(queries):
            if len(vary) == 1:
                w = full["rate"].hi
            elif len(vary) == 3 or box2:
                if any(abs(q[n] - e) <= 1e-6 * e for n, e in (("ps", full["ps"].lo), ("pd", full["pd"].hi)) if n in vary):
                    continue
                bad = ("ps" in vary and q["ps"] < full["ps"].lo) or ("pd" in vary and q["pd"] > full["pd"].hi)
                w = 0.0 if bad else full["rate"].hi
            else:  # the rates of all pressures that can be reached by raising pd or choking ps
                n = vary[1]
                x0, y0, x1, y1 = hull.bounds
                if abs(q[n] - y0) <= 1e-6 * y0 or abs(q[n] - y1) <= 1e-6 * y1:
                    continue
                top = limits(hull, 1, q[n])[1]
                if n == "pd":
                    w = 0.0 if q[n] > y1 else max([top, *(a for a, b in hull.exterior.coords if b >= q[n])])
                else:
                    w = 0.0 if q[n] < y0 else max([top, *(a for a, b in hull.exterior.coords if b <= q[n])])
            ctx.obs("max-rate")
            ctx.require(is_close(float(mx[i]), w, 1e-6, 1e-9), "max-rate-value", f"maximum rate at {q} is {mx[i]}, expected {w}")


def case(ctx):
    if ctx.index % 3:
        return case_table(ctx)
    rng = ctx.rng
    g = Model(rng, dated=rng.choice([0.0, 0.25, 0.5]))
    g.p_turbine, g.p_over = 0.1, rng.choice([0.25, 0.6])
    g.compose(
        elec_kinds=["tabulated", "compressor"], fuel_kinds=["tabulated", "compressor"], n_inst=1, venting=0, gensets=1, fuel_consumers=2
    )
    m, files = g.build()
    ctx.note(yaml=lab.dump(m), files=files)
    model, res = lab.run(m, files)
    ex = g.expected()
    if g.ambiguous:
        ctx.obs("set aside: on a decision boundary")
        return
    judge.everything(ctx, model, res, ex)
    ctx.distinct(lab.dump(m))
    ctx.sample({"components": [c.name for c in res.components][:12], "periods": len(ex["days"])})
