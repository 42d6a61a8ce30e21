"""P15 simplified compressor trains: equal pressure ratios, generic charts (also made from the input), work, capacity and maximum rate."""

from __future__ import annotations

import datetime as dt
import math

from vf import fakeneqsim as fn
from vf import generic, lab
from vf import legacy as L
from vf.checks.p14 import stage_rows
from vf.compref import CompRef, campbell_head
from vf.fluids import random_fluid
from vf.streams import S

CASES = {"quick": 1400, "thorough": 20000}
RULE = "random simplified compressor trains (known and unknown number of stages, generic charts with a design point or made from the input, fluids, turbines' shaft adjustments) run end to end; distinct by the YAML"
MIN_OBS = {"given anew from a date": 20, "operating point": 1000, "stage": 2000, "recirculating": 300, "choked": 150, "over capacity": 100, "chart from input": 300, "unknown stages": 100, "maximum rate": 100, "power limit": 20, "tight": 150}
ASSUMPTIONS = [
    "the thermodynamic package is replaced by an analytic stand-in with NeqSim's interface",
    "points within the head iteration's tolerance of an edge of the chart are set aside and counted",
]
CASE_TIMEOUT = {"quick": 60, "thorough": 60}
HEAD = 2.5e-3  # the head iteration stops at changes below 1e-3


def setup(tier):
    fn.install()


def head_of(s, p2, eta):
    """polytropic head and the state after the compression to p2"""
    z = s.state
    zz, kk = z.z, z.kappa
    h = 0.0
    for _ in range(60):
        new = campbell_head(s.P, p2, z.T, zz, kk, z.m, eta)
        o = fn.state_ph(s.model, p2, z.h + new / eta)
        zz, kk = (z.z + o.z) / 2, (z.kappa + o.kappa) / 2
        if abs(new - h) < 1e-9 * abs(new):
            break
        h = new
    return new


def stages_of(model, temps, ps, pd, rate):
    """the stages before and after each compression, work done on all that passes: (S before, outlet pressure)"""
    n = len(temps)
    r = (pd / ps) ** (1 / n)
    mass = rate * fn.standard_density(model) / 24
    return [(S(model, ps * r**k, T, mass), ps * r ** (k + 1)) for k, T in enumerate(temps)]


def chart_of(stage):
    """(design rate, design head, curves) of a reported chart"""
    c = stage.chart
    rate = {"AM3_PER_HOUR": 1.0}[getattr(c.rate_unit, "name", str(c.rate_unit))] if hasattr(c, "rate_unit") else 1.0
    return [(x.speed_rpm, [v * rate for v in x.rate_actual_m3_hour], list(x.polytropic_head_joule_per_kg), list(x.efficiency_fraction)) for x in c.curves]


def case(ctx):
    rng = ctx.rng
    fn.fresh(None)
    from libecalc.process.fluid_stream.fluid_model import EoSModel

    model = random_fluid(rng, wet=False, eos=EoSModel(rng.choice(["SRK", "PR", "GERG_SRK", "GERG_PR"])))
    n = rng.choice([1, 2, 3, 5, 8])
    steps = [dt.datetime(2020 + i, 1, 1) for i in range(n)]
    reg = rng.choice([1.0, 1.0, rng.uniform(0.4, 0.99)])
    base = 10 ** rng.uniform(5, 6.9)
    P = rng.uniform(5, 50)
    k = rng.choice([1, 1, 2, 2, 3])
    r0 = rng.uniform(1.3, 3.0) ** k
    spread = rng.choice([0.05, 0.3, 0.8])
    data = {"r": [], "ps": [], "pd": []}
    for _ in range(n):
        rate = base * (1 - spread * rng.random())
        if rng.random() < 0.08:
            rate = 0.0
        ps = P * rng.choice([1.0, rng.uniform(0.8, 1.2)])
        pd = ps * (1 + (r0 - 1) * (1 - rng.choice([0.1, 0.6, 0.95]) * rng.random()))
        if rng.random() < 0.02:
            pd = ps
        data["r"].append(rate * reg)
        data["ps"].append(ps)
        data["pd"].append(pd)
    if not any(data["r"]):
        data["r"][0] = base * reg
    rates = [x / reg for x in data["r"]]
    extra = {}
    factor, const = 1.0, 0.0
    if rng.random() < 0.4:
        factor, const = extra["POWER_ADJUSTMENT_FACTOR"], extra["POWER_ADJUSTMENT_CONSTANT"] = rng.uniform(0.9, 1.2), rng.choice([0.0, rng.uniform(0, 1.5)])
    top = rng.random() < 0.35
    if top:
        extra["CALCULATE_MAX_RATE"] = True
    fluid = {"NAME": "fluid", "TYPE": "FLUID", "FLUID_MODEL_TYPE": "COMPOSITION", "EOS_MODEL": model.eos_model.value}
    from dataclasses import asdict

    fluid["COMPOSITION"] = {a: b for a, b in asdict(model.composition).items() if b}
    charts, yaml_charts = [], []
    unknown = rng.random() < 0.3
    if unknown:
        x = rng.uniform(1.4, 3.5)
        worst = max(pd / ps for pd, ps in zip(data["pd"], data["ps"]))
        y = math.log(worst) / math.log(x)
        if abs(y - round(y)) < 1e-6 and y > 0.5:
            x *= 1.01
            y = math.log(worst) / math.log(x)
        k = max(1, math.ceil(y))
        ctx.obs("unknown stages")
    temps = [rng.uniform(15, 45) for _ in range(1 if unknown else k)]
    if unknown:
        temps = temps * k

    def add_chart(j):
        eta = rng.uniform(0.6, 0.85)
        pct = rng.random() < 0.5
        y = {"NAME": f"chart{j}", "TYPE": "COMPRESSOR_CHART", "POLYTROPIC_EFFICIENCY": eta * 100 if pct else eta, "UNITS": {"EFFICIENCY": "PERCENTAGE" if pct else "FRACTION"}}
        if rng.random() < 0.5:
            y["CHART_TYPE"] = "GENERIC_FROM_INPUT"
            design = None
        else:
            t = rng.randrange(n)
            s, p2 = stages_of(model, [T + L.C0 for T in temps], data["ps"][t], data["pd"][t] * 1.0001, rates[t] or base)[min(j, k - 1)]
            try:
                h = max(head_of(s, p2, eta), 5000.0)
            except (ValueError, ZeroDivisionError, OverflowError):
                h = 50e3
            q, h = s.actual * rng.choice([1.0, rng.uniform(0.6, 1.6)]), h * rng.choice([1.0, rng.uniform(0.7, 1.5)])
            unit = rng.choice(["M", "KJ_PER_KG", "JOULE_PER_KG"])
            y.update(CHART_TYPE="GENERIC_FROM_DESIGN_POINT", DESIGN_RATE=q, DESIGN_HEAD=h / {"M": 9.81, "KJ_PER_KG": 1000.0, "JOULE_PER_KG": 1.0}[unit])
            y["UNITS"].update(RATE="AM3_PER_HOUR", HEAD=unit)
            design = (q, h)
        yaml_charts.append(y)
        return eta, design

    if unknown:
        charts = [add_chart(0)] * k
        train = {"MAXIMUM_PRESSURE_RATIO_PER_STAGE": x, "COMPRESSOR_CHART": "chart0", "INLET_TEMPERATURE": temps[0]}
    else:
        charts = [add_chart(j) for j in range(k)]
        train = {"STAGES": [{"INLET_TEMPERATURE": T, "COMPRESSOR_CHART": f"chart{j}"} for j, T in enumerate(temps)]}
    y = {"NAME": "train", "TYPE": "SIMPLIFIED_VARIABLE_SPEED_COMPRESSOR_TRAIN", "FLUID_MODEL": "fluid", "COMPRESSOR_TRAIN": train, **extra}
    maxpower = None
    want = []
    for t in range(n):
        row = []
        for (s, p2), (eta, _) in zip(stages_of(model, [T + L.C0 for T in temps], data["ps"][t], data["pd"][t], rates[t]), charts):
            row.append((s, p2, head_of(s, p2, eta) if p2 > s.P else 0.0, eta))
        want.append(row)
    if rng.random() < 0.3:
        t = rng.randrange(n)
        maxpower = y["MAXIMUM_POWER"] = sum(s.mass * h / eta / 3.6e9 for s, _, h, eta in want[t]) * rng.uniform(0.7, 1.4) or 1.0
    usage = {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": "train", "RATE": "SIM;r", "SUCTION_PRESSURE": "SIM;ps", "DISCHARGE_PRESSURE": "SIM;pd"}
    models = [fluid, *yaml_charts, y]
    if rng.random() < 0.3:
        rng.shuffle(models)
    m, files = L.model_of(models, usage, steps, data, regularity=reg)
    ctx.note(yaml=lab.dump(m), files=files)
    if unknown and worst <= 1:
        ctx.obs("one stage at least")
    _, res = lab.run(m, files)
    r = L.result_of(res)
    ctx.require(len(r.stage_results) == k, "number-of-stages", f"{len(r.stage_results)} stages, expected {k}")
    refs = []
    for j, (st, (eta, design)) in enumerate(zip(r.stage_results, charts)):
        got = chart_of(st)
        text = f"stage {j + 1}"
        if design is None:
            ctx.obs("chart from input")
            q = got[-1][1][0] / generic.TOP[0][0]
            h = got[-1][2][0] / generic.TOP[1][0]
        else:
            q, h = design
        for (n1, q1, h1, e1), (n2, q2, h2, e2) in zip(sorted(got), generic.curves(q, h, eta)):
            ctx.require(n1 == n2, "chart", f"{text}: curve at speed {n1}, not {n2}")
            ctx.close_list(q1, q2, "chart", f"{text}: rates of the generic chart", rel=1e-6)
            ctx.close_list(h1, h2, "chart", f"{text}: heads of the generic chart", rel=1e-6)
            ctx.close_list(e1, e2, "chart", f"{text}: efficiencies of the generic chart", rel=1e-9)
        refs.append(CompRef(sorted(got)))
        if design is None:
            # just covers: what exceeds it is nothing, and a chart a few percent smaller does not hold all the points
            pts = [(w[j][0].actual, w[j][2]) for w in want]
            if max(b for _, b in pts) <= 0:
                ctx.obs("set aside: nothing to compress anywhere")
                return
            ctx.close(eta, got[0][3][0], "chart", f"{text}: efficiency", rel=1e-9)
            over = max(max(a / refs[-1].max_rate_at_head(b), max(b, refs[-1].min_head_at_rate(a)) / refs[-1].max_head_at_rate(a)) for a, b in pts)
            ctx.require(over <= 1 + HEAD, "chart-from-input", f"{text}: a point lies {over - 1:.2%} outside the chart made to hold it")
            ctx.obs("tight" if over > 0.97 else "not tight")
    for t in range(n):
        judge(ctx, r, t, rates[t], want[t], refs, charts, data["pd"][t], maxpower, factor, const)
    if top:
        maximum_rate(ctx, r, want, refs, charts, model)
    else:
        ctx.require(all(x is None or math.isnan(x) for x in r.maximum_rate.values), "maximum-rate", "a maximum rate nobody asked for")
    if n > 1 and not top and rng.random() < 0.3:
        parts(ctx, models, usage, steps, data, reg)
    ctx.distinct(lab.dump(m))
    ctx.sample({"stages": k, "unknown": unknown, "charts": ["input" if d is None else "design" for _, d in charts], "status": [getattr(s, "value", s) for s in r.failure_status]})


def parts(ctx, models, usage, steps, data, reg):
    """the same usage given anew from a later date is a train of its own, made for the rates and pressures from there on"""
    ctx.obs("given anew from a date")
    at = ctx.rng.randrange(1, len(steps))
    m, files = L.model_of(models, {steps[0]: usage, steps[at]: dict(usage)}, steps, data, regularity=reg)
    try:
        _, both = lab.run(m, files)
    except Exception:
        # (no flow at all in one of them makes no chart)
        if any(not any(data["r"][a:b]) for a, b in ((0, at), (at, None))):
            ctx.obs("set aside: a train without flow")
            return
        raise
    got = list(component_power(both))
    want = []
    for a, b in ((0, at), (at, len(steps))):
        m1, f1 = L.model_of(models, usage, steps[a:b], {x: v[a:b] for x, v in data.items()}, regularity=reg)
        m1["END"] = dt.datetime(steps[b - 1].year + 1, 1, 1)
        _, one = lab.run(m1, f1)
        want += list(component_power(one))
    ctx.require(len(got) == len(want), "own-period", f"{len(got)} time steps, expected {len(want)}")
    for t, (x, y) in enumerate(zip(got, want)):
        ctx.close(x[0], y[0], "own-period", f"step {t + 1} of a train given anew from step {at + 1}: power", rel=1e-7)
        ctx.require(x[1] == y[1], "own-period", f"step {t + 1} of a train given anew from step {at + 1}: valid is {x[1]}, alone {y[1]}")


def component_power(res):
    for c in res.components:
        if c.name == "comp":
            return [(x if x is None or not math.isnan(x) else None, v) for x, v in zip(c.power.values, c.is_valid.values)]
    raise AssertionError("no consumer")


def judge(ctx, r, t, rate, want, refs, charts, pd, maxpower, factor, const):
    rows = stage_rows(r, t)
    status = getattr(r.failure_status[t], "value", r.failure_status[t])
    valid = r.is_valid.values[t]
    text = f"step {t + 1} ({rate:.6g} Sm3/d to {pd:.6g} bara)"
    if rate == 0:
        ctx.obs("no flow")
        ctx.require(valid and status == "NO_FAILURE", "no-flow", f"{text}: {status} without flow")
        ctx.close(r.power.values[t], 0.0, "no-flow", f"{text}: power without flow")
        return
    ctx.obs("operating point")
    unclear = over = False
    total = 0.0
    for j, (w, (s, p2, h, eta), ref, (_, design)) in enumerate(zip(rows, want, refs, charts)):
        x = f"{text}, stage {j + 1}"
        ctx.obs("stage")
        z = s.state
        ctx.close(w["p1"], s.P, "equal-ratio", f"{x}: inlet pressure", rel=1e-9)
        ctx.close(w["p2"], p2, "equal-ratio", f"{x}: outlet pressure", rel=1e-9)
        ctx.close(w["T1"], s.T, "temperature", f"{x}: inlet temperature", rel=1e-9)
        ctx.close(w["mass0"], s.mass, "mass", f"{x}: mass rate", rel=1e-6)
        ctx.close(w["std0"], rate, "mass", f"{x}: standard rate", rel=1e-6)
        ctx.close(w["rho"], z.density, "state", f"{x}: density", rel=1e-6)
        ctx.close(w["z"], z.z, "state", f"{x}: z", rel=1e-6)
        ctx.close(w["kappa"], z.kappa, "state", f"{x}: kappa", rel=1e-6)
        q0 = s.actual
        ctx.close(w["q0"], q0, "rate", f"{x}: rate before recirculation", rel=1e-6)
        # where on the chart
        edge = ref.min_head_at_rate(max(q0, ref.min_rate_at_head(h)))
        hc = max(h, edge)
        choked = h < edge
        # (the minimum rate follows the head, which is known to the iteration's tolerance)
        tol = HEAD
        qmin = ref.min_rate_at_head(h)
        q = max(q0, qmin)
        ctx.close(w["q"], q, "recirculation", f"{x}: rate with recirculation (before {q0}, minimum {qmin})", rel=tol)
        if w["q"] > w["q0"] * (1 + 1e-6):
            ctx.obs("recirculating")
            ctx.require(q0 < qmin * (1 + tol), "recirculation", f"{x}: recirculates although {q0} is above the minimum {qmin}")
        ctx.close(w["eta"], eta, "efficiency", f"{x}: efficiency", rel=1e-9)
        ctx.close(w["head"], hc, "head", f"{x}: head (needed {h}, lowest on the chart {edge})", rel=tol, abs_=1.0)
        if choked:
            ctx.obs("choked")
        ctx.close(w["dh"] * eta, w["head"], "head", f"{x}: enthalpy change", rel=1e-9)
        o = fn.state_ph(s.model, p2, z.h + hc / eta)
        ctx.close(w["T2"], o.T, "outlet", f"{x}: outlet temperature", rel=1e-3)
        ctx.close(w["rho2"], fn.state(s.model, p2, w["T2"]).density, "outlet", f"{x}: outlet density", rel=1e-6)
        ctx.close(w["q"] * w["rho"], w["mass"], "rate", f"{x}: mass rate with recirculation", rel=1e-9)
        qmax, hmax = ref.max_rate_at_head(hc), ref.max_head_at_rate(q0)
        a, b = q / qmax - 1, hc / hmax - 1
        near = abs(a) < 2 * tol or abs(b) < 2 * tol
        if design is None:
            # made to hold its input
            ctx.require(w["valid"], "chart-from-input", f"{x}: outside the chart made from its own input (rate {a:+.2e}, head {b:+.2e} off the limits)")
            bad = False
        elif near:
            ctx.obs("set aside: on an edge of the chart")
            unclear, bad = True, not w["valid"]
        else:
            bad = a > 0 or b > 0
            ctx.require(w["valid"] == (not bad), "capacity", f"{x}: valid is {w['valid']} with the rate {a:+.2%} and the head {b:+.2%} off the limits")
        if bad:
            over = True
            ctx.require(w["power"] is None or math.isnan(w["power"]) or w["power"] == 0, "capacity", f"{x}: power {w['power']} outside the chart")
        else:
            ctx.close(w["power"], w["mass"] * w["dh"] / 3.6e9, "power", f"{x}: power", rel=1e-7, abs_=1e-9)
            total += w["power"]
    if over:
        ctx.obs("over capacity")
        ctx.require(not valid, "capacity", f"{text}: valid though a stage is outside its chart")
        return
    ctx.close(r.power.values[t], total * factor + const if total > 0 else total, "train-power", f"{text}: power of the train", rel=1e-7, abs_=1e-9)
    if maxpower and total > maxpower * (1 + 1e-9):
        ctx.obs("power limit")
        ctx.require(status == "ABOVE_MAXIMUM_POWER" and not valid, "maximum-power", f"{text}: {status}, {total} MW of at most {maxpower}")
    else:
        ctx.require(status == "NO_FAILURE" and valid, "status", f"{text}: {status}, valid {valid}, though every stage is in its chart")


def maximum_rate(ctx, r, want, refs, charts, model):
    for t, row in enumerate(want):
        got = r.maximum_rate.values[t]
        each = []
        for (s, p2, h, eta), ref in zip(row, refs):
            f = s.state.density / fn.standard_density(model) * 24
            one = [ref.max_rate_no_choking(h * x) * f for x in (1 - HEAD, 1, 1 + HEAD)]
            # (the search starts from the mean head of the chart, and stops at rates that change by less than 1e-3)
            z = s.state
            first = ref.max_rate_no_choking(campbell_head(s.P, p2, z.T, z.z, z.kappa, z.m, eta)) * f if p2 > s.P else one[1]
            if abs(first / (ref.max_rate_no_choking(sum(ref.hi[2]) / len(ref.hi[2])) * f) - 1) < 1.5e-3:
                one.append(first)
            each.append(one)
        lo, hi = min(min(x) for x in each), min(max(x) for x in each)
        ctx.obs("maximum rate")
        ctx.require(got is not None and lo * (1 - 2e-3) <= got <= hi * (1 + 2e-3), "maximum-rate", f"step {t + 1}: maximum rate {got}, expected {lo} to {hi}")
