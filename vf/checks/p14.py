"""P14 compressor trains on a common shaft: every reported operating point is one the train can be in and meets the request."""

from __future__ import annotations

import datetime as dt
import math
import re

from vf import fakeneqsim as fn
from vf import lab
from vf import legacy as L
from vf.compref import campbell
from vf.streams import S

CASES = {"quick": 700, "thorough": 12000}
RULE = "random single- and variable-speed compressor trains (charts, fluids, stages, pressure drops, margins, pressure controls, streams in and out, interstage pressures) run end to end; distinct by the YAML"
MIN_OBS = {
    "operating point": 1200, "stage": 2500, "met": 900, "pressure-controlled": 300, "too-high": 100, "above-maximum-flow": 100, "recirculating": 500,
    "multiple streams": 150, "interstage": 60, "maximum rate": 150, "power limit": 30, "single speed": 200,
    "control DOWNSTREAM_CHOKE": 50, "control UPSTREAM_CHOKE": 40, "control COMMON_ASV": 15, "control INDIVIDUAL_ASV_RATE": 40, "control INDIVIDUAL_ASV_PRESSURE": 20,
}
ASSUMPTIONS = [
    "the thermodynamic package is replaced by an analytic stand-in with NeqSim's interface",
    "operating points on a decision boundary (within the solver's tolerances) are set aside and counted",
]
CASE_TIMEOUT = {"quick": 60, "thorough": 60}
TOL = 1.2e-3  # pressures are met to 1e-3


def setup(tier):
    fn.install()


def num(x):
    return x is not None and not math.isnan(x)


def root(f, a, b, n=60):
    """f increasing, f(a) <= 0 <= f(b)"""
    for _ in range(n):
        m = (a + b) / 2
        if f(m) > 0:
            b = m
        else:
            a = m
        if b - a < 1e-9 * b:
            break
    return (a + b) / 2


class Part:
    """the stages between two requested pressures"""

    def __init__(self, t, stages, first, p_in, p_out, control, rates, inlet=None, bounds=None, maxp=None):
        self.t, self.stages, self.first, self.p_in, self.p_out, self.control, self.rates, self.inlet = t, stages, first, p_in, p_out, control, rates, inlet
        self.maxp = maxp
        self.lo, self.hi = bounds or t.speeds

    def forward(self, speed, **k):
        p_in = k.pop("p_in", self.p_in)
        s = self.inlet.but(P=p_in) if self.inlet else None
        return L.forward(self.t, self.rates, p_in, speed, part=self.stages, inlet=s, **k)

    def excess(self, pts, speed):
        """largest overload of a stage: q / qmax"""
        return max(p.q / st.ref.qmax(speed) for p, st in zip(pts, self.stages))

    def solve(self):
        """-> (kind, speed): what the train without pressure control can do, or None on a boundary"""
        try:
            top = self.forward(self.hi)
        except L.Out:
            return None
        ex = self.excess(top, self.hi)
        if abs(ex - 1) < 1e-4:
            return None
        if ex > 1:
            return "flow", self.hi
        p = top[-1].outlet.P
        if abs(p / self.p_out - 1) < TOL:
            return None
        if p < self.p_out:
            return "high", self.hi
        if self.lo == self.hi:
            return "low", self.lo

        def at(n):
            pts = self.forward(n)
            return self.excess(pts, n), pts[-1].outlet.P

        try:
            lo = self.lo
            ex, p = at(lo)
            if abs(ex - 1) < 1e-6:
                return None
            if ex > 1:
                lo = root(lambda n: 1 - at(n)[0], lo, self.hi)
                p = at(lo)[1]
            if abs(p / self.p_out - 1) < 3e-4:
                return None
            if p > self.p_out:
                return "low", lo
            return "speed", root(lambda n: at(n)[1] - self.p_out, lo, self.hi)
        except L.Out:
            return None


def stage_rows(r, t):
    """the reported stages at a time step"""
    out = []
    for s in r.stage_results:
        i, o = s.inlet_stream_condition, s.outlet_stream_condition
        out.append(
            dict(
                p1=i.pressure.values[t], T1=i.temperature_kelvin.values[t], rho=i.density_kg_per_m3.values[t], z=i.z.values[t], kappa=i.kappa.values[t],
                q=i.actual_rate_m3_per_hr.values[t], q0=i.actual_rate_before_asv_m3_per_hr.values[t],
                std=i.standard_rate_sm3_per_day.values[t], std0=i.standard_rate_before_asv_sm3_per_day.values[t],
                p2=o.pressure.values[t], T2=o.temperature_kelvin.values[t], rho2=o.density_kg_per_m3.values[t],
                q2=o.actual_rate_m3_per_hr.values[t], q20=o.actual_rate_before_asv_m3_per_hr.values[t],
                mass=s.mass_rate_kg_per_hr.values[t], mass0=s.mass_rate_before_asv_kg_per_hr.values[t],
                head=s.polytropic_head_kJ_per_kg.values[t] * 1000, eta=s.polytropic_efficiency.values[t], dh=s.polytropic_enthalpy_change_kJ_per_kg.values[t] * 1000,
                power=s.power.values[t], loss=s.asv_recirculation_loss_mw.values[t], speed=s.speed.values[t], valid=s.is_valid.values[t],
            )
        )
    return out


def certify(ctx, part, rows, text, choked_ok):
    """every stage follows from the one before it, its chart and the fluid; -> speed"""
    t = part.t
    s = None
    speed = rows[0]["speed"]
    for k, (st, w) in enumerate(zip(part.stages, rows)):
        x = f"{text}, stage {k + 1 + part.first}"
        ctx.obs("stage")
        ctx.close(w["speed"], speed, "common-speed", f"{x}: speed", rel=1e-9)
        if k == 0:
            p = w["p1"] + st.dp
            if choked_ok:
                ctx.require(p <= part.p_in * (1 + 1e-6), "inlet", f"{x}: inlet pressure {p} above the {part.p_in} available")
            else:
                ctx.close(p, part.p_in, "inlet", f"{x}: inlet pressure and pressure drop", rel=1e-6)
            s = part.inlet.but(P=p) if part.inlet else S(t.model, p, st.T, part.rates[0] * fn.standard_density(t.model) / 24)
        s = L.ahead(t, st, s, part.rates)
        if k == 0 and part.inlet and t.liquid and 1e-5 < abs(w["mass0"] / s.mass - 1) < 0.3:
            ctx.violation("interstage-liquid", f"{x}: mass rate {w['mass0']} kg/h, {s.mass} kg/h leaves the stage before it")
        ctx.close(w["p1"], s.P, "pressure-drop", f"{x}: inlet pressure", rel=1e-6)
        ctx.close(w["T1"], s.T, "temperature", f"{x}: inlet temperature", rel=1e-7)
        z = s.state
        if not 0.9998 < z.v < 0.99995:
            ctx.close(w["mass0"], s.mass, "mass", f"{x}: mass rate", rel=1e-5, abs_=1e-3)
            ctx.close(w["std0"], s.std, "mass", f"{x}: standard rate", rel=3e-5, abs_=1e-2)
        ctx.close(w["rho"], z.density, "state", f"{x}: density", rel=1e-5)
        ctx.close(w["z"], z.z, "state", f"{x}: z", rel=1e-5)
        ctx.close(w["kappa"], z.kappa, "state", f"{x}: kappa", rel=1e-5)
        ctx.close(w["q0"] * w["rho"], w["mass0"], "rate", f"{x}: actual rate before recirculation", rel=1e-7, abs_=1e-6)
        ctx.close(w["q"] * w["rho"], w["mass"], "rate", f"{x}: actual rate", rel=1e-7, abs_=1e-6)
        ctx.close(w["std"] * w["mass0"], w["std0"] * w["mass"], "rate", f"{x}: standard rate with recirculation", rel=1e-6, abs_=1e-6)
        ctx.close(w["q20"] * w["rho2"], w["mass0"], "rate", f"{x}: actual rate out", rel=1e-7, abs_=1e-3)
        lo, hi = st.ref.qmin(speed), st.ref.qmax(speed)
        if w["q"] > w["q0"] * (1 + 1e-6):
            ctx.obs("recirculating")
        ctx.require(w["q"] >= lo * (1 - 1e-5), "surge", f"{x}: rate {w['q']} below the chart's minimum {lo} at speed {speed}")
        ctx.require(w["q"] >= w["q0"] * (1 - 1e-6), "recirculation", f"{x}: rate {w['q']} with recirculation below the rate {w['q0']} before it")
        if w["q"] > hi * (1 + 1e-5):
            ctx.require(not w["valid"], "stonewall", f"{x}: rate {w['q']} above the chart's maximum {hi} at speed {speed} is reported valid")
            return speed  # the rest is an extrapolation
        if w["q"] < hi * (1 - 1e-5):
            ctx.require(w["valid"], "stonewall", f"{x}: rate {w['q']} inside the chart ({lo} to {hi}) at speed {speed} is reported invalid")
        head, eta = st.ref.lookup(speed, min(max(w["q"], lo), hi))
        ctx.close(w["head"], head, "chart", f"{x}: head at rate {w['q']}, speed {speed}", rel=1e-5)
        ctx.close(w["eta"], eta, "chart", f"{x}: efficiency at rate {w['q']}, speed {speed}", rel=1e-5)
        ctx.close(w["dh"], head / eta, "chart", f"{x}: enthalpy change", rel=1e-5)
        ctx.close(w["power"], w["mass"] * head / eta / 3.6e9, "power", f"{x}: power", rel=1e-5, abs_=1e-9)
        ctx.close(w["loss"], (w["mass"] - w["mass0"]) * head / eta / 3.6e9, "power", f"{x}: power lost to recirculation", rel=1e-5, abs_=1e-6)
        s2 = fn.state(s.model, w["p2"], w["T2"])
        ctx.close(s2.h - z.h, head / eta, "outlet", f"{x}: enthalpy added", rel=3e-4, abs_=20.0)
        p2 = campbell(w["p1"], z.T, (z.z + s2.z) / 2, (z.kappa + s2.kappa) / 2, z.m, head, eta)
        ctx.close(w["p2"], p2, "outlet", f"{x}: outlet pressure", rel=1.5e-3)
        ctx.close(w["rho2"], s2.density, "outlet", f"{x}: outlet density", rel=1e-5)
        s = S(s.model, w["p2"], w["T2"], w["mass0"])
    part.end = s
    return speed


def recirculation(ctx, part, rows, speed, text, control):
    """control: the pressure control in use, None for none"""
    qs = [(w, st.ref.qmin(speed), st.ref.qmax(speed)) for w, st in zip(rows, part.stages)]
    if any(w["q"] > hi * (1 + 1e-5) for w, lo, hi in qs):
        return
    if control == "INDIVIDUAL_ASV_RATE":
        # one fraction of the spare capacity in all the stages
        f0, f1 = 0.0, 1.0
        for w, lo, hi in qs:
            room = hi - w["q0"]
            if room <= 1e-6 * hi:
                continue
            f = (w["q"] - w["q0"]) / room
            if w["q"] > lo * (1 + 1e-6):
                f0, f1 = max(f0, f - 1e-6), min(f1, f + 1e-6)
            else:
                f1 = min(f1, f + 1e-6)
        ctx.require(f0 <= f1 + 1e-5, "asv-rate", f"{text}: stages recirculate different fractions of their spare capacity: {[(w['q0'], w['q'], lo, hi) for w, lo, hi in qs]}")
    elif control == "COMMON_ASV":
        m = [w["mass"] - w["mass0"] for w in rows]
        ctx.require(max(m) - min(m) <= 2e-3 * max(w["mass"] for w in rows), "asv-common", f"{text}: recirculation differs between stages of a train with one common valve: {m} kg/h")
    elif control == "INDIVIDUAL_ASV_PRESSURE":
        if len(rows) > 1:
            p = part.p_in
            want = (part.p_out / part.p_in) ** (1 / len(rows))
            for k, w in enumerate(rows):
                ctx.close(w["p2"] / p, want, "asv-pressure", f"{text}, stage {k + 1}: pressure ratio", rel=TOL)
                p = w["p2"]
    else:
        for k, (w, lo, hi) in enumerate(qs):
            ctx.close(w["q"], max(w["q0"], lo), "recirculation", f"{text}, stage {k + 1}: rate with recirculation (minimum {lo}, before {w['q0']})", rel=1e-5)


def low_feasible(part, speed):
    """can the pressure control bring the pressure down to the target at this speed? True, False or None (unclear)"""
    c = part.control
    if c == "DOWNSTREAM_CHOKE":
        if part.maxp is not None:
            return None
        return True
    try:
        if c == "INDIVIDUAL_ASV_RATE":
            p = part.forward(speed, fraction=1.0)[-1].outlet.P
            if abs(p / part.p_out - 1) < TOL:
                return None
            if p > part.p_out:
                return False
            f = root(lambda x: part.p_out - part.forward(speed, fraction=x)[-1].outlet.P, 0.0, 1.0)
            ex = part.excess(part.forward(speed, fraction=f), speed)  # (less pressure is more volume for the next stage)
            return None if abs(ex - 1) < 2e-3 else ex < 1
        if c == "COMMON_ASV" and len(part.stages) == 1:
            pts = part.forward(speed, fraction=1.0)
            p = pts[-1].outlet.P
            return None if abs(p / part.p_out - 1) < TOL else p < part.p_out
        if c == "UPSTREAM_CHOKE":
            lo, hi = part.stages[0].dp + 1.0, part.p_in

            def f(p):
                return part.forward(speed, p_in=p)[-1].outlet.P - part.p_out

            if f(lo) > 0:
                return None
            p = root(f, lo, hi)
            ex = part.excess(part.forward(speed, p_in=p), speed)
            return None if abs(ex - 1) < 2e-3 else ex < 1
        if c == "INDIVIDUAL_ASV_PRESSURE" and len(part.stages) == 1:
            p = part.forward(speed, fraction=1.0)[-1].outlet.P
            return None if abs(p / part.p_out - 1) < TOL else p < part.p_out
    except L.Out:
        return None
    return None


def judge(ctx, t, r, i, rates, ps, pd, pi, control, first, last, maxp, maxpower, factor, const, text):
    """one time step"""
    rows = stage_rows(r, i)
    status = r.failure_status[i]
    status = getattr(status, "value", status)
    valid = r.is_valid.values[i]
    ingoing = [rates[j] for j, (_, f) in enumerate(t.streams) if f is not None]
    if not any(x > 0 for x in ingoing):
        ctx.obs("no flow")
        ctx.close(r.power.values[i], 0.0, "no-flow", f"{text}: power without flow")
        ctx.require(status == "NO_FAILURE" and valid, "no-flow", f"{text}: {status} without flow")
        return
    ctx.obs("operating point")
    if t.single:
        ctx.obs("single speed")
    total = sum(w["power"] for w in rows)
    ctx.close(r.power.values[i], total * factor + const if total > 0 else total, "train-power", f"{text}: power of the train", rel=1e-6, abs_=1e-9)
    ctx.require(valid == (status == "NO_FAILURE"), "status", f"{text}: valid is {valid} with status {status}")
    kmin, kmax = t.speeds
    speed = rows[0]["speed"]
    ctx.require(kmin * (1 - 1e-9) <= speed <= kmax * (1 + 1e-9), "common-speed", f"{text}: speed {speed} outside {kmin} to {kmax}")
    if t.inter is None:
        parts = [(Part(t, t.stages, 0, ps, pd, control, rates, maxp=maxp), rows)]
    else:
        k = t.inter
        parts = [(Part(t, t.stages[:k], 0, ps, pi, first, rates), rows[:k])]
    # the request, by an independent forward model
    sol = parts[0][0].solve()
    if t.inter is not None:
        ok = status == "NO_FAILURE" or (sol and sol[0] != "flow")
        upstream = first == "UPSTREAM_CHOKE"
        t.liquid = False
        certify(ctx, parts[0][0], parts[0][1], text + ", first part", upstream)
        if not hasattr(parts[0][0], "end"):
            ctx.obs("set aside: first part over its limits")
            ctx.require(status != "NO_FAILURE", "status", f"{text}: the first part is above its maximum flow but {status}")
            return
        end = parts[0][0].end.but(P=pi)
        p2 = Part(t, t.stages[t.inter:], t.inter, pi, pd, last, rates, inlet=end)
        parts.append((p2, rows[t.inter:]))
        certify(ctx, p2, parts[1][1], text + ", last part", last == "UPSTREAM_CHOKE")
        ctx.obs("interstage")
        if status == "NO_FAILURE":
            for (p, rw), c, what in zip(parts, (first, last), ("interstage", "discharge")):
                got = rw[-1]["p2"]
                if c == "DOWNSTREAM_CHOKE":
                    ctx.require(got >= p.p_out * (1 - TOL), "target", f"{text}: {what} pressure {got} below the requested {p.p_out}")
                else:
                    ctx.close(got, p.p_out, "target", f"{text}: {what} pressure", rel=TOL)
            ctx.obs("met")
        sols = [p.solve() for p, _ in parts]
        if any(x is None for x in sols):
            ctx.obs("set aside: on a decision boundary")
            return
        kinds = [x[0] for x in sols]
        if "flow" in kinds or "high" in kinds:
            ctx.require(status != "NO_FAILURE", "status", f"{text}: NO_FAILURE for pressures out of reach ({kinds})")
            return
        want = max(x[1] for x in sols)
        near = abs(sols[0][1] / sols[1][1] - 1) < 1e-3
        if near:
            ctx.obs("set aside: on a decision boundary")
            return
        ctx.close(speed, want, "speed", f"{text}: speed, the higher of what the parts need ({sols})", rel=1e-3)
        for (p, rw), x, c in zip(parts, sols, (first, last)):
            used = c if x[1] < want * (1 - 1e-6) or x[0] == "low" else None
            if used:
                ctx.obs("control " + used)
                ctx.obs("pressure-controlled")
            if status == "NO_FAILURE":
                recirculation(ctx, p, rw, speed, text, used if used and used.endswith(("RATE", "ASV", "PRESSURE")) else None)
            if used:
                p.lo = p.hi = want
                ok = low_feasible(p, want)
                if status != "NO_FAILURE" and ok is True and total <= (maxpower or math.inf):
                    others = [low_feasible(q, want) if y[1] < want * (1 - 1e-6) or y[0] == "low" else True for (q, _), y in zip(parts, sols)]
                    if all(o is True for o in others):
                        ctx.violation("status", f"{text}: {status} though both pressures can be met ({sols}, controls {first}, {last})")
        return
    p, _ = parts[0]
    if sol is None:
        ctx.obs("set aside: on a decision boundary")
        kind = None
    else:
        kind = sol[0]
        ctx.obs("request " + kind)
    c = control if kind == "low" else None
    inlet_choked = c == "UPSTREAM_CHOKE" or (kind == "low" and maxp is not None) or kind == "flow"
    certify(ctx, p, rows, text, inlet_choked or kind is None)
    over = any(w["q"] > st.ref.qmax(speed) * (1 + 1e-5) for w, st in zip(rows, t.stages))
    out = r.outlet_stream_condition.pressure.values[i]
    if status == "NO_FAILURE":
        ctx.obs("met")
        ctx.require(not over, "status", f"{text}: NO_FAILURE though a stage is above its maximum flow")
        ctx.close(out, pd, "target", f"{text}: discharge pressure", rel=TOL)
        ctx.close(r.inlet_stream_condition.pressure.values[i], ps, "target", f"{text}: suction pressure", rel=1e-6)
        ctx.require(not maxpower or total <= maxpower * (1 + 1e-9), "maximum-power", f"{text}: NO_FAILURE with {total} MW of at most {maxpower} MW")
        if maxp is not None:
            ctx.require(rows[-1]["p2"] <= max(maxp, pd) * (1 + TOL), "maximum-pressure", f"{text}: {rows[-1]['p2']} bara out of the last stage, at most {maxp}")
    if kind is None:
        return
    if kind == "flow":
        ctx.obs("above-maximum-flow")
        ctx.require(status == "ABOVE_MAXIMUM_FLOW_RATE", "status", f"{text}: {status} though the flow is above what the train takes at its highest speed")
        return
    if kind == "high":
        ctx.obs("too-high")
        ctx.require(status == "TARGET_DISCHARGE_PRESSURE_TOO_HIGH", "status", f"{text}: {status} though the pressure cannot be reached")
        ctx.close(speed, sol[1], "speed", f"{text}: speed of a train that cannot reach the pressure", rel=1e-9)
        return
    power = None
    if maxpower:
        power = None if abs(total / maxpower - 1) < 1e-9 else total > maxpower
    if kind == "speed":
        ctx.close(speed, sol[1], "speed", f"{text}: speed", rel=2e-3)
        ctx.close(rows[-1]["p2"], pd, "target", f"{text}: pressure out of the last stage", rel=TOL)
        recirculation(ctx, p, rows, speed, text, None)
        want = "ABOVE_MAXIMUM_POWER" if power else "NO_FAILURE"
        if power:
            ctx.obs("power limit")
        ctx.require(status == want, "status", f"{text}: {status}, expected {want} ({total} MW, maximum {maxpower})")
        return
    # the pressure has to be brought down at the lowest speed
    ctx.obs("pressure-controlled")
    ctx.obs("control " + control)
    ctx.close(speed, sol[1], "speed", f"{text}: speed, the lowest the flow allows", rel=1e-4)
    if status in ("NO_FAILURE", "ABOVE_MAXIMUM_POWER"):
        asv = control.endswith(("RATE", "ASV", "PRESSURE"))
        try:
            close = abs(p.forward(speed)[-1].outlet.P / pd - 1) < 1.5 * TOL
        except L.Out:
            close = True
        if close:
            ctx.obs("set aside: on a decision boundary")  # (the pressure is met before it is controlled)
        else:
            recirculation(ctx, p, rows, speed, text, control if asv else None)
        if control == "DOWNSTREAM_CHOKE":
            ctx.require(rows[-1]["p2"] >= pd * (1 - TOL), "target", f"{text}: {rows[-1]['p2']} bara out of the last stage cannot be choked down to {pd}")
            if maxp is None:
                ref = p.forward(speed)[-1].outlet.P
                ctx.close(rows[-1]["p2"], ref, "target", f"{text}: pressure out of the last stage ahead of the choke", rel=5e-3)
        else:
            ctx.close(rows[-1]["p2"], pd, "target", f"{text}: pressure out of the last stage", rel=TOL)
        want = "ABOVE_MAXIMUM_POWER" if power else "NO_FAILURE"
        if power:
            ctx.obs("power limit")
        if power is not None or not maxpower:
            ctx.require(status == want, "status", f"{text}: {status}, expected {want} ({total} MW, maximum {maxpower})")
    ok = low_feasible(p, sol[1])
    if ok is True and sol[1] > p.lo * (1 + 1e-6) and control != "DOWNSTREAM_CHOKE":
        ok = None  # right at the end of the chart
    if ok is None:
        ctx.obs("set aside: pressure control at its limit")
    elif ok:
        ctx.require(status in ("NO_FAILURE", "ABOVE_MAXIMUM_POWER"), "status", f"{text}: {status} though {control} can bring the pressure down")
    else:
        ctx.obs("control out of range")
        ctx.require(status in ("TARGET_DISCHARGE_PRESSURE_TOO_LOW", "ABOVE_MAXIMUM_FLOW_RATE"), "status", f"{text}: {status} though {control} cannot bring the pressure down")


def case(ctx):
    rng = ctx.rng
    fn.fresh(None)
    multi = rng.random() < 0.3
    t = L.random_train(rng, multi=multi)
    control = rng.choice(L.CONTROLS[:1] * 2 + L.CONTROLS)
    if multi and control == "INDIVIDUAL_ASV_PRESSURE" and len(t.streams) > 1:
        control = "DOWNSTREAM_CHOKE"
    extra = {}
    if multi:
        ctx.obs("multiple streams")
        extra.update(multi=True, first=rng.choice(L.CONTROLS[:4]), last=rng.choice(L.CONTROLS[:4]))
        order = list(range(len(t.streams)))
    lo, hi = t.speeds
    n = rng.choice([2, 3, 4])
    steps = [dt.datetime(2020 + i, 1, 1) for i in range(n)]
    reg = rng.choice([1.0, 1.0, rng.uniform(0.4, 0.99)])
    # requests
    data = {f"r{j}": [] for j in range(len(t.streams))}
    data.update(ps=[], pd=[], pi=[])
    for _ in range(n):
        f = rng.choice([1.0, rng.uniform(0.15, 0.9), rng.uniform(0.8, 1.2), rng.uniform(1.1, 1.7)])
        rates = [x * f * (1.0 if not j else rng.choice([1.0, 1.0, 0.0, rng.uniform(0.3, 1.0)])) for j, x in enumerate(t.std)]
        if rng.random() < 0.06:
            rates = [0.0 for _ in rates]
        # outgoing streams never more than there is
        have = 0.0
        for k, st in enumerate(t.stages):
            have += rates[0] if k == 0 else 0.0
            for j in st.outs:
                rates[j] = min(rates[j], have * 0.9)
                have -= rates[j]
            for j in st.ins:
                have += rates[j]
        ps = t.P * rng.choice([1.0, rng.uniform(0.9, 1.15)])
        pd, pi = ps * 2.0, ps * 1.5
        if sum(rates) > 0:
            x = rng.choice([0.0, 1.0, rng.random(), rng.random(), rng.random(), rng.random()])
            try:
                pts = L.forward(t, rates, ps, lo + x * (hi - lo))
                pd = pts[-1].outlet.P * (rng.uniform(0.5, 0.98) if x == 0 else rng.uniform(1.02, 1.4) if x == 1 else rng.choice([1.0, 1.0, 1.0, rng.uniform(0.75, 1.2)]))
                if t.inter is not None:
                    pi = pts[t.inter - 1].outlet.P * rng.uniform(0.9, 1.05)
            except L.Out:
                pass
        pd = max(pd, ps * 1.01)
        pi = min(max(pi, ps * 1.005), pd * 0.995)
        for j, x in enumerate(rates):
            data[f"r{j}"].append(x * reg)
        data["ps"].append(ps)
        data["pd"].append(pd)
        data["pi"].append(pi)
    maxp = None
    if t.single and control == "DOWNSTREAM_CHOKE" and rng.random() < 0.4:
        maxp = extra["MAXIMUM_DISCHARGE_PRESSURE"] = max(data["pd"]) * rng.uniform(1.005, 1.2)
    factor, const = 1.0, 0.0
    if rng.random() < 0.3:
        factor, const = extra["POWER_ADJUSTMENT_FACTOR"], extra["POWER_ADJUSTMENT_CONSTANT"] = rng.uniform(0.9, 1.2), rng.choice([0.0, rng.uniform(0, 1.5)])
    maxpower = None
    if rng.random() < 0.25:
        try:
            maxpower = extra["MAXIMUM_POWER"] = sum(p.power for p in L.forward(t, [x * reg for x in t.std], t.P, (lo + hi) / 2)) * rng.uniform(0.6, 1.4)
        except L.Out:
            pass
    capacity = not multi and rng.random() < 0.2
    if capacity:
        extra["CALCULATE_MAX_RATE"] = True
    if multi:
        # listed in the order of the stages, offtakes first
        order = [0]
        for st in t.stages:
            order += st.outs + st.ins
        if rng.random() < 0.4:
            rest = order[1:]
            rng.shuffle(rest)
            order = [0, *rest]
    models, _ = L.yaml_models(rng, t, "train", control, extra, order=order if multi else None)
    if multi:
        usage = {"TYPE": "VARIABLE_SPEED_COMPRESSOR_TRAIN_MULTIPLE_STREAMS_AND_PRESSURES", "COMPRESSOR_TRAIN_MODEL": "train", "RATE_PER_STREAM": [f"SIM;r{j}" for j in order]}
        if t.inter is not None:
            usage["INTERSTAGE_CONTROL_PRESSURE"] = "SIM;pi"
    else:
        usage = {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": "train", "RATE": "SIM;r0"}
    usage.update({"SUCTION_PRESSURE": "SIM;ps", "DISCHARGE_PRESSURE": "SIM;pd"})
    if t.inter is None:
        del data["pi"]
    m, files = L.model_of(models, usage, steps, data, regularity=reg)
    ctx.note(yaml=lab.dump(m), files=files)
    try:
        _, res = lab.run(m, files)
    except Exception as e:
        got = re.search(r"pressure_bara=([0-9.e+]+)", str(e))
        if "flash failed" in str(e) and got and float(got[1]) > 1500:
            ctx.obs("set aside: pressures beyond the stand-in's range")
            return
        raise
    r = L.result_of(res)
    for i in range(n):
        rates = [data[f"r{j}"][i] / reg for j in range(len(t.streams))]
        ps, pd, pi = data["ps"][i], data["pd"][i], data.get("pi", [None] * n)[i]
        text = f"step {i + 1} ({', '.join(f'{x:.6g}' for x in rates)} Sm3/d from {ps:.6g}{f' by {pi:.6g}' if pi else ''} to {pd:.6g} bara, {control if t.inter is None else extra['first'] + '/' + extra['last']})"
        try:
            judge(ctx, t, r, i, rates, ps, pd, pi, control, extra.get("first"), extra.get("last"), maxp, maxpower, factor, const, text)
        except L.Out as e:
            ctx.obs(f"set aside: {e}")
    if capacity:
        top = list(r.maximum_rate.values)
        check_capacity(ctx, t, data, usage, models, reg, top, control)
    ctx.distinct(lab.dump(m))
    ctx.sample({"stages": len(t.stages), "single": t.single, "streams": len(t.streams), "control": control, "status": [getattr(x, "value", x) for x in r.failure_status]})


def check_capacity(ctx, t, data, usage, models, reg, top, control):
    """just below the reported maximum rate the train runs, just above it does not"""
    for i, x in enumerate(top):
        ctx.require(num(x) and x >= 0, "maximum-rate", f"maximum rate {x} at step {i + 1}")
    use = [i for i, x in enumerate(top) if num(x)]
    rates, ps, pd = [], [], []
    # (pressures are met to 1e-3, and the rate may be most sensitive to them: a hair less and a hair more is asked for)
    probes = ((0.99, 0.997), (0.99, 1.003), (1.01, 0.997), (1.01, 1.003), (0.2, 1.0), (0.4, 1.0), (0.6, 1.0), (0.8, 1.0), (0.9, 1.0), (0.95, 1.0), (0.97, 1.0), (1.0, 0.997), (1.0, 1.003))
    for i in use:
        base = top[i]
        for f, g in probes:
            rates.append((base * f if base else 1.0) * reg)
            ps.append(data["ps"][i])
            pd.append(data["pd"][i] * g)
    if not rates:
        return
    days = [dt.datetime(2020 + i, 1, 1) for i in range(len(rates))]
    for y in models:
        y.pop("CALCULATE_MAX_RATE", None)
    m2, f2 = L.model_of(models, usage, days, {"r0": rates, "ps": ps, "pd": pd}, regularity=reg)
    _, res = lab.run(m2, f2)
    r = L.result_of(res)
    status = [getattr(x, "value", x) for x in r.failure_status]
    for k, i in enumerate(use):
        got = status[len(probes) * k : len(probes) * (k + 1)]
        text = f"step {i + 1}: maximum rate {top[i]} from {data['ps'][i]} to {data['pd'][i]} bara"
        ctx.obs("maximum rate")
        if top[i]:
            if "NO_FAILURE" not in got[4:11]:
                ctx.obs("set aside: the pressures cannot be met at any rate")  # (the number is then only a stand-in)
                continue
            if len(t.stages) > 1 and control.endswith(("RATE", "ASV", "PRESSURE")):
                # (recirculation in one stage may make room for a little more, and equal pressure ratios for less)
                ctx.obs("set aside: maximum rate of stages with recirculation control")
                continue
            # (lower rates may be out of reach for a train of several stages where the maximum rate is not)
            near = got[:2] + (got[9:] if len(t.stages) == 1 else got[8:])
            ctx.require("NO_FAILURE" in near, "maximum-rate", f"{text}, but at 99 % of it {got[:2]}, at lower rates {got[4:]}")
            if t.liquid:
                ctx.obs("set aside: maximum rate of a fluid with liquid, found from the density with the liquid")
                continue
            ctx.require(got[2:4] != ["NO_FAILURE"] * 2, "maximum-rate", f"{text}, but no failure at 101 % of it")
        elif t.stages[0].dp:
            # (the lowest rate searched is that at the pressure ahead of the pressure drop)
            ctx.obs("set aside: maximum rate 0 of a stage with a pressure drop")
        elif len(t.stages) == 1:
            # (a train whose stages have no rate in common without recirculation has a maximum rate of 0)
            ctx.obs("maximum rate 0")
            ctx.require(got[:4] != ["NO_FAILURE"] * 4, "maximum-rate", f"{text}, but 1 Sm3/d can be compressed")
