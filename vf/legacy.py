"""Compressor trains on a common shaft as the YAML model has them: random ones, and an independent forward model of them."""

from __future__ import annotations

import datetime as dt
from dataclasses import dataclass, field

from vf import fakeneqsim as fn
from vf import lab
from vf.compref import CompRef, campbell, random_chart
from vf.fluids import random_fluid
from vf.streams import S, mixed

CONTROLS = ["DOWNSTREAM_CHOKE", "UPSTREAM_CHOKE", "COMMON_ASV", "INDIVIDUAL_ASV_RATE", "INDIVIDUAL_ASV_PRESSURE"]
C0 = 273.15


@dataclass
class Stage:
    T: float
    dp: float
    curves: list
    margin: float
    ref: CompRef = None
    ins: list = field(default_factory=list)  # indices of the streams mixed in / taken out ahead of the stage
    outs: list = field(default_factory=list)

    def __post_init__(self):
        self.ref = CompRef(self.curves, self.margin)


@dataclass
class Train:
    model: object  # fluid of the first stream
    stages: list
    single: bool
    streams: list  # [(name, fluid or None)]; the first is the inlet
    liquid: bool = False  # set when liquid is removed
    inter: int | None = None  # stage with an interstage control pressure

    @property
    def speeds(self):
        return max(s.ref.speeds[0] for s in self.stages), min(s.ref.speeds[-1] for s in self.stages)


class Out(Exception):
    """the forward model has no answer there"""


@dataclass
class Point:
    """one stage in operation: S before it, rates before and with recirculation, head, efficiency, S after it"""

    inlet: S
    q0: float
    q: float
    head: float
    eta: float
    outlet: S
    over: bool

    @property
    def power(self):
        return self.q * self.inlet.state.density * self.head / self.eta / 3.6e9


def scrubbed(s: S) -> S:
    """without its liquid"""
    st = s.state
    if st.v >= 0.9999:
        return s
    if st.v < 1e-3:
        raise Out("all liquid")
    from libecalc.process.fluid_stream.fluid_model import FluidComposition

    gas = FluidComposition(**{fn.ECALC_NAME[n]: x for n, x in st.gas})
    return S(type(s.model)(eos_model=s.model.eos_model, composition=gas), s.P, s.T, s.mass * st.v * fn.mix(st.gas)[0] / st.m)


def ahead(train: Train, stage: Stage, s: S, rates) -> S:
    """what reaches the compressor of a stage: offtakes out, other streams in, pressure drop, cooled, liquid out"""
    from libecalc.process.fluid_stream.fluid_model import FluidComposition

    for i in stage.outs:
        s = s.but(mass=s.mass - rates[i] * s.sd / 24)
    more = [S(train.streams[i][1], s.P, s.T, rates[i] * fn.standard_density(train.streams[i][1]) / 24) for i in stage.ins]
    if sum(x.mass for x in more) > 0:
        if s.mass > 0:
            x, _, _, mass = mixed([s, *more])
        else:
            x, _, _, mass = mixed([m for m in more if m.mass > 0])
        s = S(type(s.model)(eos_model=s.model.eos_model, composition=FluidComposition(**x)), s.P, s.T, mass)
    if s.P - stage.dp <= 0.5:
        raise Out("no pressure left")
    s = s.but(P=s.P - stage.dp, T=stage.T)
    dry = scrubbed(s)
    if dry is not s:
        train.liquid = True
    return dry


def compressed(s: S, head, eta) -> S:
    st = s.state
    h2 = st.h + head / eta
    p = campbell(s.P, st.T, st.z, st.kappa, st.m, head, eta)
    for _ in range(60):
        if not 0.5 < p < 1500:
            raise Out("pressure out of reach")
        st2 = fn.state_ph(s.model, p, h2)
        new = campbell(s.P, st.T, (st.z + st2.z) / 2, (st.kappa + st2.kappa) / 2, st.m, head, eta)
        if abs(new - p) < 1e-9 * p:
            break
        p = new
    return s.but(P=new, T=st2.T)


def run_stage(train, stage, s, rates, speed, fraction=0.0, mass=0.0) -> Point:
    s = ahead(train, stage, s, rates)
    c = stage.ref
    q0 = s.actual
    lo, hi = c.qmin(speed), c.qmax(speed)
    q = q0 + mass / s.state.density
    q += fraction * max(0.0, hi - q)
    q = max(q, lo)
    over = q > hi
    head, eta = c.lookup(speed, min(q, hi))
    return Point(s, q0, q, head, eta, compressed(s, head, eta), over)


def forward(train, rates, ps, speed, fraction=0.0, mass=0.0, part=None, inlet=None) -> list[Point]:
    """the stages at a speed, recirculating only what the charts' minimum flow (or the arguments) ask for"""
    stages = part or train.stages
    s = inlet or S(train.model, ps, stages[0].T, rates[0] * fn.standard_density(train.model) / 24)
    out = []
    for st in stages:
        out.append(run_stage(train, st, s, rates, speed, fraction, mass))
        s = out[-1].outlet
    return out


def within(points, slack=0.0):
    return all(p.q0 <= p_hi * (1 + slack) for p, p_hi in points)


# ---- random trains ----------------------------------------------------------------------------------------------------


def random_train(rng, single=None, multi=False, stages=None, inter=None, wet=None) -> Train:
    """multi: with streams in and out between stages; inter: with an interstage control pressure"""
    wet = rng.random() < 0.25 if wet is None else wet
    eos = rng.choice(["SRK", "PR"] if wet else ["SRK", "PR", "GERG_SRK", "GERG_PR"])
    from libecalc.process.fluid_stream.fluid_model import EoSModel

    model = random_fluid(rng, wet=wet, eos=EoSModel(eos))
    single = (rng.random() < 0.35 if single is None else single) and not multi
    k = stages or (rng.choice([2, 3, 3, 4]) if multi else rng.choice([1, 1, 2, 2, 3]))
    P = rng.uniform(8, 60)
    std = 10 ** rng.uniform(5, 6.9)
    top = rng.uniform(8000, 12000)
    t = Train(model, [], single, [("in", model)])
    t.std, t.P = [std], P
    s = S(model, P, 300, std * fn.standard_density(model) / 24)
    for i in range(k):
        dp = rng.choice([0.0, 0.0, rng.uniform(0.1, 0.6)])
        stage = Stage(rng.uniform(18, 45) + C0, dp, [(1.0, [0.0, 1.0], [1.0, 0.5], [0.7, 0.7])], 0.0)
        if multi and (i or rng.random() < 0.2):
            left = s.std
            if i and rng.random() < 0.4:
                for _ in range(rng.choice([1, 1, 2])):
                    stage.outs.append(len(t.streams))
                    t.streams.append((f"out{len(t.streams)}", None))
                    t.std.append(left * rng.uniform(0.05, 0.3))
            if rng.random() < 0.4:
                for _ in range(rng.choice([1, 1, 2])):
                    stage.ins.append(len(t.streams))
                    t.streams.append((f"in{len(t.streams)}", random_fluid(rng, wet=wet, eos=model.eos_model)))
                    t.std.append(std * rng.uniform(0.05, 0.5))
        try:
            s = ahead(t, stage, s, t.std)
        except Out:
            return random_train(rng, single, multi, stages, inter, False)
        head = rng.uniform(40e3, 90e3)
        q = s.actual * rng.choice([rng.uniform(0.9, 1.15), rng.uniform(1.05, 1.4), rng.uniform(1.2, 2.0), rng.uniform(0.6, 1.8)])
        curves = random_chart(rng, n_curves=1 if single else rng.choice([2, 3, 5]), q_design=q, h_design=head)
        f = top / curves[-1][0]
        curves = [(round(n * f, 6), *r) for n, *r in curves]
        m = rng.choice([0.0, 0.0, rng.uniform(0, 0.2)])
        if i and rng.random() < 0.15:  # the same machine again, with another margin
            curves, m = t.stages[-1].curves, rng.uniform(0.02, 0.2)
        t.stages.append(Stage(stage.T, dp, curves, m, ins=stage.ins, outs=stage.outs))
        try:
            s = compressed(s, head * 0.85, 0.72)
        except Out:
            return random_train(rng, single, multi, stages, inter, wet)
    if inter or (inter is None and multi and k > 1 and rng.random() < 0.5):
        t.inter = rng.randint(1, k - 1)
    return t


def tidy_stages(stages):
    for s in stages:
        s.__post_init__()
    return stages


def yaml_models(rng, t: Train, name, control, extra, order=None, csv=None):
    """-> MODELS entries (fluids, charts, the train) and facility inputs; order: permutation in which STREAMS are listed"""
    models, fac = [], []

    def fluid(f):
        from dataclasses import asdict

        nm = f"{name}_fluid{len(models)}"
        y = {"NAME": nm, "TYPE": "FLUID", "FLUID_MODEL_TYPE": "COMPOSITION", "EOS_MODEL": f.eos_model.value, "COMPOSITION": {k: v for k, v in asdict(f.composition).items() if v}}
        models.append(y)
        return nm

    names = [fluid(f) if f is not None else None for _, f in t.streams]
    stages, charts = [], []
    for i, s in enumerate(t.stages):
        unit = rng.choice(["M", "KJ_PER_KG", "JOULE_PER_KG"])
        wr = {"M": lambda h: h / 9.81, "KJ_PER_KG": lambda h: h / 1000, "JOULE_PER_KG": lambda h: h}[unit]
        eu = rng.choice(["PERCENTAGE", "FRACTION"])
        we = (lambda e: e * 100) if eu == "PERCENTAGE" else (lambda e: e)
        chart = {"NAME": f"{name}_chart{i}", "TYPE": "COMPRESSOR_CHART", "CHART_TYPE": "SINGLE_SPEED" if t.single else "VARIABLE_SPEED", "UNITS": {"RATE": "AM3_PER_HOUR", "HEAD": unit, "EFFICIENCY": eu}}
        cs = []
        for n, q, h, e in s.curves:
            pts = list(zip(q, map(wr, h), map(we, e)))
            if rng.random() < 0.3:
                rng.shuffle(pts)
            c = {"SPEED": n, "RATE": [p[0] for p in pts], "HEAD": [p[1] for p in pts], "EFFICIENCY": [p[2] for p in pts]}
            cs.append(c)
        if t.single:
            chart["CURVE"] = cs[0]
        else:
            if rng.random() < 0.3:
                rng.shuffle(cs)
            chart["CURVES"] = cs
        if csv and rng.random() < 0.3:
            rows = [[c["SPEED"], a, b, d] for c in cs for a, b, d in zip(c["RATE"], c["HEAD"], c["EFFICIENCY"])]
            chart["CURVE" if t.single else "CURVES"] = {"FILE": csv(["SPEED", "RATE", "HEAD", "EFFICIENCY"], rows)}
        if i and s.curves is t.stages[i - 1].curves and rng.random() < 0.8:
            chart = charts[-1]
        else:
            models.append(chart)
        charts.append(chart)
        pct = rng.random() < 0.5
        y = {"INLET_TEMPERATURE": s.T - C0, "COMPRESSOR_CHART": chart["NAME"], "CONTROL_MARGIN": s.margin * 100 if pct else s.margin, "CONTROL_MARGIN_UNIT": "PERCENTAGE" if pct else "FRACTION"}
        if s.dp or rng.random() < 0.3:
            y["PRESSURE_DROP_AHEAD_OF_STAGE"] = s.dp
        ref = ([0] if i == 0 and len(t.streams) > 1 or i == 0 and extra.get("multi") else []) + s.outs + s.ins
        if ref and extra.get("multi"):
            if rng.random() < 0.5:
                rng.shuffle(ref)
            y["STREAM"] = [t.streams[j][0] for j in ref]
        if t.inter == i and extra.get("multi"):
            y["INTERSTAGE_CONTROL_PRESSURE"] = {"UPSTREAM_PRESSURE_CONTROL": extra["first"], "DOWNSTREAM_PRESSURE_CONTROL": extra["last"]}
        stages.append(y)
    y = {"NAME": name}
    if extra.get("multi"):
        y["TYPE"] = "VARIABLE_SPEED_COMPRESSOR_TRAIN_MULTIPLE_STREAMS_AND_PRESSURES"
        y["STREAMS"] = [
            {"NAME": t.streams[j][0], "TYPE": "OUTGOING"} if t.streams[j][1] is None else {"NAME": t.streams[j][0], "TYPE": "INGOING", "FLUID_MODEL": names[j]}
            for j in order
        ]
        y["STAGES"] = stages
    else:
        y["TYPE"] = "SINGLE_SPEED_COMPRESSOR_TRAIN" if t.single else "VARIABLE_SPEED_COMPRESSOR_TRAIN"
        y["FLUID_MODEL"] = names[0]
        y["COMPRESSOR_TRAIN"] = {"STAGES": stages}
    y["PRESSURE_CONTROL"] = control
    y.update({k: v for k, v in extra.items() if k.isupper()})
    models.append(y)
    return models, fac


def model_of(models, usage, steps, series: dict, regularity=1.0, extra_models=()):
    """a whole YAML model around one electrical consumer"""
    names = list(series)
    rows = [[d, *(series[k][i] for k in names)] for i, d in enumerate(steps)]
    m = {
        "TIME_SERIES": [{"NAME": "SIM", "TYPE": "DEFAULT", "FILE": "sim.csv"}],
        "FACILITY_INPUTS": [{"NAME": "genset", "FILE": "el.csv", "TYPE": "ELECTRICITY2FUEL"}],
        "MODELS": list(models) + list(extra_models),
        "FUEL_TYPES": [{"NAME": "fuel", "EMISSIONS": [{"NAME": "co2", "FACTOR": 2.0}]}],
        "INSTALLATIONS": [
            {
                "NAME": "inst", "HCEXPORT": 0, "FUEL": "fuel", "REGULARITY": regularity,
                "GENERATORSETS": [
                    {"NAME": "gs", "CATEGORY": "TURBINE-GENERATOR", "ELECTRICITY2FUEL": "genset", "CONSUMERS": [{"NAME": "comp", "CATEGORY": "COMPRESSOR", "ENERGY_USAGE_MODEL": usage}]}
                ],
            }
        ],
        "START": steps[0], "END": dt.datetime(steps[-1].year + 1, 1, 1),
    }
    files = {"sim.csv": lab.csv_text(["DATE", *names], rows), "el.csv": lab.csv_text(["POWER", "FUEL"], [[0, 0], [0.1, 100], [2000, 3e6]])}
    return m, files


def result_of(res, name="comp"):
    """the compressor model's result"""
    for r in res.models:
        if r.componentType == "COMPRESSOR" or getattr(r, "stage_results", None) is not None:
            return r
    raise AssertionError("no compressor model in the result")
