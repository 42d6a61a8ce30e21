"""P24 process units: each does its one job to the stream, conserves the rest, and says no when it cannot."""

from __future__ import annotations

import warnings

from vf import fakeneqsim as fn
from vf.compref import CompRef, campbell, chart_data, random_chart
from vf.fluids import random_fluid
from vf.streams import S, comp, consistent, mixed, same_stream

CASES = {"quick": 6000, "thorough": 60000}
RULE = "random streams (compositions, equations of state, pressures, temperatures, rates) through random trains of process units, one by one and through the runner; distinct by fluid, units and rates"
MIN_OBS = {
    "choke": 3000, "pressure-dropper": 3000, "temperature": 3000, "liquid": 3000, "splitter": 3000, "mixer": 3000, "recirculation": 10000, "compressor": 5000, "runner": 5000,
    "error: OfftakeExceedsInletError": 120, "error: InsufficientInletPressureError": 300, "error: LiquidAtInletError": 90, "error: CompressorSurgeError": 80,
    "error: CompressorStonewallError": 120, "compressor-range": 4000, "mixing": 4000, "mixing-order": 2000, "legacy-splitter": 3000, "rate-modifier": 3000, "shaft": 1000, "liquid removed": 40,
    "configuration": 3000,
}
ASSUMPTIONS = ["the thermodynamic package is replaced by an analytic stand-in with NeqSim's interface"]


def setup(tier):
    fn.install()


def wet_ok(model):
    return not model.eos_model.value.startswith("GERG")


def random_state(rng, model, std=None):
    P = rng.choice([rng.uniform(1.5, 20), rng.uniform(10, 90), rng.uniform(60, 180)])
    T = rng.choice([rng.uniform(274, 390), rng.uniform(274, 390), rng.uniform(274, 300)])
    std = rng.choice([0.0, 1.0]) if rng.random() < 0.04 else std or 10 ** rng.uniform(3.5, 7)
    return S(model, P, T, std * fn.standard_density(model) / 24)


def make(service, s: S):
    return service.create_stream_from_mass_rate(fluid_model=s.model, pressure_bara=s.P, temperature_kelvin=s.T, mass_rate_kg_per_h=s.mass)


class Refused(Exception):
    pass


def chart_for(ctx, s: S):
    """a chart the stream fits in, mostly"""
    rng = ctx.rng
    actual = max(s.actual, 1.0)
    return random_chart(rng, q_design=actual * rng.choice([1.0, 1.0, 1.0, rng.uniform(0.3, 3)]), h_design=rng.uniform(20e3, 120e3))


def compression(ref, n, s: S):
    """what a compressor at a speed makes of a stream: an error's name or (head, efficiency)"""
    if s.state.v < 0.9999:
        return "LiquidAtInletError"
    q = s.actual
    if q < ref.qmin(n):
        return "CompressorSurgeError"
    if q > ref.qmax(n):
        return "CompressorStonewallError"
    return ref.lookup(n, q)


def check_compression(ctx, s, out, head, eta, mech="compressor", text="", rel_p=2e-3):
    """outlet of a compression by polytropic head and efficiency"""
    ctx.close(out.mass_rate_kg_per_h, s.mass, mech, f"{text}mass through the compressor", rel=1e-9)
    ctx.close(out.enthalpy_joule_per_kg - s.state.h, head / eta, mech, f"{text}enthalpy added by head {head:.6g}, efficiency {eta:.4g}", rel=2e-4, abs_=20.0)
    st2 = fn.state(s.model, out.pressure_bara, out.temperature_kelvin)
    p = campbell(s.P, s.state.T, (s.state.z + st2.z) / 2, (s.state.kappa + st2.kappa) / 2, s.state.m, head, eta)
    if p < 1500:
        ctx.close(out.pressure_bara, p, mech, f"{text}outlet pressure of head {head:.6g}, efficiency {eta:.4g} on {s}", rel=rel_p)
    ctx.require(comp(out.fluid_model) == comp(s.model) or all(abs(a - b) < 1e-12 for a, b in zip(comp(out.fluid_model).values(), comp(s.model).values())), mech, "composition changed in the compressor")
    consistent(ctx, out, mech, f"{text}compressor outlet")


def walk(ctx, service):
    """a random train of units: every unit by itself against its own specification, then the train as a whole"""
    from libecalc.process.process_pipeline.process_error import ProcessError
    from libecalc.process.process_solver.process_pipeline_runner import ProcessPipelineRunner, propagate_stream_many
    from libecalc.process.process_units.choke import Choke
    from libecalc.process.process_units.compressor import Compressor
    from libecalc.process.process_units.direct_mixer import DirectMixer
    from libecalc.process.process_units.direct_splitter import DirectSplitter
    from libecalc.process.process_units.liquid_remover import LiquidRemover
    from libecalc.process.process_units.mixer import Mixer
    from libecalc.process.process_units.pressure_dropper import PressureDropper
    from libecalc.process.process_units.splitter import Splitter
    from libecalc.process.process_units.temperature_setter import TemperatureSetter

    rng = ctx.rng
    model = random_fluid(rng, wet=True if rng.random() < 0.4 else None)
    if not wet_ok(model):
        model = random_fluid(rng, wet=False, eos=model.eos_model)
    s = random_state(rng, model)
    first = inlet = make(service, s)
    units, outlets, failed = [], [], None
    kinds = []
    for _ in range(rng.choice([2, 4, 6, 9])):
        kind = rng.choice(["choke", "dropper", "temperature", "liquid", "splitter", "mixer", "dmix", "dsplit", "compressor", "compressor"])
        kinds.append(kind)
        err, want, text = None, s, ""
        if kind in ("choke", "dropper"):
            dp = rng.choice([0.0, rng.uniform(0, 0.5) * s.P, s.P, s.P * 1.2, 1e-9])
            if kind == "choke":
                u = Choke(service, pressure_change=dp if rng.random() < 0.5 else 0.0)
                u.set_pressure_change(dp)
            else:
                u = PressureDropper(service, pressure_drop_bara=dp if rng.random() < 0.5 else 0.0)
                u.set_pressure_drop(dp)
            text = f"{kind} of {dp} bar on {s}"
            mech = "choke" if kind == "choke" else "pressure-dropper"
            if s.P - dp <= 0:
                err = "InsufficientInletPressureError"
            else:
                want = s.but(P=s.P - dp)
        elif kind == "temperature":
            T = rng.choice([s.T, rng.uniform(275, 400)])
            u = TemperatureSetter(service, required_temperature_kelvin=T)
            mech, text, want = "temperature", f"temperature set to {T} on {s}", s.but(T=T)
        elif kind == "liquid":
            u = LiquidRemover(service)
            mech, text = "liquid", f"liquid removed from {s}"
            st = s.state
            if 0.9998 < st.v < 0.99995 or not 1e-3 < st.v:
                kinds.pop()
                continue
            if st.v < 0.9999:
                ctx.obs("liquid removed")
                gas = FluidComposition_of(st.gas)
                m = fn.mix(st.gas)[0]
                want = S(type(s.model)(eos_model=s.model.eos_model, composition=gas), s.P, s.T, s.mass * st.v * m / st.m)
        elif kind == "splitter":
            rate = rng.choice([0.0, s.std * rng.random(), s.std * 1.01 + 1])
            u = Splitter(service, rate=rate if rng.random() < 0.5 else 3.0)
            u.set_rate(rate)
            mech, text = "splitter", f"offtake of {rate} Sm3/d from {s}"
            if rate > s.std:
                err = "OfftakeExceedsInletError"
            else:
                want = s.but(mass=s.mass - rate * s.sd / 24)
                off = u.get_split_stream(inlet)
                ctx.close(off.mass_rate_kg_per_h + want.mass, s.mass, "splitter", f"{text}: mass of offtake and rest", rel=1e-9)
                same_stream(ctx, off, s.but(mass=s.mass - want.mass), "splitter", f"{text}: the offtake")
        elif kind == "mixer":
            other = random_state(rng, random_fluid(rng, wet=None if wet_ok(model) else False, eos=model.eos_model))
            u = Mixer(service)
            if rng.random() < 0.3:
                u.set_stream(make(service, random_state(rng, other.model)))
            u.set_stream(make(service, other))
            mech, text = "mixer", f"{other} mixed into {s}"
            if other.mass + s.mass == 0:
                kinds.pop()
                continue
            x, P, h, mass = mixed([s, other])
            want = None
        elif kind == "dmix":
            rate = rng.choice([0.0, s.std * rng.random(), 1e4])
            u = DirectMixer(mix_rate=rate)
            mech, text, want = "recirculation", f"{rate} Sm3/d added to {s}", s.but(mass=s.mass + rate * s.sd / 24)
        elif kind == "dsplit":
            rate = rng.choice([0.0, s.std * rng.random() * 0.9])
            u = DirectSplitter(split_rate=rate)
            mech, text, want = "recirculation", f"{rate} Sm3/d taken from {s}", s.but(mass=s.mass - rate * s.sd / 24)
        else:
            curves = chart_for(ctx, s)
            ref = CompRef(curves)
            n = rng.choice([rng.choice(ref.speeds), rng.uniform(ref.speeds[0], ref.speeds[-1])])
            u = Compressor(chart_data(curves), service)
            u.set_speed(n)
            mech, text = "compressor", f"compressor at {n} rpm on {s}"
            st = s.state
            if 0.9998 < st.v < 0.99995 or any(abs(s.actual - x) < 1e-4 * x for x in (ref.qmin(n), ref.qmax(n))):
                kinds.pop()
                continue
            got = compression(ref, n, s)
            if isinstance(got, str):
                err = got
            else:
                want = None
                head, eta = got
                if st.m * head * ((st.kappa - 1) / (st.kappa * eta)) / (st.z * 8.314 * s.T) > 1.5:
                    kinds.pop()  # not a pressure ratio anyone compresses by in one stage
                    continue
        units.append(u)
        before = (inlet.pressure_bara, inlet.temperature_kelvin, inlet.mass_rate_kg_per_h)
        try:
            out = u.propagate_stream(inlet)
        except ProcessError as e:
            ctx.require(err == type(e).__name__, "error", f"{text}: refused with {type(e).__name__}: {e}, expected {err or 'an outlet stream'}")
            ctx.obs("error: " + err)
            failed = err
            break
        ctx.require(err is None, "error", f"{text}: gives {out.pressure_bara} bara, {out.mass_rate_kg_per_h} kg/h, expected {err}")
        ctx.require(before == (inlet.pressure_bara, inlet.temperature_kelvin, inlet.mass_rate_kg_per_h), mech, "the inlet stream was changed")
        if kind == "mixer":
            check_mix(ctx, out, x, P, h, mass, "mixer", text)
        elif kind == "compressor":
            check_compression(ctx, s, out, head, eta)
        else:
            same_stream(ctx, out, want, mech, text, rel=1e-6 if kind == "liquid" else 1e-8)
        again = u.propagate_stream(inlet)
        ctx.require((again.pressure_bara, again.temperature_kelvin, again.mass_rate_kg_per_h) == (out.pressure_bara, out.temperature_kelvin, out.mass_rate_kg_per_h), mech, f"{text}: another answer the second time")
        ctx.obs(mech)
        outlets.append(out)
        inlet, s = out, S.of(out)
    if not units:
        return
    # the whole train
    runner = ProcessPipelineRunner(units=units, configuration_handlers=[])
    for run in (lambda: runner.run(first), lambda: propagate_stream_many(units, first)):
        try:
            out = run()
        except ProcessError as e:
            ctx.require(failed == type(e).__name__, "runner", f"the train of {kinds} fails with {type(e).__name__}, unit by unit {failed or 'it does not fail'}")
        else:
            ctx.require(not failed, "runner", f"the train of {kinds} gives a stream, unit by unit it fails with {failed}")
            ctx.require((out.pressure_bara, out.mass_rate_kg_per_h, out.temperature_kelvin) == (outlets[-1].pressure_bara, outlets[-1].mass_rate_kg_per_h, outlets[-1].temperature_kelvin), "runner", "the train differs from its units one by one")
    for i in rng.sample(range(len(outlets) + (failed is not None)), min(2, len(units))):
        got = runner.run(first, to_id=units[i].get_id())
        want = outlets[i - 1] if i else first
        ctx.require((got.pressure_bara, got.mass_rate_kg_per_h, got.temperature_kelvin) == (want.pressure_bara, want.mass_rate_kg_per_h, want.temperature_kelvin), "runner", f"the stream entering unit {i} of {kinds}")
    ctx.distinct(repr((comp(model), model.eos_model.value, kinds, [u.pressure_bara for u in outlets])))


def FluidComposition_of(gas):
    from libecalc.process.fluid_stream.fluid_model import FluidComposition

    return FluidComposition(**{fn.ECALC_NAME[k]: v for k, v in gas})


def check_mix(ctx, out, x, P, h, mass, mech, text):
    ctx.close(out.mass_rate_kg_per_h, mass, mech, f"{text}: mass", rel=1e-9)
    ctx.close(out.pressure_bara, P, mech, f"{text}: pressure", rel=1e-9)
    got = comp(out.fluid_model)
    for k, v in x.items():
        if abs(got[k] - v) > 1e-9:
            ctx.violation(mech, f"{text}: mole fraction of {k} is {got[k]}, the balance gives {v}")
    ctx.close(out.enthalpy_joule_per_kg, h, mech, f"{text}: enthalpy", rel=1e-5, abs_=10.0)
    consistent(ctx, out, mech, text)


def mixing(ctx, service):
    from libecalc.common.errors.exceptions import EcalcError
    from libecalc.domain.process.entities.process_units.legacy_mixer.legacy_mixer import LegacyMixer
    from libecalc.process.fluid_stream.fluid_model import EoSModel
    from libecalc.process.fluid_stream.stream_mixer import StreamMixer

    rng = ctx.rng
    eos = rng.choice(list(EoSModel))
    wet = None if not eos.value.startswith("GERG") else False
    k = rng.choice([1, 2, 2, 3, 5])
    ss = [random_state(rng, random_fluid(rng, wet=wet, eos=eos)) for _ in range(k)]
    if rng.random() < 0.3:
        ss.append(ss[0].but(P=rng.uniform(2, 100)))
    if rng.random() < 0.3:
        ss.append(ss[0].but(mass=0.0, P=rng.uniform(2, 100)))
    streams = [make(service, s) for s in ss]
    mixer = StreamMixer(service)
    text = f"{len(ss)} streams mixed"
    if sum(s.mass for s in ss) == 0:
        try:
            out = mixer.mix_streams(streams)
        except EcalcError:
            ctx.obs("mixing of nothing refused")
            return
        ctx.violation("mixing", f"mixing streams of no rate gives {out.mass_rate_kg_per_h} kg/h")
    x, P, h, mass = mixed(ss)
    out = mixer.mix_streams(streams)
    check_mix(ctx, out, x, P, h, mass, "mixing", text)
    order = list(range(len(ss)))
    rng.shuffle(order)
    other = LegacyMixer(len(ss), service).mix_streams([streams[i] for i in order])
    for f in ("pressure_bara", "temperature_kelvin", "mass_rate_kg_per_h", "density", "enthalpy_joule_per_kg"):
        ctx.close(getattr(other, f), getattr(out, f), "mixing-order", f"{f} with the streams in another order", rel=1e-6, abs_=1.0 if f.startswith("enth") else 1e-9)
    # two streams at a time gives the same as all at once (mass, composition, enthalpy and lowest pressure)
    if len(ss) > 2 and all(s.mass > 0 for s in ss):
        two = mixer.mix_streams([mixer.mix_streams(streams[:2]), *streams[2:]])
        ctx.close(two.mass_rate_kg_per_h, mass, "mixing-order", "mass mixed in two goes", rel=1e-9)
        ctx.close(two.enthalpy_joule_per_kg, h, "mixing-order", "enthalpy mixed in two goes", rel=1e-4, abs_=20.0)
    # different equations of state do not mix, no streams neither
    odd = make(service, random_state(rng, random_fluid(rng, wet=False, eos=rng.choice([e for e in EoSModel if e != eos]))).but(mass=5.0))
    for bad in ([*streams, odd], []):
        try:
            mixer.mix_streams(bad)
        except EcalcError:
            ctx.obs("mixing refused")
        else:
            ctx.violation("mixing", "streams with different equations of state are mixed" if bad else "mixing no streams gives a stream")
    ctx.distinct(repr([(comp(s.model), s.P, s.mass) for s in ss]))


def legacy(ctx, service):
    """splitter and anti-surge rate modifier of the common shaft trains"""
    from libecalc.domain.process.entities.process_units.legacy_splitter.legacy_splitter import LegacySplitter
    from libecalc.domain.process.entities.process_units.rate_modifier.rate_modifier import RateModifier
    from libecalc.process.shaft import VariableSpeedShaft

    rng = ctx.rng
    s = random_state(rng, random_fluid(rng, wet=False), 10 ** rng.uniform(4, 7))
    if s.mass < 100:
        s.mass = 1e4
    stream = make(service, s)
    k = rng.choice([1, 2, 3, 5])
    cuts = [rng.random() for _ in range(k)]
    tot = sum(cuts)
    rates = [s.std * c / tot for c in cuts[:-1]]
    if k > 1 and rng.random() < 0.3:
        rates[0] = 0.0
    sp = LegacySplitter(k, rates if rng.random() < 0.5 else None)
    sp.rates_out_of_splitter = rates
    outs = sp.split_stream(stream)
    ctx.require(len(outs) == k, "legacy-splitter", f"{len(outs)} streams out of a splitter of {k}")
    for o, r in zip(outs, [*rates, s.std - sum(rates)]):
        ctx.close(o.standard_rate_sm3_per_day, r, "legacy-splitter", "rate out of the splitter", rel=1e-7, abs_=1e-3)
        ctx.require(o.fluid is stream.fluid or (o.pressure_bara, o.temperature_kelvin, o.fluid_model) == (stream.pressure_bara, stream.temperature_kelvin, stream.fluid_model), "legacy-splitter", "the fluid changed in the splitter")
    ctx.close(sum(o.mass_rate_kg_per_h for o in outs), s.mass, "legacy-splitter", "mass out of the splitter", rel=1e-9)

    curves = chart_for(ctx, s)
    ref = CompRef(curves)
    shaft = VariableSpeedShaft()
    n = rng.choice([rng.choice(ref.speeds), rng.uniform(ref.speeds[0], ref.speeds[-1])])
    shaft.set_speed(n)
    rm = RateModifier(chart_data(curves), shaft)
    lo, hi = ref.qmin(n), ref.qmax(n)
    for _ in range(4):
        mode = rng.choice(["none", "mass", "fraction", "both"])
        f, m = rng.choice([0.0, 1.0, rng.random()]), rng.choice([0.0, s.mass * rng.random()])
        rm.reset()
        if mode in ("mass", "both"):
            rm.mass_rate_to_recirculate = m
        if mode in ("fraction", "both"):
            rm.fraction_of_available_capacity_to_recirculate = f
        t = s.but(mass=s.mass * rng.choice([0.1, 1.0, rng.uniform(0.1, 3)]))
        st = make(service, t)
        q = t.actual
        a = q + (m / t.state.density if mode == "mass" else f * max(0.0, hi - q) if mode in ("fraction", "both") else 0.0)
        a = max(a, lo)
        inn = rm.add_rate(st)
        ctx.close(inn.volumetric_rate_m3_per_hour, a, "rate-modifier", f"rate into the compressor with {q} m3/h arriving, {mode} recirculated (limits {lo} - {hi})", rel=1e-9)
        hot = inn.with_new_fluid(service.create_fluid(t.model, t.P * 2, t.T + 60))
        out = rm.remove_rate(hot)
        ctx.close(out.mass_rate_kg_per_h, t.mass, "rate-modifier", "mass after the recirculation is taken out again", rel=1e-9)
    ctx.distinct(repr((n, rates)))


def rotating(ctx, service):
    """compressor limits, recirculation loop and shaft"""
    from libecalc.process.process_pipeline.process_error import CompressorStonewallError, CompressorSurgeError
    from libecalc.process.process_solver.configuration import Configuration, RecirculationConfiguration, SpeedConfiguration, merge_configurations
    from libecalc.process.process_solver.process_pipeline_runner import ProcessPipelineRunner
    from libecalc.process.process_solver.recirculation_loop import RecirculationLoop
    from libecalc.process.process_units.compressor import Compressor
    from libecalc.process.process_units.direct_mixer import DirectMixer
    from libecalc.process.process_units.direct_splitter import DirectSplitter
    from libecalc.process.process_units.temperature_setter import TemperatureSetter
    from libecalc.process.shaft import SingleSpeedShaft, VariableSpeedShaft

    rng = ctx.rng
    s = random_state(rng, random_fluid(rng, wet=False), 10 ** rng.uniform(4.5, 7))
    if s.mass < 100:
        s.mass = 1e4
    charts = []
    k = rng.choice([1, 2, 3])
    while len(charts) < k:
        charts.append(chart_for(ctx, s))
    refs = [CompRef(c) for c in charts]
    cs = [Compressor(chart_data(c), service) for c in charts]
    shaft = (SingleSpeedShaft if rng.random() < 0.3 else VariableSpeedShaft)()
    for c in cs:
        shaft.connect(c)
    b = shaft.get_speed_boundary()
    ctx.require((b.min, b.max) == (max(r.speeds[0] for r in refs), min(r.speeds[-1] for r in refs)), "shaft", f"speed range {b}")
    # speed reaches every compressor on the shaft
    n = rng.uniform(refs[0].speeds[0], refs[0].speeds[-1])
    shaft.handle_configuration(Configuration(configuration_handler_id=shaft.get_id(), value=SpeedConfiguration(speed=n)))
    ctx.require(shaft.get_speed() == n and all(c.speed == n for c in cs), "shaft", "the compressors of a shaft turn at different speeds")
    if isinstance(shaft, SingleSpeedShaft):
        try:
            shaft.set_speed(n * 1.01)
        except AttributeError:
            ctx.obs("shaft")
        else:
            ctx.violation("shaft", "the speed of a single speed shaft was changed")
    else:
        shaft.set_speed(n)
    c, ref = cs[0], refs[0]
    stream = make(service, s)
    lo, hi = ref.qmin(n), ref.qmax(n)
    to_std = s.state.density / s.sd * 24
    ctx.close(c.get_minimum_standard_rate(stream), lo * to_std, "compressor-range", "least standard rate", rel=1e-7, abs_=1e-5)
    ctx.close(c.get_maximum_standard_rate(stream), hi * to_std, "compressor-range", "largest standard rate", rel=1e-7, abs_=1e-5)
    r = c.get_recirculation_range(stream)
    ctx.close(r.min, max(0.0, lo * to_std - s.std), "compressor-range", "least recirculation", rel=1e-6, abs_=1e-5)
    ctx.close(r.max, max(0.0, hi * to_std - s.std), "compressor-range", "largest recirculation", rel=1e-6, abs_=1e-5)

    mixer, splitter = DirectMixer(), DirectSplitter()
    loop = RecirculationLoop(mixer=mixer, splitter=splitter)
    runner = ProcessPipelineRunner(units=[mixer, TemperatureSetter(service, s.T), c, splitter], configuration_handlers=[loop, shaft])
    base = None
    for name, rate in (("least", r.min), ("largest", r.max), ("between", r.min + rng.random() * (r.max - r.min)), ("none", 0.0), ("too little", r.min - 1.0), ("too much", r.max + 1.0)):
        if rate < 0 or name == "too little" and r.min == 0:
            continue
        config = Configuration(configuration_handler_id=loop.get_id(), value=RecirculationConfiguration(recirculation_rate=rate))
        runner.apply_configuration(config)
        ctx.require(loop.get_recirculation_rate() == rate, "configuration", "the rate of a recirculation loop is not the one it was given")
        q = (s.mass + rate * s.sd / 24) / s.state.density
        if any(abs(q - x) < 1e-9 * x for x in (lo, hi)) and name not in ("least", "largest"):
            continue
        expect = "surge" if q < lo * (1 - 1e-12) else "stonewall" if q > hi * (1 + 1e-12) else "ok"
        if name in ("least", "between", "largest") and s.actual <= hi:
            expect = "ok"
        try:
            out = runner.run(stream)
        except (CompressorSurgeError, CompressorStonewallError) as e:
            got = "surge" if isinstance(e, CompressorSurgeError) else "stonewall"
        else:
            got = "ok"
            ctx.close(out.mass_rate_kg_per_h, s.mass, "recirculation", "mass through a recirculation loop", rel=1e-9)
            base = base or out
            h, e = ref.lookup(n, min(max(q, lo), hi))
            check_compression(ctx, s.but(mass=q * s.state.density), out.with_mass_rate(q * s.state.density), h, e, "recirculation", f"recirculating {rate} Sm3/d: ")
        ctx.require(got == expect, "compressor-range", f"recirculating {name} ({rate} of {r.min} - {r.max} Sm3/d) with {s.actual} m3/h arriving, limits {lo} - {hi}: {got}, expected {expect}")
    runner.reset_configuration_handler(loop.get_id())
    ctx.require(loop.get_recirculation_rate() == 0.0, "configuration", "a reset loop still recirculates")
    a = [Configuration(configuration_handler_id=i, value=RecirculationConfiguration(recirculation_rate=v)) for i, v in (("a", 1), ("b", 2))]
    z = [Configuration(configuration_handler_id=i, value=RecirculationConfiguration(recirculation_rate=v)) for i, v in (("b", 3), ("c", 4))]
    ctx.require({x.configuration_handler_id: x.value.recirculation_rate for x in merge_configurations(a, z)} == {"a": 1, "b": 3, "c": 4}, "configuration", "merged configurations: the latter takes precedence")
    ctx.distinct(repr((n, s.P, s.mass)))


def case(ctx):
    warnings.simplefilter("ignore")
    service = fn.fresh()
    x = ctx.rng.random()
    (walk if x < 0.5 else mixing if x < 0.65 else legacy if x < 0.8 else rotating)(ctx, service)
