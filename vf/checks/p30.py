"""P30 process simulations: the units, loops, controls, constraints, streams and events that are solved are those the YAML asks for."""

from __future__ import annotations

from libecalc.common.errors.exceptions import EcalcError, EcalcErrorType
from libecalc.domain.process.value_objects.chart.compressor.compressor_chart import CompressorChart
from libecalc.ecalc_model.ecalc_event import EcalcEventService
from libecalc.process.process_solver.configuration import Configuration, SpeedConfiguration
from libecalc.process.process_units.choke import Choke
from libecalc.process.process_units.compressor import Compressor
from libecalc.process.process_units.direct_mixer import DirectMixer
from libecalc.process.process_units.direct_splitter import DirectSplitter
from libecalc.process.process_units.inlet import Inlet
from libecalc.process.process_units.liquid_remover import LiquidRemover
from libecalc.process.process_units.mixer import Mixer
from libecalc.process.process_units.outlet import Outlet
from libecalc.process.process_units.pressure_dropper import PressureDropper
from libecalc.process.process_units.splitter import Splitter
from libecalc.process.process_units.temperature_setter import TemperatureSetter
from vf import compref, lab
from vf import fakeneqsim as fn
from vf.refmodel import Model

CASES = {"quick": 700, "thorough": 16000}
RULE = "random models with one or two process simulations of one to three pipelines (all units, controls, sections, constraints, streams, distributions, events); a fifth with one mistake; distinct by the YAML"
MIN_OBS = {"section": 900, "recirculation loop": 700, "choke": 200, "constraint": 900, "event": 40, "mistake refused": 45, "COMMON_STREAM": 120, "INDIVIDUAL_STREAMS": 120, "chart": 900, "mixer": 150, "splitter": 150}
ASSUMPTIONS = ["what a process simulation is asked is read from the objects handed to the solver; solving is the subject of P25 to P28"]
TYPES = {"COMPRESSOR": Compressor, "PRESSURE_DROPPER": PressureDropper, "TEMPERATURE_SETTER": TemperatureSetter, "LIQUID_REMOVER": LiquidRemover, "MIXER": Mixer, "SPLITTER": Splitter}
MW = {"ULTRA_DRY": 17.1, "DRY": 18.3, "MEDIUM": 19.4, "RICH": 21.4, "ULTRA_RICH": 24.6}
M = dict(water=18.015, nitrogen=28.0134, CO2=44.01, methane=16.043, ethane=30.07, propane=44.097, i_butane=58.124, n_butane=58.124, i_pentane=72.151, n_pentane=72.151, n_hexane=86.178)


def setup(tier):
    fn.install()


class Build:
    def __init__(self, rng, g):
        self.rng, self.g = rng, g
        self.charts = []
        self.units, self.fluids, self.streams, self.pipelines, self.events, self.pevents = {}, {}, {}, {}, [], []
        self.ref = {}  # definition name -> what it means

    # the parts: each returns (yaml or name, meaning) --------------------------------------------------------------
    def share(self, where, prefix, y, meaning, p=0.5):
        if self.rng.random() < p:
            n = self.g.uid(prefix)
            where[n] = y
            self.ref[n] = meaning
            return n, meaning
        return y, meaning

    def rate(self, hi=1e6):
        r = self.rng
        e = self.g.ex(0, hi, zero=0.1)
        c, f = self.g.cond()
        y = {"VALUE": e.yaml, "UNIT": "SM3_PER_DAY", **c}
        if r.random() < 0.5:
            y["TYPE"] = r.choice(["STREAM_DAY", "CALENDAR_DAY"])
        return y, lambda t: e(t) if f(t) else 0.0

    def fluid(self):
        r = self.rng
        eos = r.choice(["SRK", "PR", "GERG_SRK", "GERG_PR", None])
        y = {"EOS_MODEL": eos} if eos else {}
        if r.random() < 0.4:
            gas = r.choice([*MW, None])
            y |= {"TYPE": "PREDEFINED", **({"GAS_TYPE": gas} if gas else {})}
            return self.share(self.fluids, "fl", y, (eos or "SRK", ("gas", gas or "MEDIUM")))
        comp = {"methane": self.g.ex(0.5, 0.9, zero=0)}
        for k in r.sample([k for k in M if k != "methane"], r.randint(0, 6)):
            comp[k] = self.g.ex(0.01, 0.2, zero=0.1)
        y |= {"TYPE": "COMPOSITION", "COMPOSITION": {k: v.yaml for k, v in comp.items()}}
        return self.share(self.fluids, "fl", y, (eos or "SRK", ("parts", comp)))

    def stream(self):
        r = self.rng
        f, meaning = self.fluid()
        t, p = self.g.ex(280, 340, zero=0), self.g.ex(5, 80, zero=0)
        ry, rf = self.rate()
        y = {"NAME": self.g.uid("st"), "FLUID": f, "TEMPERATURE": t.yaml, "PRESSURE": p.yaml, "RATE": ry}
        if r.random() < 0.5:  # streams and pipelines are referred to by their names, not by their keys
            self.streams[y["NAME"] if r.random() < 0.8 else self.g.uid("in")] = y
            return y["NAME"], (meaning, t, p, rf)
        return y, (meaning, t, p, rf)

    def compressor(self, force=False):
        r = self.rng
        curves = compref.random_chart(r, n_curves=r.choice([1, 2, 3, 4]))
        unit, eff = r.choice(["KJ_PER_KG", "JOULE_PER_KG", "M"]), r.choice(["FRACTION", "PERCENTAGE"])
        w, back = {"M": (lambda h: h / 9.81, lambda h: h * 9.81), "KJ_PER_KG": (lambda h: h / 1000, lambda h: h * 1000), "JOULE_PER_KG": (lambda h: h, lambda h: h)}[unit]
        we, be = (lambda e: e, lambda e: e) if eff == "FRACTION" else (lambda e: e * 100, lambda e: e / 100)
        m = r.choice([0, 0.05, r.uniform(0, 0.3)])
        mu = r.choice(["FRACTION", "PERCENTAGE"])
        out = [(s, q, [back(w(h)) for h in hs], [be(we(e)) for e in es]) for s, q, hs, es in curves]
        if r.random() < 0.5:
            y = [{"SPEED": s, "RATE": list(q), "HEAD": [w(h) for h in hs], "EFFICIENCY": [we(e) for e in es]} for s, q, hs, es in curves]
            if r.random() < 0.4:
                r.shuffle(y)
        else:
            rows = [[s, a, w(b), we(c)] for s, q, hs, es in curves for a, b, c in zip(q, hs, es)]
            known = [k for k in self.charts if k[2] == eff]
            if known and r.random() < 0.5:  # the same file again, with other units or margin
                name, rows, _ = r.choice(known)
                speeds = sorted({x[0] for x in rows})
                out = [(s, [x[1] for x in rows if x[0] == s], [back(x[2]) for x in rows if x[0] == s], [be(x[3]) for x in rows if x[0] == s]) for s in speeds]
                y = {"FILE": name}
            else:
                y = {"FILE": self.g.csv(["SPEED", "RATE", "HEAD", "EFFICIENCY"], rows)}
                self.charts.append((y["FILE"], rows, eff))
            self.g.facility.append({"NAME": self.g.uid("other"), "TYPE": "ELECTRICITY2FUEL", "FILE": self.g.csv(["POWER", "FUEL"], [[0, 0], [10, 10]])}) if r.random() < 0.1 else None
        y = {"TYPE": "COMPRESSOR", "COMPRESSOR_MODEL": {"TYPE": "COMPRESSOR_CHART", "CHART": {"CURVES": y, "UNITS": {"HEAD": unit, "RATE": "AM3_PER_HOUR", "EFFICIENCY": eff}}, "CONTROL_MARGIN": {"UNIT": mu, "VALUE": m if mu == "FRACTION" else m * 100}}}
        return self.share(self.units, "cm", y, ("COMPRESSOR", out, m), 1.0 if force else 0.5)

    def unit(self, kind):
        r = self.rng
        if kind == "COMPRESSOR":
            known = [k for k in self.units if self.ref[k][0] == "COMPRESSOR"]
            if known and r.random() < 0.3:  # the same definition again is another compressor
                k = r.choice(known)
                return k, self.ref[k]
            return self.compressor()
        if kind == "PRESSURE_DROPPER":
            e = self.g.ex(0.5, 5)
            return self.share(self.units, "u", {"TYPE": kind, "PRESSURE_DROP": e.yaml}, (kind, e))
        if kind == "TEMPERATURE_SETTER":
            e = self.g.ex(10, 60, zero=0)
            return self.share(self.units, "u", {"TYPE": kind, "TEMPERATURE": e.yaml}, (kind, e))
        if kind == "LIQUID_REMOVER":
            return self.share(self.units, "u", {"TYPE": kind}, (kind,))
        if kind == "MIXER":
            y, s = self.stream()
            return self.share(self.units, "u", {"TYPE": kind, "SIDESTREAM": y}, (kind, s))
        y, f = self.rate(1e5)
        return self.share(self.units, "u", {"TYPE": kind, "OFFTAKE_RATE": y}, (kind, f))

    def pipeline(self):
        """sections of units, each ended by a constraint"""
        r = self.rng
        units, sections, constraints = [], [], []
        n = r.choice([1, 1, 2, 2, 3])
        for i in range(n):
            k = r.choice([1, 1, 1, 2, 3])
            kinds = ["COMPRESSOR"] * k
            for _ in range(r.choice([0, 1, 2, 3])):
                kinds.insert(r.randrange(len(kinds) + 1), r.choice(["PRESSURE_DROPPER", "TEMPERATURE_SETTER", "LIQUID_REMOVER", "MIXER", "SPLITTER"]))
            asv = r.choice(["COMMON_ASV", "INDIVIDUAL_ASV"])
            if {"MIXER", "SPLITTER"} & set(kinds):
                asv = "INDIVIDUAL_ASV"
            pc = r.choice(["UPSTREAM_CHOKE", "DOWNSTREAM_CHOKE", "COMMON_ASV" if asv == "COMMON_ASV" else r.choice(["INDIVIDUAL_ASV_RATE", "INDIVIDUAL_ASV_PRESSURE"])])
            p = self.g.ex(50, 300, zero=0)
            c = {"OUTLET_PRESSURE": p.yaml, "PRESSURE_CONTROL": pc, "ANTI_SURGE": asv}
            sec = dict(units=[], asv=asv, pc=pc, p=p, tail=0)
            for j, kind in enumerate(kinds):
                y, meaning = self.unit(kind)
                u = dict(y={"TARGET": y}, meaning=meaning, name=None)
                last = j == len(kinds) - 1
                if (last and (i < n - 1 or r.random() < 0.5)) or r.random() < 0.3:
                    u["name"] = u["y"]["NAME"] = self.g.uid("pu")
                units.append(u)
                sec["units"].append(u)
            u = sec["units"][-1]
            if i < n - 1 or (u["name"] and r.random() < 0.6):
                c["PROCESS_UNIT"] = u["name"]
                if i == n - 1 and r.random() < 0.3:  # units after the last constraint belong to the last section
                    for _ in range(r.choice([1, 2])):
                        y, meaning = self.unit(r.choice(["PRESSURE_DROPPER", "TEMPERATURE_SETTER", "LIQUID_REMOVER"]))
                        v = dict(y={"TARGET": y}, meaning=meaning, name=None)
                        units.append(v)
                        sec["units"].append(v)
                        sec["tail"] += 1
            sections.append(sec)
            constraints.append(c)
        if r.random() < 0.3:
            r.shuffle(constraints)
        name = self.g.uid("pl")
        key = name if r.random() < 0.85 else self.g.uid("key")
        y = {"NAME": name, "PROCESS_UNITS": [u["y"] for u in units]}
        events = []
        named = [u for u in units if u["name"] and u["meaning"][0] == "COMPRESSOR"]
        for u in named:
            if self.pevents and r.random() < 0.6:
                to, meaning = self.compressor(force=True)
                pe, start = r.choice(self.pevents)
                events.append((u, meaning, start))
                y.setdefault("EVENTS", []).append({"TYPE": "CHANGE", "CHANGE_TARGET": u["name"], "CHANGE_FROM": u["y"]["TARGET"] if isinstance(u["y"]["TARGET"], str) else to, "CHANGE_TO": to, "CHANGE_TYPE": "REBUNDLE", "REF": pe})
        self.pipelines[key] = y
        return dict(name=name, key=key, y=y, sections=sections, constraints=constraints, events=events, units=units)


def wrap(section):
    """the units of a section as they are solved: ('loop' | 'unit' | 'choke', ...)"""
    out, hold = [], []
    us = section["units"]
    if section["asv"] == "COMMON_ASV":
        out = ["mix", *us, "split"]
    else:
        for u in us:
            k = u["meaning"][0]
            if k in ("MIXER", "SPLITTER"):
                out += [*hold, u]
                hold = []
            elif k == "COMPRESSOR":
                out += ["mix", *hold, u, "split"]
                hold = []
            else:
                hold.append(u)
        out += hold
    if section["pc"] == "UPSTREAM_CHOKE":
        out = ["choke", *out]
    if section["pc"] == "DOWNSTREAM_CHOKE":
        out = [*out, "choke"]
    return out


def case(ctx):
    rng = ctx.rng
    g = Model(rng, dated=rng.choice([0.0, 0.3]))
    g.compose(n_inst=1, gensets=0, venting=0, fuel_consumers=1, fuel_kinds=["direct"])
    b = Build(rng, g)
    for _ in range(rng.choice([0, 1, 2])):
        n, start = g.uid("ev"), rng.choice(g.grid)
        b.events.append({"NAME": n, "TYPE": rng.choice(["TIE_IN", "CALIBRATION", "OTHER"]), "START": start})
        for _ in range(rng.choice([0, 1, 2])):
            pe = g.uid("pe")
            b.pevents.append((pe, start))
            b.ref[pe] = n
    sims = []
    for _ in range(rng.choice([1, 1, 2])):
        pls = [b.pipeline() for _ in range(rng.choice([1, 1, 2, 3]))]
        y = {"NAME": g.uid("ps"), "TARGETS": [p["name"] for p in pls]}
        cons = [(p["name"], p["constraints"]) for p in pls]
        if rng.random() < 0.3:
            rng.shuffle(cons)
        y["CONSTRAINTS"] = dict(cons)
        if rng.random() < 0.5:
            s, meaning = b.stream()
            settings, want = [], []
            for _ in range(rng.choice([1, 2, 3])):
                fr = [g.ex(0, 1) for _ in pls]
                st = {"RATE_FRACTIONS": [e.yaml for e in fr]}
                over = []
                if len(pls) > 1 and rng.random() < 0.6:
                    for _ in range(rng.choice([1, 2])):
                        i, j = rng.sample(range(len(pls)), 2)
                        over.append((i, j))
                    st["OVERFLOW"] = [{"FROM_REFERENCE": pls[i]["name"], "TO_REFERENCE": pls[j]["name"]} for i, j in over]
                settings.append(st)
                want.append((fr, over))
            y["STREAM_DISTRIBUTION"] = {"METHOD": "COMMON_STREAM", "INLET_STREAM": s, "SETTINGS": settings}
            dist = ("COMMON_STREAM", meaning, want)
        else:
            ss = [b.stream() for _ in pls]
            y["STREAM_DISTRIBUTION"] = {"METHOD": "INDIVIDUAL_STREAMS", "INLET_STREAMS": [s for s, _ in ss]}
            dist = ("INDIVIDUAL_STREAMS", [m for _, m in ss])
        sims.append((y, pls, dist))
    m, files = g.build()
    if rng.random() < 0.1:  # the first date of the series, which is where it starts without
        m.pop("START")
        ctx.obs("without START")
    m["PROCESS_PIPELINES"], m["PROCESS_SIMULATIONS"] = b.pipelines, [y for y, _, _ in sims]
    if b.streams:
        m["INLET_STREAMS"] = b.streams
    if b.units or b.fluids:
        m["DEFINITIONS"] = {k: v for k, v in (("PROCESS_UNITS", b.units), ("FLUIDS", b.fluids)) if v}
    if b.events:
        m["ECALC_EVENTS"] = b.events
    if b.pevents:
        m["PROCESS_EVENTS"] = [{"NAME": pe, "TYPE": rng.choice(["OTHER", "INCREASED_GAS_RATE"]), "REF": b.ref[pe]} for pe, _ in b.pevents]
    wrong = mistake(rng, m, sims, b) if rng.random() < 0.2 else None
    ctx.note(yaml=lab.dump(m), files=files, wrong=wrong)
    with lab.scratch() as d:
        try:
            model = lab.load(lab.write_files(d, m, files))
            pipelines, simulations = model.get_process_simulations(EcalcEventService(model.get_events()))
        except EcalcError as e:
            if e.error_type != EcalcErrorType.CLIENT_ERROR:
                raise
            ctx.require(wrong is not None, "refused", f"a correct process simulation is refused: {str(e)[:300]}")
            ctx.obs("mistake refused")
            ctx.obs(f"wrong {wrong}")
            return
    ctx.require(wrong is None, f"mistake {wrong}", f"not refused: {wrong}")
    ctx.require([s.get_name() for s in simulations] == [y["NAME"] for y, _, _ in sims], "names", "other simulations than asked for, or in another order")
    ctx.require([p.get_name() for p in pipelines] == [p["name"] for _, pls, _ in sims for p in pls], "names", "other pipelines than asked for, or in another order")
    ids = [i.get_id() for p in pipelines for x in (p, *p.get_process_pipeline_sections(), *p.get_process_unit_connections()) for i in [x]] + [u.get_id() for p in pipelines for u in p.get_process_units()]
    ctx.require(len(set(ids)) == len(ids), "ids", "two things with the same id")
    it = iter(pipelines)
    for sim, (y, pls, dist) in zip(simulations, sims):
        ps = [next(it) for _ in pls]
        periods = list(sim.get_process_periods())
        tv = [t for t in g.tv() if "END" not in m or t < m["END"]]
        ctx.require([p.start for p in periods] == tv, "periods", f"{y['NAME']}: periods {[str(p.start) for p in periods]} instead of {list(map(str, tv))}")
        ctx.require(len(sim.process_problems) == len(pls), "problems", f"{y['NAME']}: not one problem for every pipeline")
        for p, prob, spec in zip(ps, sim.process_problems, pls):
            pipeline(ctx, y["NAME"], p, prob, spec, sim.process_configurations[p.get_id()], periods)
        distribution(ctx, y["NAME"], sim, dist, [p.get_id() for p in ps], periods)
    ctx.distinct(lab.dump(m))


def series(ctx, got, f, periods, mech, text):
    v = list(got)
    ctx.require(len(v) == len(periods), mech, f"{text}: not a value for every period")
    for x, p in zip(v, periods):
        ctx.close(x, f(p.start), mech, f"{text} from {p.start}", rel=1e-9, abs_=1e-9)


def same_chart(ctx, chart, meaning, text):
    _, curves, margin = meaning
    ref = CompressorChart(compref.chart_data(curves, margin))
    ctx.obs("chart")
    for got, want in ((chart.chart_data.get_original_curves(), ref.chart_data.get_original_curves()), (chart.chart_data.get_adjusted_curves(), ref.chart_data.get_adjusted_curves())):
        ctx.require(len(got) == len(want), "chart", f"{text}: {len(got)} curves instead of {len(want)}")
        for a, w in zip(sorted(got, key=lambda c: c.speed), sorted(want, key=lambda c: c.speed)):
            ctx.close(a.speed, w.speed, "chart", f"{text}: speed")
            for what in ("rate_values", "head_values", "efficiency_values"):
                ctx.close_list(list(getattr(a, what)), list(getattr(w, what)), "chart", f"{text}: {what} at {w.speed:.6g}", rel=1e-9)


def stream(ctx, s, meaning, periods, text):
    (eos, parts), t, p, rate = meaning
    series(ctx, s.temperature_kelvin.get_masked_values(), t, periods, "stream", f"{text}: temperature")
    series(ctx, s.pressure_bara.get_masked_values(), p, periods, "stream", f"{text}: pressure")
    series(ctx, s.standard_rate_m3_per_day.get_stream_day_values(), rate, periods, "stream", f"{text}: rate")
    for per in periods:
        f = s.fluid_model.get_value(per)
        ctx.require(str(f.eos_model) == eos or f.eos_model.name == eos, "fluid", f"{text}: {f.eos_model} instead of {eos}")
        got = {k: getattr(f.composition, k) for k in M}
        if parts[0] == "gas":
            tot = sum(got.values())
            mw = sum(v * M[k] for k, v in got.items()) / tot
            ctx.require(abs(mw - MW[parts[1]]) < 0.1, "fluid", f"{text}: {parts[1]} gas of {mw:.4g} kg/kmol")
        else:
            for k in M:
                ctx.close(got[k], parts[1][k](per.start) if k in parts[1] else 0.0, "fluid", f"{text}: {k} from {per.start}", abs_=1e-12)
    ctx.obs("stream")


def pipeline(ctx, sname, p, prob, spec, configs, periods):
    text = f"{sname}/{spec['name']}"
    sections = list(p.get_process_pipeline_sections())
    ctx.require(len(sections) == len(spec["sections"]), "sections", f"{text}: {len(sections)} sections instead of {len(spec['sections'])}")
    ctx.require(prob.get_process_pipeline_id() == p.get_id(), "problems", f"{text}: the problem is of another pipeline")
    handlers = list(prob.get_configuration_handlers())
    shaft, handlers = handlers[0], handlers[1:]
    psecs = list(prob.get_process_problem_sections())
    ctx.require(len(psecs) == len(sections), "sections", f"{text}: not a problem for every section")
    allunits, compressors, by_spec, seen = [], [], {}, set()
    con = list(p.get_process_unit_connections())
    for i, (sec, want, ps) in enumerate(zip(sections, spec["sections"], psecs)):
        ctx.obs("section")
        units = sec.get_process_units()
        shape = wrap(want)
        if i == 0:
            shape = ["inlet", *shape]
        if i == len(sections) - 1:
            shape = [*shape, "outlet"]
        cls = [{"inlet": Inlet, "outlet": Outlet, "choke": Choke, "mix": DirectMixer, "split": DirectSplitter}[x] if isinstance(x, str) else TYPES[x["meaning"][0]] for x in shape]
        ctx.require([type(u) for u in units] == cls, "units", f"{text} section {i + 1}: {[type(u).__name__ for u in units]} instead of {[c.__name__ for c in cls]}")
        mixers = []
        for u, x in zip(units, shape):
            if x == "mix":
                mixers.append(u)
            elif x == "split":
                mx = mixers.pop()
                h = [h for h in handlers if getattr(h, "get_mixer_id", lambda: None)() == mx.get_id()]
                ctx.require(len(h) == 1 and h[0].get_splitter_id() == u.get_id(), "loops", f"{text} section {i + 1}: recirculation is not from the splitter to its mixer")
                seen.add(h[0].get_id())
                ctx.obs("recirculation loop")
            elif x == "choke":
                h = [h for h in handlers if getattr(h, "get_choke_id", lambda: None)() == u.get_id()]
                ctx.require(len(h) == 1, "choke", f"{text} section {i + 1}: the choke is not controlled")
                seen.add(h[0].get_id())
                ctx.obs("choke")
            elif not isinstance(x, str):
                by_spec[id(x)] = u
                kind = x["meaning"][0]
                if kind == "COMPRESSOR":
                    compressors.append(u)
                    same_chart(ctx, u.compressor_chart, x["meaning"], f"{text} section {i + 1}")
                elif kind == "LIQUID_REMOVER":
                    ctx.require(u.get_id() not in configs, "settings", f"{text}: a setting for a liquid remover")
                else:
                    c = configs.get(u.get_id())
                    ctx.require(c is not None, "settings", f"{text}: no setting for a {kind}")
                    if kind == "PRESSURE_DROPPER":
                        series(ctx, c.pressure_drop_in_bara.get_masked_values(), x["meaning"][1], periods, "settings", f"{text}: pressure drop")
                    elif kind == "TEMPERATURE_SETTER":
                        series(ctx, c.temperature_in_celsius.get_masked_values(), x["meaning"][1], periods, "settings", f"{text}: temperature")
                    elif kind == "MIXER":
                        stream(ctx, c.sidestream, x["meaning"][1], periods, f"{text}: side stream")
                        ctx.obs("mixer")
                    else:
                        series(ctx, c.offtake_rate.get_stream_day_values(), x["meaning"][1], periods, "settings", f"{text}: offtake")
                        ctx.obs("splitter")
        # the constraint
        c = ps.get_constraint()
        ctx.require(ps.get_process_pipeline_section_id() == sec.get_id(), "sections", f"{text}: the problem of section {i + 1} is of another section")
        series(ctx, c.outlet_pressure.get_masked_values(), want["p"], periods, "constraint", f"{text} section {i + 1}: outlet pressure")
        ctx.require(ps.get_pressure_control().type == want["pc"] and ps.get_anti_surge().type == want["asv"], "constraint", f"{text} section {i + 1}: {ps.get_pressure_control().type}, {ps.get_anti_surge().type} instead of {want['pc']}, {want['asv']}")
        ends = [units[-1]] if i < len(sections) - 1 else [units[-2]]
        if want["tail"]:  # after the constraint's own unit, units that belong to no constraint
            ends += [by_spec[id(u)] for u in want["units"][-1 - want["tail"] :]]
        ctx.require(c.target_process_unit_id in {u.get_id() for u in ends}, "constraint", f"{text} section {i + 1} of {len(sections)}: the pressure is set at {next((type(u).__name__ for u in p.get_process_units() if u.get_id() == c.target_process_unit_id), None)}, not at the end of the section ({type(ends[0]).__name__})")
        k = [x for x in con if x.get_id() == c.target_process_connection_id]
        ctx.require(len(k) == 1 and k[0].get_from_process_unit_id() == c.target_process_unit_id, "constraint", f"{text} section {i + 1}: not the connection out of the unit")
        ctx.obs("constraint")
        allunits += units
    ctx.require(set(configs) <= {u.get_id() for u in allunits}, "settings", f"{text}: settings of units of another pipeline")
    ctx.require([h.get_id() for h in handlers if h.get_id() not in seen] == [] and len(handlers) == len(seen), "handlers", f"{text}: other controls than the units have")
    ctx.require([(x.get_from_process_unit_id(), x.get_to_process_unit_id()) for x in con] == [(x.get_id(), z.get_id()) for x, z in zip(allunits, allunits[1:])], "connections", f"{text}: the connections do not follow the units")
    # one shaft
    ctx.require(sorted(map(str, shaft.get_compressor_ids())) == sorted(str(u.get_id()) for u in compressors), "shaft", f"{text}: not all compressors are on the shaft")
    n = ctx.rng.uniform(5000, 10000)
    shaft.handle_configuration(Configuration(configuration_handler_id=shaft.get_id(), value=SpeedConfiguration(n)))
    ctx.require(all(u.speed == n for u in compressors), "shaft", f"{text}: compressors at another speed than the shaft")
    ev = list(p.get_events())
    ctx.require(len(ev) == len(spec["events"]), "events", f"{text}: {len(ev)} events instead of {len(spec['events'])}")
    for e, (u, meaning, start) in zip(ev, spec["events"]):
        ctx.obs("event")
        ctx.require(e.change_target == by_spec[id(u)].get_id(), "events", f"{text}: another unit is changed")
        ctx.require(e.change_time == start, "events", f"{text}: changed at {e.change_time} instead of {start}")
        ctx.require((str(e.action), str(e.change_type)) == ("CHANGE", "REBUNDLE"), "events", f"{text}: {e.action} {e.change_type}")
        ctx.require(e.change_to.get_id() not in {x.get_id() for x in allunits}, "events", f"{text}: changed to a unit of the pipeline")
        same_chart(ctx, e.change_to.compressor_chart, meaning, f"{text} changed")


def distribution(ctx, name, sim, dist, ids, periods):
    d = sim.stream_distribution
    ins = list(sim.get_inlet_streams())
    ctx.obs(dist[0])
    if dist[0] == "COMMON_STREAM":
        ctx.require(len(ins) == 1, "distribution", f"{name}: {len(ins)} inlet streams")
        stream(ctx, ins[0], dist[1], periods, f"{name}: inlet stream")
        ctx.require(len(d.settings) == len(dist[2]), "distribution", f"{name}: {len(d.settings)} settings")
        for k, (s, (fr, over)) in enumerate(zip(d.settings, dist[2])):
            ctx.require(len(s.rate_fractions) == len(fr), "distribution", f"{name} setting {k + 1}: {len(s.rate_fractions)} fractions")
            for got, e in zip(s.rate_fractions, fr):
                series(ctx, got.get_masked_values(), e, periods, "distribution", f"{name} setting {k + 1}: fraction")
            ctx.require([(o.from_id, o.to_id) for o in s.overflow] == [(ids[i], ids[j]) for i, j in over], "distribution", f"{name} setting {k + 1}: other overflows than asked for")
            if over:
                ctx.obs("overflow")
    else:
        ctx.require(len(ins) == len(dist[1]), "distribution", f"{name}: {len(ins)} inlet streams")
        for k, (s, meaning) in enumerate(zip(ins, dist[1])):
            stream(ctx, s, meaning, periods, f"{name}: inlet stream {k + 1}")


def mistake(rng, m, sims, b):
    """puts one mistake into the model; None if this one cannot be made here"""
    y, pls, dist = rng.choice(sims)
    p = rng.choice(pls)
    cons = y["CONSTRAINTS"][p["name"]]
    named = [u for u in p["units"] if u["name"]]
    comps = [u for u in p["units"] if u["meaning"][0] == "COMPRESSOR"]
    ops = {
        "target unknown": lambda: y["TARGETS"].__setitem__(0, "nowhere"),
        "target of another kind": lambda: y["TARGETS"].__setitem__(0, m["FUEL_TYPES"][0]["NAME"]),
        "no constraint": lambda: y["CONSTRAINTS"].pop(p["name"]),
        "empty constraints": lambda: y["CONSTRAINTS"].__setitem__(p["name"], []),
        "constraint of unknown pipeline": lambda: y["CONSTRAINTS"].__setitem__("nowhere", list(cons)),
        "constraint at unknown unit": lambda: cons[0].__setitem__("PROCESS_UNIT", "nowhere"),
        "two constraints at the outlet": (lambda: cons.append(dict(next(c for c in cons if "PROCESS_UNIT" not in c)))) if any("PROCESS_UNIT" not in c for c in cons) else None,
        "two constraints at a unit": (lambda: cons.append(dict(next(c for c in cons if "PROCESS_UNIT" in c)))) if any("PROCESS_UNIT" in c for c in cons) else None,
        "outlet constrained twice": (lambda: cons.append({k: v for k, v in cons[-1].items() if k != "PROCESS_UNIT"})) if p["units"][-1]["name"] and all("PROCESS_UNIT" in c for c in cons) and not p["sections"][-1]["tail"] else None,
        "compressor after the last constraint": (lambda: p["y"]["PROCESS_UNITS"].append(dict(TARGET=comps[0]["y"]["TARGET"]))) if all("PROCESS_UNIT" in c for c in cons) else None,
        "control without its valves": lambda: cons[0].update({"PRESSURE_CONTROL": "COMMON_ASV", "ANTI_SURGE": "INDIVIDUAL_ASV"}),
        "no anti-surge": lambda: cons[0].update({"PRESSURE_CONTROL": "DOWNSTREAM_CHOKE", "ANTI_SURGE": "NO_ASV"}),
        "unknown control": lambda: cons[0].update({"PRESSURE_CONTROL": "CHOKE"}),
        "same unit name twice": (lambda: p["y"]["PROCESS_UNITS"].insert(0, {"TARGET": {"TYPE": "LIQUID_REMOVER"}, "NAME": named[0]["name"]})) if named else None,
        "unknown unit": lambda: comps[0]["y"].__setitem__("TARGET", "nowhere"),
        "unit of another kind": lambda: comps[0]["y"].__setitem__("TARGET", m["FUEL_TYPES"][0]["NAME"]),
        "unknown type": lambda: comps[0]["y"].__setitem__("TARGET", {"TYPE": "PUMP"}),
        "common valve around a mixer": (lambda: [c.update({"PRESSURE_CONTROL": "COMMON_ASV", "ANTI_SURGE": "COMMON_ASV"}) for c in cons]) if any(u["meaning"][0] in ("MIXER", "SPLITTER") for u in p["units"]) else None,
        "event for unknown unit": (lambda: p["y"]["EVENTS"][0].__setitem__("CHANGE_TARGET", "nowhere")) if p["events"] else None,
        "event to unknown unit": (lambda: p["y"]["EVENTS"][0].__setitem__("CHANGE_TO", "nowhere")) if p["events"] else None,
        "event never defined": (lambda: p["y"]["EVENTS"][0].__setitem__("REF", "nowhere")) if p["events"] else None,
        "process event without event": (lambda: m["PROCESS_EVENTS"][0].__setitem__("REF", "nowhere")) if b.pevents else None,
        "event twice": (lambda: m["ECALC_EVENTS"].append(dict(m["ECALC_EVENTS"][0]))) if b.events else None,
        "section without a compressor": (lambda: p["y"]["PROCESS_UNITS"].append({"TARGET": {"TYPE": "LIQUID_REMOVER"}, "NAME": "extra"}) or cons.append({**{k: v for k, v in cons[0].items()}, "PROCESS_UNIT": "extra"})) if all("PROCESS_UNIT" in c for c in cons) else None,
        "two pipelines of one name": lambda: m["PROCESS_PIPELINES"].__setitem__("another", {"NAME": p["name"], "PROCESS_UNITS": [comps[0]["y"]]}),
        "two streams of one name": (lambda: m["INLET_STREAMS"].__setitem__("another", {**next(iter(b.streams.values())), "PRESSURE": 3})) if b.streams else None,
        "a pipeline twice": lambda: (y["TARGETS"].append(p["name"]), y["STREAM_DISTRIBUTION"]["INLET_STREAMS"].append(y["STREAM_DISTRIBUTION"]["INLET_STREAMS"][0]) if dist[0] != "COMMON_STREAM" else [s["RATE_FRACTIONS"].append(0) for s in y["STREAM_DISTRIBUTION"]["SETTINGS"]]),
        "unknown stream": lambda: y["STREAM_DISTRIBUTION"].__setitem__("INLET_STREAM", "nowhere") if dist[0] == "COMMON_STREAM" else y["STREAM_DISTRIBUTION"]["INLET_STREAMS"].__setitem__(0, "nowhere"),
        "too few fractions": (lambda: y["STREAM_DISTRIBUTION"]["SETTINGS"][0]["RATE_FRACTIONS"].pop()) if dist[0] == "COMMON_STREAM" else None,
        "too many fractions": (lambda: y["STREAM_DISTRIBUTION"]["SETTINGS"][0]["RATE_FRACTIONS"].append(0)) if dist[0] == "COMMON_STREAM" else None,
        "too few streams": (lambda: y["STREAM_DISTRIBUTION"]["INLET_STREAMS"].pop()) if dist[0] != "COMMON_STREAM" else None,
        "too many streams": (lambda: y["STREAM_DISTRIBUTION"]["INLET_STREAMS"].append(y["STREAM_DISTRIBUTION"]["INLET_STREAMS"][0])) if dist[0] != "COMMON_STREAM" else None,
        "overflow to nowhere": (lambda: y["STREAM_DISTRIBUTION"]["SETTINGS"][0].__setitem__("OVERFLOW", [{"FROM_REFERENCE": p["name"], "TO_REFERENCE": "nowhere"}])) if dist[0] == "COMMON_STREAM" else None,
        "overflow from nowhere": (lambda: y["STREAM_DISTRIBUTION"]["SETTINGS"][0].__setitem__("OVERFLOW", [{"FROM_REFERENCE": "nowhere", "TO_REFERENCE": p["name"]}])) if dist[0] == "COMMON_STREAM" else None,
    }
    ops = {k: v for k, v in ops.items() if v is not None}
    k = rng.choice(list(ops))
    ops[k]()
    return k
