"""P29 pump process simulations: what the YAML asks of a pump is what is evaluated, and the streams on every connection are those of the pump chart."""

from __future__ import annotations

import math

from libecalc.common.errors.exceptions import EcalcError, EcalcErrorType
from libecalc.process.pump.liquid_stream import LiquidStream
from libecalc.process.pump.pump import Pump, PumpFailureStatus
from vf import fakeneqsim as fn
from vf import lab
from vf.refmodel import Model

CASES = {"quick": 900, "thorough": 20000}
RULE = "random models with one to three pump process simulations (charts, units, minimum flows, series and expressions over several periods); distinct by the YAML"
MIN_OBS = {"running": 1500, "off": 500, "choked": 1200, "recirculating": 200, "ABOVE_MAXIMUM_PUMP_RATE": 20, "ABOVE_MAXIMUM_HEAD_AT_RATE": 5, "propagate": 800, "topology": 2000}
ASSUMPTIONS = ["the reference chart (vf/charts.py) is the specification of the envelope; points exactly on its edge are set aside for the status only by setting them aside whole"]
S = PumpFailureStatus


def setup(tier):
    fn.install()


def speed_at(chart, q, h):
    """the speed whose curve passes through the point, between the curves"""
    from vf.charts import lin

    heads = [lin(c[1], c[2], q) for c in chart.curves]
    speeds = [c[0] for c in chart.curves]
    if len(speeds) == 1 or h <= heads[0]:
        return speeds[0]
    if h >= heads[-1]:
        return speeds[-1]
    for i in range(len(speeds) - 1):
        if heads[i] <= h <= heads[i + 1]:
            w = (h - heads[i]) / (heads[i + 1] - heads[i]) if heads[i + 1] != heads[i] else 0.0
            return speeds[i] + w * (speeds[i + 1] - speeds[i])
    return None


class Ref:
    def __init__(self, chart, minflow):
        self.chart = chart
        self.least = min(c[1][0] for c in chart.curves)
        self.minflow = self.least if minflow is None else minflow

    def at(self, rate_day, ps, pd, rho):
        c = self.chart
        head = (pd - ps) * 1e5 / rho
        if rate_day <= 0:
            return dict(on=False, head=head, q=0.0, h=0.0, rec=0.0, power=0.0, p=ps, edge=1.0)
        q0 = rate_day / 24
        qh = c.min_rate_at_head(head)
        q = max(q0, self.minflow, qh)
        hmin, hmax = c.min_head_at_rate(q), c.max_head_at_rate(q)
        h = max(head, hmin)
        e = c.efficiency(q, h)
        # heads at or below the lowest curve are lifted onto it, and on a chart with one curve that is also the highest
        edge = min((abs(head - hmax) if hmin < hmax or head >= hmin else hmax) / hmax, abs(head - hmin) / hmax if hmin == hmax else 1.0, abs(q - c.max_rate) / c.max_rate, 0.0 if c.tie and not c.perfect else 1.0)
        return dict(on=True, head=head, q=q, h=h, rec=q - q0, eff=e, work=h / e, power=q * rho * h / e / 3.6e9, p=ps + h * rho / 1e5, over_head=head > hmax, over_rate=q > c.max_rate, edge=edge, hmin=hmin)


def case(ctx):
    rng = ctx.rng
    g = Model(rng, dated=rng.choice([0.0, 0.3]))
    g.compose(n_inst=1, gensets=0, venting=0, fuel_consumers=1, fuel_kinds=["direct"])
    sims, refs = [], []
    for k in range(rng.choice([1, 1, 2, 3])):
        name, _f, maxrate, box, chart, _m = g.pump_chart(margin=0)
        g.facility[-1].pop("HEAD_MARGIN", None)
        least = min(c[1][0] for c in chart.curves)
        minflow = rng.choice([None, None, least, least * rng.uniform(1, 2.5)])
        rate = g.ex(box["rate"][0] * 0.3, box["rate"][1] * rng.choice([0.7, 1.3]), zero=rng.choice([0.0, 0.3]))
        rho = g.ex(700, 1200, zero=0)
        ps = g.ex(1, 20, zero=0)
        hi = box["head"][0] * 900 / 1e5
        pd = g.ex(rng.choice([2.0, 21.0]), max(22.0, hi * rng.choice([0.4, 0.8, 1.2])), zero=0)
        y = {
            "TYPE": "PUMP", "NAME": g.uid("pps"), "PUMP_MODEL": {"CHART": name},
            "INLET": {"RATE": rate.yaml, "PRESSURE": ps.yaml, "DENSITY": rho.yaml}, "REQUIRED_DISCHARGE_PRESSURE": pd.yaml,
        }
        if minflow is not None:
            y["PUMP_MODEL"]["MINIMUM_FLOW_RATE"] = minflow
        sims.append(y)
        refs.append((Ref(chart, minflow), rate, ps, pd, rho))
    m, files = g.build()
    if rng.random() < 0.1:  # the first date of the series, which is where it starts without
        m.pop("START")
        ctx.obs("without START")
    m["PUMP_PROCESS_SIMULATIONS"] = sims
    wrong = None
    if rng.random() < 0.2:
        i = rng.randrange(len(sims))
        y = sims[i]
        wrong = rng.choice(["margin", "minflow", "suction", "density", "discharge", "chart", "kind", "file"])
        f = next(x for x in m["FACILITY_INPUTS"] if x["NAME"] == y["PUMP_MODEL"]["CHART"])
        if wrong == "margin":
            f["HEAD_MARGIN"] = rng.choice([1, 0.001])
        elif wrong == "minflow":
            y["PUMP_MODEL"]["MINIMUM_FLOW_RATE"] = refs[i][0].least * rng.uniform(0, 0.999)
        elif wrong == "suction":
            y["INLET"]["PRESSURE"] = rng.choice([0, "0", "0 {*} 5"])
        elif wrong == "density":
            y["INLET"]["DENSITY"] = 0
        elif wrong == "discharge":
            y["REQUIRED_DISCHARGE_PRESSURE"] = 0
            y["INLET"]["RATE"] = 1000
        elif wrong == "chart":
            y["PUMP_MODEL"]["CHART"] = "nowhere"
        elif wrong == "kind":
            m["FACILITY_INPUTS"].append({"NAME": "other", "TYPE": "ELECTRICITY2FUEL", "FILE": "other.csv"})
            files["other.csv"] = "POWER,FUEL\n0,0\n10,10\n"
            y["PUMP_MODEL"]["CHART"] = "other"
        elif wrong == "file":
            rows = files[f["FILE"]].strip().split("\n")
            files[f["FILE"]] = "\n".join([rows[0].replace("HEAD", "HAED"), *rows[1:]]) + "\n"
    ctx.note(yaml=lab.dump(m), files=files)
    with lab.scratch() as d:
        try:
            model = lab.load(lab.write_files(d, m, files))
            mapped = model.get_pump_process_simulations()
        except EcalcError as e:
            if e.error_type != EcalcErrorType.CLIENT_ERROR:
                raise
            ctx.require(wrong is not None, "refused", f"a correct pump process simulation is refused: {str(e)[:300]}")
            ctx.obs(f"wrong {wrong} refused")
            return
    ctx.require(wrong is None, "mistake", f"not refused: {wrong}")
    ctx.require([s.get_name() for s, _, _ in mapped] == [y["NAME"] for y in sims], "names", "other simulations than asked for, or in another order")
    tv = g.tv()
    for (sim, inputs, periods), y, (ref, rate, ps, pd, rho) in zip(mapped, sims, refs):
        ctx.require([p.start for p in periods] == list(tv[:-1]) if len(tv) and tv[-1] == m["END"] else [p.start for p in periods] == list(tv), "periods", f"{y['NAME']}: periods {[str(p.start) for p in periods]} instead of {list(map(str, tv))}")
        ctx.require(len(inputs) == len(periods), "inputs", "not one input for every period")
        ctx.close(sim.get_minimum_flow_rate_m3_per_hour(), ref.minflow, "minimum-flow", f"{y['NAME']}: minimum flow")
        topology(ctx, sim)
        results = sim.evaluate(inputs)
        again = sim.evaluate(list(reversed(inputs)))
        ctx.require(len(results) == len(inputs), "results", "not one result for every input")
        for i, p in enumerate(periods):
            t = p.start
            v = dict(rate_day=rate(t), ps=ps(t), pd=pd(t), rho=rho(t))
            one(ctx, sim, inputs[i], results[i], ref, v, f"{y['NAME']} from {t} ({', '.join(f'{k} {x:.6g}' for k, x in v.items())})")
            r, a = results[i].pump_result, again[len(inputs) - 1 - i].pump_result
            ctx.require(r == a or math.isnan(r.shaft_power_mw), "order", "another result when evaluated in another order")
    pump_alone(ctx, rng, ref)
    ctx.distinct(lab.dump(sims) + files["sim.csv"])


def topology(ctx, sim):
    units = list(sim.get_process_units())
    ctx.require([str(u.unit_type) for u in units] == ["INLET", "DIRECT_MIXER", "PUMP", "DIRECT_SPLITTER", "CHOKE", "OUTLET"], "topology", f"units {[str(u.unit_type) for u in units]}")
    ctx.require(len({u.get_id() for u in units}) == 6, "topology", "two units with the same id")
    con = list(sim.get_process_unit_connections())
    ctx.require([(c.get_from_process_unit_id(), c.get_to_process_unit_id()) for c in con] == [(a.get_id(), b.get_id()) for a, b in zip(units, units[1:])], "topology", "the connections do not follow the units")
    loop = sim.get_recirculation_loop()
    ctx.require(loop.mixer_id == units[1].get_id() and loop.splitter_id == units[3].get_id(), "topology", "recirculation is not from the splitter to the mixer")


def one(ctx, sim, inp, res, ref, v, text):
    rate, ps, pd, rho = v["rate_day"], v["ps"], v["pd"], v["rho"]
    s = inp.inlet_stream
    ctx.close(s.pressure_bara, ps, "input", f"{text}: suction pressure")
    ctx.close(s.density_kg_per_m3, rho, "input", f"{text}: density")
    ctx.close(s.mass_rate_kg_per_h, rate * rho / 24, "input", f"{text}: mass rate", rel=1e-9)
    ctx.close(s.volumetric_rate_m3_per_day, rate, "input", f"{text}: rate")
    want_pd = pd if rate > 0 or pd > 0 else ps
    ctx.close(inp.required_discharge_pressure_bara, want_pd, "input", f"{text}: discharge pressure")
    x = ref.at(rate, ps, want_pd, rho)
    r = res.pump_result
    if x["edge"] < 1e-9:
        ctx.obs("set aside: on an edge of the chart")
        return
    ctx.close(r.required_head_joule_per_kg, x["head"], "head", f"{text}: required head", rel=1e-9, abs_=1e-6)
    ctx.close(r.operational_head_joule_per_kg, x["h"], "operational-head", f"{text}: operational head", rel=1e-9, abs_=1e-6)
    ctx.close(r.operational_volumetric_rate_m3_per_hour, x["q"], "operational-rate", f"{text}: operational rate")
    ctx.close(r.recirculation_rate_m3_per_hour, x["rec"], "recirculation", f"{text}: recirculation", abs_=1e-7)
    ctx.close(r.shaft_power_mw, x["power"], "power", f"{text}: power", rel=1e-7)
    ctx.close(r.required_discharge_pressure_bara, want_pd, "discharge", f"{text}: required discharge pressure")
    ctx.close(r.operational_discharge_pressure_bara, x["p"], "discharge", f"{text}: operational discharge pressure")
    ctx.close(r.choke_pressure_drop_bara, max(0.0, x["p"] - want_pd), "choke", f"{text}: choking", abs_=1e-6)
    if x["on"]:
        ctx.obs("running")
        ctx.close(r.efficiency, x["eff"], "efficiency", f"{text}: efficiency", rel=1e-7)
        ctx.close(r.specific_shaft_work_joule_per_kg, x["work"], "work", f"{text}: work", rel=1e-7)
        sp = speed_at(ref.chart, x["q"], x["h"])
        if sp is not None:
            ctx.close(r.speed_rpm, sp, "speed", f"{text}: speed", rel=1e-7)
        want = S.ABOVE_MAXIMUM_PUMP_RATE_AND_MAXIMUM_HEAD_AT_RATE if x["over_head"] and x["over_rate"] else S.ABOVE_MAXIMUM_HEAD_AT_RATE if x["over_head"] else S.ABOVE_MAXIMUM_PUMP_RATE if x["over_rate"] else S.NO_FAILURE
        ctx.require(r.failure_status == want, "status", f"{text}: {r.failure_status} instead of {want}")
        ctx.obs(str(want))
        if x["rec"] > 1e-6:
            ctx.obs("recirculating")
        if x["h"] > x["head"] * (1 + 1e-9):
            ctx.obs("choked")
    else:
        ctx.obs("off")
        ctx.require(r.efficiency is None and r.speed_rpm is None and r.specific_shaft_work_joule_per_kg is None, "off", f"{text}: a pump that does not run has an operating point")
        ctx.require(r.failure_status == S.NO_FAILURE, "off", f"{text}: a pump that does not run fails")
    ctx.require(r.is_valid == (r.failure_status == S.NO_FAILURE), "status", f"{text}: validity is not that of the status")
    # the streams on the connections
    con = [c.get_id() for c in sim.get_process_unit_connections()]
    ctx.require(set(res.connection_streams) == set(con), "streams", f"{text}: not a stream on every connection")
    st = [res.connection_streams[c] for c in con]
    mass = rate * rho / 24
    over = x["q"] * rho if x["on"] else 0.0
    want = [(mass, ps), (over, ps), (over, x["p"]), (mass, x["p"]), (mass, min(x["p"], want_pd))]
    for j, (a, (mr, p)) in enumerate(zip(st, want)):
        ctx.close(a.mass_rate_kg_per_h, mr, "stream-mass", f"{text}: mass rate on connection {j + 1}", rel=1e-9, abs_=1e-6)
        ctx.close(a.pressure_bara, p, "stream-pressure", f"{text}: pressure on connection {j + 1}", rel=1e-9)
        ctx.close(a.density_kg_per_m3, rho, "stream-density", f"{text}: density on connection {j + 1}")


def pump_alone(ctx, rng, ref):
    """the pump by itself, and the stream"""
    from libecalc.domain.process.value_objects.chart import ChartCurve
    from libecalc.presentation.yaml.mappers.charts.user_defined_chart_data import UserDefinedChartData

    curves = [ChartCurve(speed_rpm=c[0], rate_actual_m3_hour=list(c[1]), polytropic_head_joule_per_kg=list(c[2]), efficiency_fraction=list(c[3])) for c in ref.chart.curves]
    pump = Pump(UserDefinedChartData(curves=curves, control_margin=None), None if ref.minflow == ref.least else ref.minflow)
    rho, ps = rng.uniform(600, 1200), rng.uniform(0.5, 50)
    hs = [h for c in ref.chart.curves for h in c[2]]
    pd = ps + rng.uniform(min(hs) * 0.5, max(hs) * 1.1) * rho / 1e5
    head = (pd - ps) * 1e5 / rho
    ctx.close(pump.get_max_volumetric_rate_m3_per_day(ps, pd, rho), ref.chart.max_rate_at_head(head) * 24, "max-rate", f"maximum rate at {ps:.6g}-{pd:.6g} bara, {rho:.6g} kg/m3", rel=1e-8)
    s = LiquidStream.from_volumetric_rate(volumetric_rate_m3_per_day=rng.uniform(0, 1.2) * ref.chart.max_rate * 24, pressure_bara=ps, density_kg_per_m3=rho)
    x = ref.at(s.volumetric_rate_m3_per_day, ps, pd, rho)
    if x["edge"] > 1e-9:
        pump.set_discharge_pressure(pd)
        o = pump.propagate_stream(s)
        ctx.close(o.pressure_bara, x["p"], "propagate", "pressure delivered by the pump", rel=1e-9)
        ctx.require((o.mass_rate_kg_per_h, o.density_kg_per_m3) == (s.mass_rate_kg_per_h, rho), "propagate", "the pump delivers another rate or density than it receives")
        r = pump.evaluate(s, pd)
        ctx.close(r.shaft_power_mw, x["power"], "propagate", "power of the pump alone", rel=1e-7)
        if x["on"] and not x["over_head"] and not x["over_rate"] and x["q"] < ref.chart.max_rate:
            mx = ref.chart.max_rate_at_head(head)
            ctx.require(r.is_valid == (x["q"] <= mx * (1 + 1e-9)), "max-rate", f"valid at {x['q']:.8g} m3/h with a maximum of {mx:.8g}")
    rho, ps = rng.uniform(600, 1200), rng.uniform(0.5, 50)
    s = LiquidStream.from_volumetric_rate(volumetric_rate_m3_per_day=rng.uniform(0, 5000), pressure_bara=ps, density_kg_per_m3=rho)
    mr = rng.uniform(0, 1e6)
    a, b = s.with_mass_rate(mr), s.with_pressure(ps * 2)
    ctx.require((a.mass_rate_kg_per_h, a.pressure_bara, a.density_kg_per_m3) == (mr, ps, rho), "liquid-stream", "a change of rate changed something else")
    ctx.require((b.mass_rate_kg_per_h, b.pressure_bara, b.density_kg_per_m3) == (s.mass_rate_kg_per_h, ps * 2, rho), "liquid-stream", "a change of pressure changed something else")
    for bad in (dict(pressure_bara=0), dict(pressure_bara=-1), dict(density_kg_per_m3=0), dict(mass_rate_kg_per_h=-1e-3)):
        k = dict(pressure_bara=1.0, density_kg_per_m3=1000.0, mass_rate_kg_per_h=0.0)
        try:
            LiquidStream(**{**k, **bad})
        except EcalcError:
            ctx.obs("stream refused")
        except Exception as e:
            ctx.require("Exception" in type(e).__name__ or isinstance(e, ValueError), "liquid-stream", f"{bad}: {type(e).__name__}")
            ctx.obs("stream refused")
        else:
            ctx.violation("liquid-stream", f"{bad} is accepted")
