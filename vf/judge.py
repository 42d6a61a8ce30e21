"""Monitors that compare an EcalcModelResult with the expectation of vf.refmodel."""

from __future__ import annotations

from vf.refmodel import nan, nz

REL = 1e-7


def by_name(res):
    return {c.name: c for c in res.components}


def running(rates, days):
    out, s = [], 0.0
    for r, d in zip(rates, days):
        s += nz(r) * d
        out.append(s)
    return out


def time_vector(ctx, m, ex):
    global REL
    REL = 2e-4 if ex.get("loose") else 1e-7
    tv = list(m.variables.periods.all_dates)
    ctx.require(
        tv == ex["tv"], "time-vector", f"time vector {[str(d) for d in tv]}, expected {[str(d) for d in ex['tv']]}"
    )


def nan_list(ctx, got, want, skip, mech, msg, rel=None, abs_=1e-9):
    """Compare, leaving out the steps in skip (where the property leaves the value open)."""
    got, want = list(got), list(want)
    if len(got) != len(want):
        ctx.violation(mech, f"{msg}: {len(got)} values, expected {len(want)}")
    keep = [i for i in range(len(want)) if not skip[i]]
    ctx.close_list([got[i] for i in keep], [want[i] for i in keep], mech, msg, rel=rel or REL, abs_=abs_)


def consumers(ctx, res, ex, kinds=None, mech="energy-usage"):
    comps = by_name(res)
    for name, e in ex["comp"].items():
        if e["kind"] == "venting" or (kinds and e["kind"] not in kinds):
            continue
        c = comps.get(name)
        if c is None:
            ctx.violation(mech, f"component {name} is missing from the result")
        fuel = "fuelcal" in e
        want = e["fuelcal"] if fuel else e["energy"]
        ctx.close_list(c.energy_usage.values, want, mech, f"energy usage of {e['kind']} consumer {name}", rel=REL)
        ctx.require(
            (str(c.energy_usage.unit.name), str(c.energy_usage.rate_type.value))
            == (("STANDARD_CUBIC_METER_PER_DAY", "CALENDAR_DAY") if fuel else ("MEGA_WATT", "STREAM_DAY")),
            mech + "-unit",
            f"unit and day type of the energy usage of {name}: {c.energy_usage.unit.name} {c.energy_usage.rate_type.value}",
        )
        if e.get("power") is not None:
            skip = e.get("bad") or [False] * len(want)
            if c.power is None:
                ctx.violation("power", f"no power reported for {name}", want=e["power"])
            nan_list(ctx, c.power.values, e["power"], skip, "power", f"power of {e['kind']} {name}")


def validity(ctx, res, ex, mech="validity"):
    comps = by_name(res)
    for name, e in ex["comp"].items():
        got = list(comps[name].is_valid.values)
        skip = e.get("bad") or [False] * len(got)
        edge = [u is not None and u.extra.get("edge", 1) < 1e-6 for u in e.get("us", [None] * len(got))]
        for i, (g, w) in enumerate(zip(got, e["valid"])):
            if skip[i] or edge[i]:
                continue
            ctx.require(bool(g) == bool(w), mech, f"validity of {e['kind']} {name} at step {i}: {g}, expected {w}")
    for name, inst in ex["inst"].items():
        mem = [comps[r["name"]].is_valid.values for r in inst["rows"]]
        mem += [comps[n].is_valid.values for n in inst["members"]]
        for i, g in enumerate(comps[name].is_valid.values):
            ctx.require(
                bool(g) == all(v[i] for v in mem), mech + "-aggregate", f"validity of installation {name} at step {i} is {g}"
            )
    asset = res.component_result
    for i, g in enumerate(asset.is_valid.values):
        ctx.require(
            bool(g) == all(comps[n].is_valid.values[i] for n in ex["inst"]), mech + "-aggregate", f"validity of the asset at step {i} is {g}"
        )


def emissions_of(ctx, c, want, days, mech, what):
    got = {k.lower(): v for k, v in c.emissions.items()}
    ctx.require(set(got) <= set(want), mech, f"emissions of {what}: {sorted(got)}, expected {sorted(want)}")
    for n, vals in want.items():
        if n not in got:  # an emission that never occurs need not be listed
            ctx.require(not any(nz(x) for x in vals), mech, f"{n} of {what} is missing", want=vals)
            continue
        e = got[n]
        ctx.require(e.rate.unit.name == "TONS_PER_DAY" and e.rate.rate_type.value == "CALENDAR_DAY", mech, f"unit of {n} of {what}")
        ctx.close_list([nz(x) for x in e.rate.values], [nz(x) for x in vals], mech, f"{n} of {what} [t/d]", rel=REL, abs_=1e-12)
        cum = [nz(x) for x in e.cumulative.values]
        if not any(nan(x) for x in vals):
            ctx.close_list(cum, running(vals, days), mech + "-cumulative", f"cumulative {n} of {what} [t]", rel=REL)


def emissions(ctx, res, ex, kinds=None, mech="emissions"):
    comps = by_name(res)
    for name, e in ex["comp"].items():
        if kinds and e["kind"] not in kinds:
            continue
        emissions_of(ctx, comps[name], e["emissions"], ex["days"], mech, f"{e['kind']} {name}")


def cumulatives(ctx, res, ex, mech="cumulative"):
    """energy_usage_cumulative and power_cumulative are the running integrals of the reported rates."""
    days = ex["days"]
    comps = by_name(res)
    regs = {n: e["reg"] for n, e in ex["comp"].items()}
    for name, c in comps.items():
        reg = regs.get(name) or (ex["inst"][name]["reg"] if name in ex["inst"] else None)
        u = c.energy_usage
        if any(nan(x) for x in u.values):
            continue
        if u.unit.name == "STANDARD_CUBIC_METER_PER_DAY":
            ctx.close_list(c.energy_usage_cumulative.values, running(u.values, days), mech, f"cumulative fuel of {name}", rel=REL)
        if c.power is not None and reg is not None and not any(nan(x) for x in c.power.values):
            want = running([p * q * 0.024 for p, q in zip(c.power.values, reg)], days)
            ctx.close_list(c.power_cumulative.values, want, mech, f"cumulative power [GWh] of {name}", rel=REL)
    asset = res.component_result
    for kind in ("electrical", "mechanical"):
        got = getattr(asset, f"power_{kind}_cumulative")
        parts = [
            getattr(comps[n], f"power_{kind}_cumulative")
            for n in ex["inst"]
            if getattr(comps[n], f"power_{kind}") is not None
        ]
        if got is None:
            continue
        want = [sum(nz(p.values[i]) for p in parts) for i in range(len(days))]
        ctx.close_list(got.values, want, mech, f"asset cumulative {kind} power", rel=REL)


def totals(ctx, res, ex, mech="totals"):
    """Installation and asset are the sums of their parts."""
    comps = by_name(res)
    n = len(ex["days"])
    days = ex["days"]
    for name, inst in ex["inst"].items():
        c = comps[name]
        ctx.close_list([nz(x) for x in c.energy_usage.values], inst["fuel"], mech, f"fuel of installation {name}", rel=REL)
        ctx.close_list(c.hydrocarbon_export_rate.values, inst["hc"], mech + "-hcexport", f"hydrocarbon export of {name}", rel=REL)
        ctx.close_list(c.regularity.values, inst["reg"], mech + "-regularity", f"regularity of {name}", rel=REL)
        emissions_of(ctx, c, inst["emissions"], days, mech + "-emissions", f"installation {name}")
        for k in ("electrical", "mechanical"):
            got = getattr(c, f"power_{k}")
            want = inst[k]
            if want is None:
                ctx.require(got is None, mech + "-power", f"{k} power of {name} without {k} consumers")
            else:
                if got is None:
                    ctx.violation(mech + "-power", f"{k} power of {name} is missing", want=want)
                ctx.close_list([nz(x) for x in got.values], want, mech + "-power", f"{k} power of {name}", rel=REL)
        parts = [x for x in (inst["electrical"], inst["mechanical"]) if x]
        if parts:
            ctx.close_list([nz(x) for x in c.power.values], [sum(p[i] for p in parts) for i in range(n)], mech + "-power", f"power of {name}", rel=REL)
    a = res.component_result
    insts = list(ex["inst"].values())
    ctx.close_list([nz(x) for x in a.energy_usage.values], [sum(i["fuel"][k] for i in insts) for k in range(n)], mech, "asset fuel", rel=REL)
    ctx.close_list(a.hydrocarbon_export_rate.values, [sum(i["hc"][k] for i in insts) for k in range(n)], mech + "-hcexport", "asset export", rel=REL)
    em: dict = {}
    for i in insts:
        for e, v in i["emissions"].items():
            em[e] = [x + y for x, y in zip(em.get(e, [0.0] * n), v)]
    emissions_of(ctx, a, em, days, mech + "-emissions", "asset")
    for k in ("electrical", "mechanical"):
        ps = [i[k] for i in insts if i[k]]
        got = getattr(a, f"power_{k}")
        if ps:
            ctx.close_list([nz(x) for x in got.values], [sum(p[j] for p in ps) for j in range(n)], mech + "-power", f"asset {k} power", rel=REL)
        else:
            ctx.require(got is None, mech + "-power", f"asset {k} power without {k} consumers")


def models(ctx, res, ex, mech="model-result"):
    """Per-model results: every period of every model reports the operating point that was asked for and what it took."""
    at = {t: i for i, t in enumerate(ex["tv"][:-1])}
    seen: dict = {}
    for m in res.models:
        e = ex["comp"].get(m.parent)
        if e is None or "us" not in e:
            ctx.violation(mech, f"model {m.name} of unknown parent {m.parent}")
        single = m.name == m.parent
        for j, p in enumerate(m.periods.periods):
            i = at.get(p.start)
            if i is None or p.end != ex["tv"][i + 1]:
                ctx.violation(mech, f"model {m.name}: period {p} is not a period of the time vector")
            u = e["us"][i]
            if u is None:
                ctx.violation(mech, f"model {m.name} reports {p.start}, where no model is defined")
            x = u.extra
            if single:
                what = f"{e['kind']} model {m.name} step {i}"
                raw, ok, rate, ps, pd, tb, head = x.get("raw"), u.valid, x.get("rate"), x.get("ps"), x.get("pd"), x.get("turbine"), x.get("head")
                energy, power = raw if raw else (u.energy, u.power)
                seen[m.name, i] = seen.get((m.name, i), 0) + 1
            else:
                k = [n for n, nm in enumerate(x["names"]) if nm == m.name]
                if not k:
                    ctx.violation(mech, f"{m.name} is not in the model of {m.parent} active at {p.start}")
                k = k[0]
                seen[m.parent, m.name, i] = seen.get((m.parent, m.name, i), 0) + 1
                what = f"member {m.name} of system {m.parent} step {i}"
                energy, power, ok, tb, head = x["parts"][k]
                rate, ps, pd = x["rates"][k], x["ps"][k], x["pd"][k]
            pump = m.componentType.value == "PUMP"
            ctx.close(m.energy_usage.values[j], energy, mech, f"energy usage of {what}", rel=REL)
            if power is not None and m.power is not None:
                ctx.close(m.power.values[j], power, mech, f"power of {what}", rel=REL)
            if x.get("edge", 1) > 1e-6:
                ctx.require(bool(m.is_valid.values[j]) == bool(ok), mech + "-valid", f"validity of {what}: {m.is_valid.values[j]}, expected {ok}")
            if rate is None:
                continue
            if pump:
                for f, want in (
                    ("inlet_liquid_rate_m3_per_day", rate), ("inlet_pressure_bar", ps), ("outlet_pressure_bar", pd), ("operational_head", head),
                ):
                    if f == "operational_head" and rate <= 0:
                        continue
                    ctx.close(getattr(m, f).values[j], want, mech + "-point", f"{f} of {what}", rel=REL)
            else:
                ctx.close(m.rate.values[j], rate, mech + "-point", f"rate of {what}", rel=REL)
                ctx.close(m.requested_inlet_pressure.values[j], ps, mech + "-point", f"requested inlet pressure of {what}", rel=REL)
                ctx.close(m.requested_outlet_pressure.values[j], pd, mech + "-point", f"requested outlet pressure of {what}", rel=REL)
            if tb is not None:
                r = m.turbine_result
                if r is None:
                    ctx.violation(mech + "-turbine", f"no turbine result for {what}")
                for f, want in ((r.energy_usage, tb["fuel"]), (r.fuel_rate, tb["fuel"]), (r.load, tb["load"]), (r.power, tb["load"]), (r.efficiency, tb["eff"])):
                    ctx.close(f.values[j], want, mech + "-turbine", f"turbine of {what}", rel=REL)
                ctx.require(bool(r.exceeds_maximum_load.values[j]) == bool(tb["exceeds"]), mech + "-turbine", f"exceeds_maximum_load of {what}")
                ctx.require(bool(r.is_valid.values[j]) == (not tb["exceeds"]), mech + "-turbine", f"validity of the turbine of {what}")
    for name, e in ex["comp"].items():
        if e["kind"] in ("genset", "venting"):
            continue
        for i, u in enumerate(e["us"]):
            if u is None:
                continue
            keys = [(name, n, i) for n in u.extra["names"]] if e["kind"] == "system" else [(name, i)]
            for k in keys:
                ctx.require(seen.get(k, 0) == 1, mech, f"{k}: reported {seen.get(k, 0)} times, expected once")


def systems(ctx, res, ex, mech="operational-setting"):
    comps = by_name(res)
    for name, e in ex["comp"].items():
        if e["kind"] != "system":
            continue
        used = comps[name].operational_settings_used.values
        for i, u in enumerate(e["us"]):
            if u is None:
                continue
            ctx.require(used[i] == u.extra["setting"], mech, f"operational setting of {name} at step {i}: {used[i]}, expected {u.extra['setting']}")
            ctx.obs(f"setting {u.extra['setting']} {'valid' if u.valid else 'invalid'}{' crossover' if u.extra['crossover'] else ''}")


def gensets(ctx, res, ex, mech="generator-set"):
    comps = by_name(res)
    for name, e in ex["comp"].items():
        if e["kind"] != "genset":
            continue
        nan_list(ctx, comps[name].power_capacity_margin.values, e["margin"], e["bad"], mech + "-margin", f"capacity margin of {name}")


def pumps(ctx, res, ex, mech="pump-operating-point"):
    comps = by_name(res)
    for name, e in ex["comp"].items():
        if e["kind"] != "pump":
            continue
        c = comps[name]
        for i, u in enumerate(e["us"]):
            if u is None or u.extra["rate"] <= 0:
                continue
            for f, want in (
                (c.inlet_liquid_rate_m3_per_day, u.extra["rate"]), (c.inlet_pressure_bar, u.extra["ps"]),
                (c.outlet_pressure_bar, u.extra["pd"]), (c.operational_head, u.extra["head"]),
            ):
                ctx.close(f.values[i], want, mech, f"operating point of {name} step {i}", rel=REL)


def everything(ctx, model, res, ex):
    time_vector(ctx, model, ex)
    consumers(ctx, res, ex)
    validity(ctx, res, ex)
    gensets(ctx, res, ex)
    systems(ctx, res, ex)
    pumps(ctx, res, ex)
    models(ctx, res, ex)
    emissions(ctx, res, ex)
    totals(ctx, res, ex)
    cumulatives(ctx, res, ex)
