"""P19 LTP and STP exports: every column is the volume of exactly the consumers, fuels and emissions it is meant to count."""

from __future__ import annotations

import datetime as dt
import math

from vf import cli, lab, ltp_spec
from vf import timegen as tg
from vf.core import is_close
from vf.refmodel import Model, nan

CASES = {"quick": 420, "thorough": 9000}
RULE = (
    "random assets (fixed/mobile/uncategorised installations, dated consumer, generator set and fuel categories, power from shore with cable loss, "
    "oil loading, regularity) exported by the command line program; every column of every file compared with volumes of the independent reference model; distinct by the YAML and the frequency"
)
MIN_OBS = {"ltp-value": 20000, "ltp-nonzero": 1000, "ltp-column": 3000, "stp-value": 500, "ltp-kind-fuel": 100, "ltp-kind-emission": 200, "ltp-kind-power": 60, "ltp-kind-generated": 60, "ltp-kind-max": 20, "ltp-kind-oil": 20, "ltp-dated-category": 100}
ASSUMPTIONS = ["installations with an invalid (NaN) energy usage are not compared", "the table of columns is frozen from the documentation and the code at the pinned commit"]

CONSUMER = ["FLARE", "BOILER", "HEATER", "GAS-DRIVEN-COMPRESSOR", "MISCELLANEOUS", "TURBINE-GENERATOR"]
ELECTRIC = ["BASE-LOAD", "OFFSHORE-WIND", "STEAM-TURBINE-GENERATOR", "PUMP", "GAS-DRIVEN-COMPRESSOR", "COMPRESSOR"]


def eff(v, t):
    """The value in effect at t of a YAML value which may be dated."""
    if not isinstance(v, dict):
        return v
    out = None
    for d, x in v.items():
        if d <= t:
            out = x
    return out


def dated(rng, tv, make, old=None):
    """A category, perhaps changing at dates the model already has (so that the time vector is not changed by it)."""
    if isinstance(old, dict):
        return {d: make() for d in old}
    if rng.random() < 0.6 or len(tv) < 3:
        return make()
    later = sorted(rng.sample(tv[1:-1], min(len(tv) - 2, rng.choice([1, 1, 2]))))
    return {d: make() for d in [tv[0], *later]}


def case(ctx):
    rng = ctx.rng
    g = Model(rng, n=rng.choice([2, 3, 5, 8]), dated=rng.choice([0.0, 0.2, 0.4]))
    g.p_over = 0.0
    g.p_turbine = 0.5
    g.compose(n_inst=rng.choice([1, 2]), p_reg=0.7)
    m, files = g.build()
    tv = g.tv()
    ts = tv[:-1]
    for f in m["FUEL_TYPES"]:
        if rng.random() < 0.8:
            f["CATEGORY"] = rng.choice(["FUEL-GAS", "DIESEL"])
    for inst in m["INSTALLATIONS"]:
        c = rng.choice(["FIXED", "FIXED", "FIXED", "MOBILE", None])
        if c:
            inst["CATEGORY"] = c
        for y in inst.get("FUELCONSUMERS", []):
            y["CATEGORY"] = dated(rng, tv, lambda: rng.choice(CONSUMER), y["CATEGORY"])
        for y in inst.get("GENERATORSETS", []):
            if y["CATEGORY"] == "POWER-FROM-SHORE":
                cat = dated(rng, tv, lambda: rng.choice(["POWER-FROM-SHORE", "POWER-FROM-SHORE", "TURBINE-GENERATOR"]))
                if cat != "POWER-FROM-SHORE" and "POWER-FROM-SHORE" not in (cat.values() if isinstance(cat, dict) else []):
                    cat = "POWER-FROM-SHORE"
                y["CATEGORY"] = cat
            else:
                y["CATEGORY"] = dated(rng, tv, lambda: rng.choice(["TURBINE-GENERATOR", "TURBINE-GENERATOR", "BOILER", "STEAM-TURBINE-GENERATOR"]))
            for z in y["CONSUMERS"]:
                z["CATEGORY"] = dated(rng, tv, lambda: rng.choice(ELECTRIC), z["CATEGORY"])
    ctx.note(yaml=lab.dump(m), files=files)
    ex = g.expected()
    if ex["refused"] or g.ambiguous:
        ctx.obs("set aside: refused or on a decision boundary")
        return
    span = (tv[-1] - tv[0]).days
    freq = rng.choice(["NONE", "YEAR", "YEAR", "MONTH"] + (["DAY"] if span < 90 else []))
    out = cli.run(m, files, ["-f", freq, "--no-csv", "--ltp-export", "--stp-export"])
    ctx.distinct((lab.dump(m), freq))
    new = tv if freq == "NONE" else tg.grid(tv[0], tv[-1], freq)
    fuelcat = {f["NAME"]: f.get("CATEGORY") for f in m["FUEL_TYPES"]}
    for inst in m["INSTALLATIONS"]:
        e = ex["inst"].get(inst["NAME"])
        if e is None:
            continue
        icat = inst.get("CATEGORY")
        items = []  # (kind, rate per model period per day, fuel category, consumer category, producer category, emission)
        skip = False
        ydict = {y["NAME"]: y for y in inst.get("FUELCONSUMERS", []) + inst.get("GENERATORSETS", []) + inst.get("VENTING_EMITTERS", [])}
        reg = e["reg"]
        for row in e["rows"]:
            y = ydict[row["name"]]
            if row["kind"] == "venting":
                for n, v in row["emissions"].items():
                    items.append(("emission", v, lambda t: None, lambda t, y=y: eff(y["CATEGORY"], t), None, n))
                if "oil" in row:
                    items.append(("oil", row["oil"], None, lambda t, y=y: eff(y["CATEGORY"], t), None, None))
                continue
            if any(nan(x) for x in row["fuelcal"]) or (row["power"] and any(nan(x) for x in row["power"])):
                skip = True
                break
            fuel = y.get("FUEL", inst.get("FUEL"))
            fc = lambda t, fuel=fuel: fuelcat.get(eff(fuel, t))  # noqa: E731
            cc = lambda t, y=y: eff(y["CATEGORY"], t)  # noqa: E731
            items.append(("fuel", row["fuelcal"], fc, cc, None, None))
            for n, v in row["emissions"].items():
                items.append(("emission", v, fc, cc, None, n))
            if row["kind"] == "genset":
                made = row["power"]
                if row["pfs"]:  # the loss in the cable comes on top while the power comes from shore
                    made = [u if cc(t) == "POWER-FROM-SHORE" else p for t, u, p in zip(ts, row["supply"], made)]
                if any(row["bad"]):
                    skip = True
                    break
                items.append(("generated", [p * q * 24 / 1000 for p, q in zip(made, reg)], None, None, cc, None))
                if row["pfs"]:
                    items.append(("max", row["max_usage"], None, None, cc, None))
                for z in y["CONSUMERS"]:
                    cr = ex["comp"].get(z["NAME"])
                    if cr is None:
                        continue
                    items.append(("power", [p * q * 24 / 1000 for p, q in zip(cr["power"], reg)], None, lambda t, z=z: eff(z["CATEGORY"], t), cc, None))
            elif row["power"] is not None:
                items.append(("power", [p * q * 24 / 1000 for p, q in zip(row["power"], reg)], None, cc, None, None))
        if skip:
            ctx.obs("set aside: invalid installation")
            continue
        for which, spec in (("ltp", ltp_spec.LTP), ("stp", ltp_spec.STP)):
            fn = f"model.{inst['NAME']}.{which}.tsv"
            ctx.require(fn in out, f"{which}-file", f"no {fn} among {sorted(out)}")
            head, rows = cli.read_csv(out[fn], "\t")
            rows = [r for r in rows if r and not r[0].startswith("#")]
            cols = {h: i for i, h in enumerate(head)}
            index = [(r[0], r[1]) for r in rows]
            want_index = [(d.strftime("%Y"), d.strftime("%m")) for d in new[:-1]]
            ctx.require(index == want_index, f"{which}-rows", f"{fn} rows {index[:6]}, expected {want_index[:6]} at {freq}")
            for name, (kind, unit, ic, fcat, ccats, pcats, emission, inverted) in spec.items():
                if ic is not None and ic != icat:
                    ctx.require(name not in cols, f"{which}-absent", f"{name} is given for installation {inst['NAME']} of category {icat}")
                    continue
                ctx.obs(f"{which}-column")
                if name not in cols:
                    ctx.violation(f"{which}-column", f"no column {name} for installation {inst['NAME']} of category {icat}")
                    continue
                per = [0.0] * len(ts)
                seen = set()
                for k, vals, fc, cc, pc, em in items:
                    if k != kind:
                        continue
                    if emission is not None and em != emission:
                        continue
                    for i, t in enumerate(ts):
                        if fcat is not None and (fc is None or fc(t) != fcat):
                            continue
                        if ccats is not None and (cc is None or cc(t) not in ccats):
                            continue
                        if pcats is not None and (pc is None or pc(t) not in pcats):
                            continue
                        per[i] += vals[i]
                        seen.add(i)
                if 0 < len(seen) < len(ts):
                    ctx.obs("ltp-dated-category")
                scale = 0.0
                if kind == "max":
                    want = [max(tg.overlapping(tv, per, a, b)) for a, b in zip(new, new[1:])]
                else:
                    want = [tg.integral(tv, per, a, b) for a, b in zip(new, new[1:])]
                    if freq != "NONE":
                        scale = 1e-9 * sum(abs(x) * d for x, d in zip(per, ex["days"]))
                if inverted:
                    want = [-w for w in want]
                for r, w, a in zip(rows, want, new):
                    got = float(r[cols[name]])
                    if w:
                        ctx.obs(f"{which}-nonzero")
                        ctx.obs(f"ltp-kind-{kind}")
                    ctx.require(not math.isnan(got) and is_close(got, w, 2e-6, 2e-6 + scale), f"{which}-value", f"{name} of {inst['NAME']} at {a:%F} ({freq}) is {got}, expected {w}")
    ctx.sample({"freq": freq, "files": sorted(out)})
