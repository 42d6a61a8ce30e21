"""P20 emission intensity: CO2 emitted per hydrocarbon exported, so far and per year."""

from __future__ import annotations

import math

from vf import cli, lab
from vf import timegen as tg
from vf.core import is_close
from vf.refmodel import Model

CASES = {"quick": 420, "thorough": 9000}
RULE = (
    "random assets with export and CO2 from fuel and venting, run by the command line program at random frequencies; the intensity files compared with "
    "the running and yearly sums of the independent reference model; distinct by the YAML and the frequency"
)
MIN_OBS = {"intensity-csv": 1500, "intensity-json": 1500, "intensity-yearly": 100, "no-export-yet": 30, "no-co2": 5, "intensity-rows": 300}
ASSUMPTIONS = ["values are compared at the reported precision (six decimals)", "models with an invalid (NaN) energy usage are not compared"]


def case(ctx):
    rng = ctx.rng
    g = Model(rng, n=rng.choice([1, 2, 3, 5, 8]), dated=rng.choice([0.0, 0.2, 0.4]), zero=rng.choice([0.1, 0.5]))
    g.p_over = 0.0
    g.p_hard = rng.choice([0.0, 0.3])
    g.compose(fuel_kinds=["direct"], elec_kinds=["direct"])
    if rng.random() < 0.9 and g.fuel_types:  # most models emit CO2
        for f in g.fuel_types:
            if not any(e["NAME"].lower() == "co2" for e in f["EMISSIONS"]) and rng.random() < 0.8:
                e = g.ex(0.001, 5)
                f["EMISSIONS"].append({"NAME": rng.choice(["co2", "CO2", "Co2"]), "FACTOR": e.yaml})
                g.fuels[f["NAME"]]["co2"] = e
    m, files = g.build()
    tv = g.tv()
    ctx.note(yaml=lab.dump(m), files=files)
    ex = g.expected()
    if ex["refused"] or g.ambiguous or any(any(i["anynan"]) for i in ex["inst"].values()):
        ctx.obs("set aside: refused, invalid or on a decision boundary")
        return
    span = (tv[-1] - tv[0]).days
    freq = rng.choice(["NONE", "YEAR", "YEAR", "MONTH"] + (["DAY"] if span < 90 else []))
    fmt = rng.choice([0, 1, 2])
    out = cli.run(m, files, ["-f", freq, "--json", "--date-format-option", str(fmt)])
    ctx.distinct((lab.dump(m), freq))
    new = tv if freq == "NONE" else tg.grid(tv[0], tv[-1], freq)
    labels = [d.strftime(cli.DATE[fmt]) for d in new[:-1]]
    n = len(tv) - 1
    insts = list(ex["inst"].values())
    hc = [sum(i["hc"][k] for i in insts) for k in range(n)]
    head, rows = cli.read_csv(out["model_intensity.csv"])
    js = cli.read_json(out["model_intensity.json"])["results"]
    if not any("co2" in i["emissions"] for i in insts) or (
        js == [] and not any(x for i in insts for x in i["emissions"].get("co2", []))  # only in a fuel no longer used at START
    ):
        ctx.require(len(head) == 1 and js == [], "no-co2", f"intensity of a model without CO2: {head}")
        return
    co2 = [sum(i["emissions"].get("co2", [0.0] * n)[k] for i in insts) for k in range(n)]
    ctx.require([r[0] for r in rows] == labels, "intensity-rows", f"rows {[r[0] for r in rows][:6]}, expected {labels[:6]} at {freq}")
    ctx.require(len(js) == 1 and js[0]["name"].lower() == "co2", "intensity-json-one", f"results for {[r['name'] for r in js]}")
    ce = [tg.integral(tv, co2, a, b) * 1000 for a, b in zip(new, new[1:])]
    ch = [tg.integral(tv, hc, a, b) for a, b in zip(new, new[1:])]
    total = sum(ch)
    sums = lambda v: [math.fsum(v[: k + 1]) for k in range(len(v))]  # noqa: E731
    ratio = lambda a, b: [x / y if y > 1e-9 * total else math.nan if y == 0 else None for x, y in zip(a, b)]  # noqa: E731
    so_far = ratio(sums(ce), sums(ch))
    yearly = ratio(ce, ch)
    cols = {h: i for i, h in enumerate(head)}
    if any(isinstance(x, float) and math.isnan(x) for x in so_far):
        ctx.obs("no-export-yet")
    pre = js[0]["name"]
    for key, unit, vals, k in (
        ("intensity_sm3", "kg/Sm3", so_far, 1.0), ("intensity_boe", "kg/BOE", so_far, 1 / 6.29),
        ("intensity_yearly_sm3", "kg/Sm3", yearly, 1.0), ("intensity_yearly_boe", "kg/BOE", yearly, 1 / 6.29),
    ):
        col = f"{pre}.{key}[{unit}]"
        if "yearly" in key and freq != "YEAR":
            ctx.require(col not in cols and key not in js[0], "yearly-only", f"{key} is given at frequency {freq}")
            continue
        if "yearly" in key:
            ctx.obs("intensity-yearly")
        ctx.require(key in js[0] and js[0][key]["unit"] == unit, "intensity-json-unit", f"{key}: {js[0].get(key)}")
        got = js[0][key]["values"]
        ctx.require(len(got) == len(vals), "intensity-json", f"{key} has {len(got)} values over {len(vals)} periods")
        starts = [p["start"] for p in js[0][key]["periods"]["periods"]]
        ctx.require(starts == labels, "intensity-json-index", f"{key} starts {starts[:5]}, expected {labels[:5]}")
        # an all-undefined yearly column may be left out of the CSV file
        if col not in cols:
            ctx.require("yearly" in key and all(math.isnan(v) for v in vals if v is not None), "intensity-csv-column", f"no column {col} among {head}")
        for j, (v, t) in enumerate(zip(vals, labels)):
            if v is None:
                continue
            w = v * k
            seen = [("json", got[j])]
            if col in cols:
                cell = rows[j][cols[col]]
                seen.append(("csv", math.nan if cell in ("nan", "") else float(cell)))
            for where, x in seen:
                if math.isnan(w):
                    ctx.require(x is None or (isinstance(x, float) and math.isnan(x)), f"intensity-{where}", f"{col} at {t} is {x} with no export")
                else:
                    ctx.require(x is not None and is_close(float(x), w, 2e-6, 6e-6 if where == "csv" else 6e-7), f"intensity-{where}", f"{col} at {t} ({freq}) is {x}, expected {w}")
    ctx.sample({"freq": freq, "columns": head})
