"""P18 the files written by the command line program say the same as the results, in every format and frequency."""

from __future__ import annotations

import math

from libecalc.common.utils.rates import RateType, TimeSeries, TimeSeriesBoolean, TimeSeriesRate, TimeSeriesVolumesCumulative
from vf import cli, lab
from vf import timegen as tg
from vf.core import is_close
from vf.refmodel import Model

CASES = {"quick": 260, "thorough": 9000}
RULE = (
    "random assets run by the command line program with random options (frequency, date format, detail, formats, name prefix); "
    "every column of the CSV and every series of the JSON files compared with the library's results resampled by an independent integral; distinct by the YAML and the options"
)
MIN_OBS = {"csv-column": 8000, "csv-value": 20000, "json-series": 4000, "json-simple": 1500, "csv-index": 120, "resampled": 5000, "flow-node": 100}
ASSUMPTIONS = [
    "stream-day averages over periods with zero regularity, and averages over periods with an invalid (NaN) part, are not compared",
    "models needing the thermodynamic package are not run here (P13-P15 and P24-P28 cover it with a stand-in)",
]


def dates_of(ts):
    ps = list(ts.periods)
    return [p.start for p in ps] + [ps[-1].end]


def value(x):
    return math.nan if x is None else x


def shown(ts, new, resample):
    """What the series has to show over the new time vector; None where nothing is claimed."""
    dates, vals = dates_of(ts), [value(v) for v in ts.values]
    if not resample:
        return list(vals)
    out = []
    for a, b in zip(new, new[1:]):
        part = tg.overlapping(dates, vals, a, b)
        if isinstance(ts, TimeSeriesBoolean):
            out.append(all(part))
        elif isinstance(ts, TimeSeriesVolumesCumulative):
            if any(isinstance(v, float) and math.isnan(v) for v in vals):
                out.append(None)
                continue
            prev = 0.0
            w = None
            for s, e, v in zip(dates, dates[1:], vals):
                if s < b <= e:
                    w = prev + (v - prev) * tg.days(s, b) / tg.days(s, e)
                prev = v
            out.append(w)
        elif isinstance(ts, TimeSeriesRate):
            reg = list(ts.regularity)
            if any(math.isnan(v) for v in vals) or (ts.rate_type == RateType.STREAM_DAY and any(r == 0 for r in tg.overlapping(dates, reg, a, b))):
                out.append(None)
            else:
                out.append(tg.integral(dates, vals, a, b) / tg.days(a, b))
        else:
            out.append(tg.at(dates, vals, a))
    return out


def same(got, want, scale=0.0):
    if isinstance(want, bool):
        return bool(got) == want
    if isinstance(want, float) and math.isnan(want):
        return got is None or (isinstance(got, float) and math.isnan(got))
    return got is not None and is_close(float(got), float(want), 2e-6, 6e-6 + scale)


def unit_label(name, ts):
    u = str(ts.unit)
    if isinstance(ts, TimeSeriesRate):
        ext = "sd" if ts.rate_type == RateType.STREAM_DAY else "cd"
        return f"MW ({ext})" if u == "MW" else u.replace("/d", f"/{ext}")
    if isinstance(ts, TimeSeriesVolumesCumulative):
        return f"{u} (cd)"
    return u


def series(component, prefix=""):
    """All series of a component, with their column names."""
    for k, v in component.__dict__.items():
        if isinstance(v, TimeSeries):
            yield prefix + f"{k}[{unit_label(k, v)}]", (k,), v
    for n, e in component.emissions.items():
        for k in ("rate", "cumulative"):
            v = getattr(e, k)
            yield prefix + f"{n}.{k}[{unit_label(k, v)}]", ("emissions", n, k), v


def case(ctx):
    rng = ctx.rng
    g = Model(rng, n=rng.choice([1, 2, 3, 5, 8]), dated=rng.choice([0.0, 0.2, 0.4]))
    g.p_over = rng.choice([0.0, 0.0, 0.2])
    g.p_hard = rng.choice([0.0, 0.0, 0.3])
    g.compose()
    m, files = g.build()
    tv = g.tv()
    ctx.note(yaml=lab.dump(m), files=files)
    if g.expected()["refused"]:
        ctx.obs("set aside: refused model")
        return
    span = (tv[-1] - tv[0]).days
    freq = rng.choice(["NONE", "YEAR", "MONTH"] + (["DAY"] if span < 90 else []))
    fmt = rng.choice([0, 1, 2])
    detailed = rng.random() < 0.5
    csv_on = rng.random() < 0.9
    args = ["-f", freq, "--date-format-option", str(fmt), "--json"] + (["--detailed-output"] if detailed else [])
    if not csv_on:
        args.append("--no-csv")
    flow = rng.random() < 0.3
    if flow:
        args.append("--flow-diagram")
    prefix = rng.choice([None, "abc", "my run 1", "a.b"])
    stem = prefix or "model"
    ctx.note(args=args, prefix=prefix)
    out = cli.run(m, files, args, prefix=prefix)
    _, res = lab.run(m, files)
    new = tv if freq == "NONE" else tg.grid(tv[0], tv[-1], freq)
    if new != tv:
        ctx.obs("resampled")
    labels = [d.strftime(cli.DATE[fmt]) for d in new[:-1]]
    ctx.distinct((lab.dump(m), tuple(args)))
    want = {}
    for c in res.components:
        want[c.name] = {path: (col, ts, shown(ts, new, freq != "NONE")) for col, path, ts in series(c, f"{c.name}.")}
        if new != tv:
            ctx.obs("resampled", len(want[c.name]))

    if csv_on:
        name = next((n for n in out if n.endswith(".csv") and not n.endswith("_intensity.csv")), None)
        ctx.require(name is not None and name.split(".")[0] == stem.split(".")[0], "csv-file", f"no CSV file {stem}.csv among {sorted(out)}")
        head, rows = cli.read_csv(out[name])
        ctx.require([r[0] for r in rows] == labels, "csv-index", f"{freq} rows {[r[0] for r in rows][:6]}, expected {labels[:6]}")
        cols = {h: i for i, h in enumerate(head)}
        ctx.require(len(cols) == len(head), "csv-duplicate", "two columns of the same name")
        for cname, attrs in want.items():
            for path, (col, ts, w) in attrs.items():
                ctx.obs("csv-column")
                if col not in cols:
                    ctx.violation("csv-column", f"no column {col}; those of the component: {[h for h in head if h.startswith(cname + '.')]}")
                    continue
                scale = 2e-6 * max([abs(value(v)) for v in ts.values if not math.isnan(value(v))] + [0]) if new != tv else 0.0
                for r, x, t in zip(rows, w, labels):
                    if x is None:
                        continue
                    cell = r[cols[col]]
                    got = math.nan if cell in ("nan", "") else float(cell)
                    ctx.require(same(got, x, scale), "csv-value", f"{col} at {t} is {cell!r}, expected {x}")
    else:
        ctx.require(not any(n.endswith(".csv") for n in out), "csv-off", f"CSV written though not asked for: {sorted(out)}")

    ctx.require(f"{stem}_v3.json" in out, "json-file", f"no {stem}_v3.json among {sorted(out)}")
    js = cli.read_json(out[f"{stem}_v3.json"])
    if detailed:
        comps = {js["component_result"]["name"]: js["component_result"], **{c["name"]: c for c in js["sub_components"]}}
    else:
        comps = {c["name"]: c for c in js["components"]}
    ctx.require(set(comps) == set(want), "json-components", f"components in the JSON file {sorted(comps)}, expected {sorted(want)}")
    for c in res.components:
        jc = comps[c.name]
        ctx.require(jc["componentType"] == str(c.componentType.value) and jc.get("parent") == c.parent, "json-component", f"{c.name} has type {jc['componentType']} and parent {jc.get('parent')}")
        for path, (col, ts, w) in want[c.name].items():
            scale = 2e-6 * max([abs(value(v)) for v in ts.values if not math.isnan(value(v))] + [0]) if new != tv else 0.0
            if detailed:
                o = jc
                for k in path:
                    o = o.get(k) if isinstance(o, dict) else None
                if not isinstance(o, dict):
                    ctx.violation("json-series", f"{c.name} {path} is missing in the detailed JSON file")
                    continue
                got = o["values"]
                ctx.require(o["unit"] == str(ts.unit.value), "json-unit", f"{c.name} {path} in {o['unit']}, expected {ts.unit}")
                starts = [p["start"] for p in o["periods"]["periods"]]
                ctx.require(starts == labels, "json-index", f"{c.name} {path} starts {starts[:5]}, expected {labels[:5]}")
                ctx.obs("json-series")
            else:
                if path == ("is_valid",) or path == ("energy_usage",) or path == ("power",):
                    got = jc.get(path[0])
                elif path[0] == "emissions" and path[2] == "rate":
                    got = jc["emissions"].get(path[1], {}).get("rate")
                else:
                    continue
                ctx.obs("json-simple")
                if path == ("energy_usage",):
                    ctx.require(jc["energy_usage_unit"] == str(ts.unit.value), "json-unit", f"{c.name} energy usage in {jc['energy_usage_unit']}")
            ctx.require(got is not None and len(got) == len(w), "json-length", f"{c.name} {path}: {got} over {len(w)} periods")
            for x, y, t in zip(got, w, labels):
                if y is not None:
                    ctx.require(same(x, y, scale), "json-value", f"{c.name} {path} at {t} is {x}, expected {y}")
    if flow:
        text = out[next(n for n in out if n.endswith("flow-diagram.json"))]
        diagrams = cli.read_json(text)
        titles = []

        def walk(o):
            if isinstance(o, dict):
                if "title" in o and "type" in o:
                    titles.append(o["title"])
                for v in o.values():
                    walk(v)
            elif isinstance(o, list):
                for v in o:
                    walk(v)

        walk(diagrams)
        for c in res.components:
            if c.componentType.value != "ASSET":
                ctx.require(c.name in titles, "flow-node", f"{c.name} is not in the flow diagram {sorted(set(titles))[:20]}")
    ctx.sample({"args": args, "files": sorted(out), "components": len(want)})
