"""P02 time series and the global time vector: what a time series contributes, at every time step, in every format."""

from __future__ import annotations

import datetime as dt

from vf import lab
from vf import timegen as tg

CASES = {"quick": 700, "thorough": 14000}
CASE_TIMEOUT = {"quick": 120, "thorough": 120}
RULE = (
    "random models with 1-3 time series files (DEFAULT and MISCELLANEOUS; LEFT/RIGHT/LINEAR; extrapolation on/off; "
    "influencing the time vector or not; six date formats; shuffled rows; comments, blanks, integer and float columns), "
    "with or without START, run end to end; each column is read back through a fuel consumer and through variables. "
    "Distinct by (interpolation, extrapolation, influence, format, date layout); non-trivial when the series does not cover the whole run."
)
MIN_OBS = {"time-vector": 300, "series-value": 4000, "variable-value": 2000, "bad-file-rejected": 60}
ASSUMPTIONS = ["whole-day dates, except in the formats with a time of day (which is then whole hours)"]

FORMATS = {
    "iso": "%Y-%m-%d",
    "iso/": "%Y/%m/%d",
    "iso.": "%Y.%m.%d",
    "isotime": "%Y-%m-%d %H:%M:%S",
    "isoT": "%Y-%m-%dT%H:%M:%S",
    "eu-": "%d-%m-%Y",
    "eu/": "%d/%m/%Y",
    "eu.": "%d.%m.%Y",
    "eutime": "%d.%m.%Y %H:%M:%S",
    "eutimemin": "%d/%m/%Y %H:%M",
}


def fit(dates, values, kind, extrapolate, t):
    """Independent statement of the documentation."""
    rows = sorted(zip(dates, values))
    ds, vs = [r[0] for r in rows], [float(r[1]) for r in rows]
    if t < ds[0]:
        return 0.0
    if t > ds[-1]:
        return vs[-1] if extrapolate else 0.0
    if t in ds:
        return vs[ds.index(t)]
    i = max(k for k in range(len(ds)) if ds[k] <= t)
    if kind == "RIGHT":
        return vs[i]
    if kind == "LEFT":
        return vs[i + 1]
    w = (t - ds[i]).total_seconds() / (ds[i + 1] - ds[i]).total_seconds()
    return vs[i] + w * (vs[i + 1] - vs[i])


def make_file(rng, base):
    n = rng.choice([1, 2, 3, 5, 8])
    dates = tg.random_dates(rng, n, start_year=base)
    if rng.random() < 0.12:
        dates = [dt.datetime(d.year, 1, 1) for d in dates]
        dates = sorted(set(dates))
        fmt = "year"
    else:
        fmt = rng.choice(list(FORMATS))
    if fmt in ("isotime", "isoT", "eutime", "eutimemin") and rng.random() < 0.4:
        dates = [d + dt.timedelta(hours=rng.choice([0, 0, 6, 12])) for d in dates]
    cols = rng.choice([1, 1, 2, 3])
    data = []
    for _ in range(cols):
        if rng.random() < 0.3:
            data.append([rng.randrange(0, 1000) for _ in dates])
        else:
            data.append([rng.choice([0.0, rng.uniform(0, 1e5), rng.uniform(0, 1), 1.5e-3]) for _ in dates])
    names = rng.sample(["GAS", "OIL_PROD", "water.inj", "gas", "x", "P-50", "a+b", "p/q"], cols)
    rows = list(range(len(dates)))
    if rng.random() < 0.4:
        rng.shuffle(rows)
    head = rng.choice(["DATE", "DATES", "DATE", "time"])
    pos = 0 if head == "time" else rng.randrange(cols + 1)

    def cell(d):
        return str(d.year) if fmt == "year" else d.strftime(FORMATS[fmt])

    sp = rng.choice(["", "", " "])
    lines = []
    if rng.random() < 0.2:
        lines.append("# a comment")
    hdr = list(names)
    hdr.insert(pos, head)
    lines.append(("," + sp).join(hdr))
    for r in rows:
        cells = [repr(c[r]) for c in data]
        cells.insert(pos, cell(dates[r]))
        lines.append(("," + sp).join(cells))
        if rng.random() < 0.05:
            lines.append(rng.choice(["# note", ""]))
    return dict(dates=dates, names=names, data=data, fmt=fmt, text="\n".join(lines) + "\n")


def case(ctx):
    if ctx.index % 8 == 7:
        return case_bad(ctx)
    rng = ctx.rng
    y = rng.randint(2001, 2030)
    nfiles = rng.choice([1, 1, 2, 3])
    series, files, fs = [], {}, []
    for i in range(nfiles):
        f = make_file(rng, (y, y + 2))
        misc = rng.random() < 0.7
        e = {"NAME": f"TS{i}", "TYPE": "MISCELLANEOUS" if misc else "DEFAULT", "FILE": f"in{i}.csv"}
        f["kind"], f["extra"], f["influence"] = "RIGHT", False, True
        if misc:
            f["kind"] = e["INTERPOLATION_TYPE"] = rng.choice(["LEFT", "RIGHT", "LINEAR"])
            if rng.random() < 0.6:
                f["extra"] = e["EXTRAPOLATION"] = rng.random() < 0.5
        if rng.random() < 0.5:
            f["influence"] = e["INFLUENCE_TIME_VECTOR"] = rng.random() < 0.6
        files[e["FILE"]] = f["text"]
        f["name"] = e["NAME"]
        series.append(e)
        fs.append(f)
    alldates = sorted({d for f in fs for d in f["dates"]})
    infl = sorted({d for f in fs if f["influence"] for d in f["dates"]})
    lo, hi = min(alldates), max(alldates)
    day = dt.timedelta(days=1)
    clear = lambda d: dt.datetime(d.year, d.month, d.day)  # noqa: E731
    start = None
    if not infl or rng.random() < 0.5:
        start = rng.choice([clear(lo), clear(lo) - 100 * day, clear(lo) + 40 * day, clear(rng.choice(alldates))])
    first = start or infl[0]
    end = rng.choice([clear(hi) + 200 * day, clear(hi) + 1 * day, clear(rng.choice(alldates)) + 3 * day, first + 20 * day])
    end = clear(end)
    if end <= first:
        end = clear(first) + 30 * day
    extra_dates = []
    variables = {}
    for f in fs:
        for c in f["names"]:
            ref = f"{f['name']};{c}"
            variables[f"v{len(variables)}"] = {"VALUE": f"{ref} {{+}} 1"}
    # a dated variable adds its dates to the time vector
    if rng.random() < 0.4:
        d0 = first + day * rng.randrange(1, 60)
        d0 = clear(d0)
        extra_dates = [d for d in (clear(first) - 10 * day, d0)]
        variables["dated"] = {extra_dates[0]: {"VALUE": 1}, extra_dates[1]: {"VALUE": 2}}
    want_tv = sorted({d for d in [*infl, *extra_dates, first, end] if first <= d <= end})
    consumers, plan = [], []
    for f in fs:
        for c, col in zip(f["names"], f["data"]):
            name = f"obs{len(plan)}"
            consumers.append({"NAME": name, "CATEGORY": "FLARE", "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "FUELRATE": f"{f['name']};{c}"}})
            plan.append((name, f, col))
    nobs = len(plan)
    for i in range(nobs):
        consumers.append({"NAME": f"var{i}", "CATEGORY": "FLARE", "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "FUELRATE": f"$var.v{i} {{*}} 2"}})
    model = lab.minimal_model(time_series=series, variables=variables, start=start, end=end)
    model["INSTALLATIONS"][0]["FUELCONSUMERS"] = consumers
    ctx.note(yaml=lab.dump(model), files=files)
    m, res = lab.run(model, files)
    tv = list(m.variables.periods.all_dates)
    ctx.require(tv == want_tv, "time-vector", f"global time vector {[str(d) for d in tv]}, expected {[str(d) for d in want_tv]}")
    comps = {c.name: c for c in res.components}
    for i, (name, f, col) in enumerate(plan):
        want = [fit(f["dates"], col, f["kind"], f["extra"], t) for t in want_tv[:-1]]
        got = comps[name].energy_usage
        ctx.require(list(got.periods.all_dates) == want_tv, "time-vector", f"time vector of {name}")
        ctx.close_list(got.values, want, "series-value", f"{f['kind']} extrapolation={f['extra']} {f['fmt']} column", abs_=1e-9)
        ctx.close_list(comps[f"var{i}"].energy_usage.values, [2 * (w + 1) for w in want], "variable-value", "variable of the column", abs_=1e-9)
        outside = any(t < min(f["dates"]) or t > max(f["dates"]) for t in want_tv[:-1])
        if outside or any(t not in f["dates"] for t in want_tv[:-1]):
            ctx.distinct((f["kind"], f["extra"], f["influence"], f["fmt"], tuple(f["dates"]), start is None))
    ctx.sample({"time_vector": [str(d)[:10] for d in tv], "series": series, "first_file": fs[0]["text"][:200]})


def case_bad(ctx):
    """Files whose meaning is not certain must be refused, never guessed."""
    rng = ctx.rng
    good = ["2020-01-01", "2021-01-01", "2022-01-01"]
    kind = rng.choice(["duplicate", "us", "mixed", "ampm", "nonnumeric", "nodata", "empty-cell-date", "gibberish", "badday", "header", "nocolumn", "nofile", "noheader"])
    dates, vals, hdr = list(good), ["1", "2", "3"], "DATE,A"
    if kind == "duplicate":
        dates[rng.randrange(1, 3)] = dates[0]
    elif kind == "us":
        dates = ["01/31/2020", "01/31/2021", "01/31/2022"]
    elif kind == "mixed":
        dates[rng.randrange(3)] = rng.choice(["31.12.2023", "2024", "2024-02-01 10:00:00"])
    elif kind == "ampm":
        dates = [d + " 10:00 AM" for d in dates]
    elif kind == "nonnumeric":
        vals[rng.randrange(3)] = "abc"
    elif kind == "nodata":
        dates, vals = [], []
    elif kind == "empty-cell-date":
        dates[rng.randrange(3)] = ""
    elif kind == "gibberish":
        dates[rng.randrange(3)] = rng.choice(["yesterday", "20200101x", "1/1/20"])
    elif kind == "badday":
        dates[rng.randrange(3)] = rng.choice(["2021-02-30", "2021-13-01", "2023-04-31"])
    elif kind == "header":
        hdr = rng.choice(["DATE,1A", "DATE,", "DATE,_x"])
    elif kind == "nocolumn":
        hdr = rng.choice(["DATE,B", "DATE,AA"])
    elif kind == "noheader":
        hdr = "2019-01-01,5"
    text = hdr + "\n" + "".join(f"{d},{v}\n" for d, v in zip(dates, vals))
    model = lab.minimal_model(time_series=[{"NAME": "TS", "TYPE": "DEFAULT", "FILE": "a.csv"}], start=dt.datetime(2020, 1, 1), end=dt.datetime(2024, 1, 1))
    if kind != "header":
        model["INSTALLATIONS"][0]["FUELCONSUMERS"][0]["ENERGY_USAGE_MODEL"]["FUELRATE"] = "TS;A"
    ctx.note(kind=kind, text=text)
    no, out = lab.refused(lambda: lab.run(model, {} if kind == "nofile" else {"a.csv": text}))
    ctx.obs("bad-file-rejected")
    ctx.distinct(("bad", kind, text))
    if not no:
        values = [c.energy_usage.values for c in out[1].components if c.name == "flare"]
        ctx.violation("bad-file-rejected", f"a time series file that is {kind} was accepted", values=values)
