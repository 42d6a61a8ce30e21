"""P04 time-series calculus: rates, volumes, cumulatives and resampling conserve what they carry."""

from __future__ import annotations

import math

from libecalc.common.time_utils import Frequency, Period, Periods
from libecalc.common.units import Unit
from libecalc.common.utils.rates import (
    RateType,
    Rates,
    TimeSeriesBoolean,
    TimeSeriesFloat,
    TimeSeriesInt,
    TimeSeriesRate,
    TimeSeriesStreamDayRate,
    TimeSeriesString,
    TimeSeriesVolumes,
)
from vf import timegen as tg
from vf.core import is_close

CASES = {"quick": 6000, "thorough": 100000}
RULE = (
    "random whole-day time vectors (yearly, monthly, daily, irregular, around leap days and year ends; 1-9 periods) "
    "with random values and regularities (incl. 0 and zero rates); every derived quantity compared with an independent "
    "step-function integral. Non-trivial: at least one boundary of the input is off the output grid, or regularities "
    "differ; distinct by (dates, frequency, operation)."
)
MIN_OBS = {
    "volumes": 2000,
    "cumulative": 2000,
    "resample-rate": 3000,
    "resample-volumes": 2000,
    "resample-float": 2000,
    "resample-bool": 2000,
    "sum-volume": 1000,
    "split-join": 1000,
    "join-rejects-gap": 300,
    "join-rejects-overlap": 300,
    "join-rejects-unit": 300,
    "join-rejects-type": 150,
    "regularity-roundtrip": 500,
}
UNITS = [
    (Unit.TONS_PER_DAY, Unit.TONS, 1.0),
    (Unit.STANDARD_CUBIC_METER_PER_DAY, Unit.STANDARD_CUBIC_METER, 1.0),
    (Unit.MEGA_WATT, Unit.MEGA_WATT_DAYS, 1.0),
    (Unit.KILO_PER_DAY, Unit.KILO, 1.0),
]
FREQ = {"YEAR": Frequency.YEAR, "MONTH": Frequency.MONTH, "DAY": Frequency.DAY}


def P(dates):
    return Periods.create_periods(dates, include_before=False, include_after=False)


def value(rng):
    return rng.choice([0.0, 0.0, rng.uniform(0, 10), rng.uniform(0, 1e6), rng.uniform(0, 1e-3), 1.0, -rng.uniform(0, 5)])


def reg(rng):
    return rng.choice([1.0, 1.0, rng.uniform(0.01, 1), 0.5, 0.95, 0.0])


def near(rng, regs):
    """Regularities that are easily mistaken for the given ones: permuted, or different in one place only."""
    g = list(regs)
    kind = rng.randrange(4)
    if kind == 0:
        rng.shuffle(g)
    elif kind == 1 and len(g) > 2:
        mid = g[1:-1]
        rng.shuffle(mid)
        g[1:-1] = mid
    elif kind == 2 and len(g) > 1:
        i, j = rng.sample(range(len(g)), 2)
        g[i], g[j] = g[j], g[i]
    else:
        g[rng.randrange(len(g))] = reg(rng)
    return g


def gen(rng, positive=False):
    dates = tg.random_dates(rng)
    n = len(dates) - 1
    vals = [abs(value(rng)) if positive else value(rng) for _ in range(n)]
    kind = rng.randrange(3)
    regs = [1.0] * n if kind == 0 else ([reg(rng)] * n if kind == 1 else [reg(rng) for _ in range(n)])
    return dates, vals, regs


def freq_for(rng, dates):
    span = tg.days(dates[0], dates[-1])
    f = rng.choice(["YEAR", "MONTH", "DAY"])
    if f == "DAY" and span > 500:
        f = "MONTH"
    return f


def dates_of(ts):
    return list(ts.periods.all_dates)


def tol(*v):
    return 1e-9 * max([1e-6] + [abs(x) for x in v])


def case_rate(ctx):
    rng = ctx.rng
    dates, vals, regs = gen(rng)
    unit, vunit, factor = rng.choice(UNITS)
    typ = rng.choice([RateType.STREAM_DAY, RateType.CALENDAR_DAY])
    ctx.note(dates=[str(d) for d in dates], values=vals, regularity=regs, type=str(typ))
    r = TimeSeriesRate(periods=P(dates), values=list(vals), unit=unit, regularity=list(regs), rate_type=typ)
    cal = [v * g for v, g in zip(vals, regs)] if typ == RateType.STREAM_DAY else list(vals)
    stream = list(vals) if typ == RateType.STREAM_DAY else [v / g if g else 0.0 for v, g in zip(vals, regs)]
    ctx.close_list(r.to_calendar_day().values, cal, "to-calendar", "calendar day rate", abs_=0)
    ctx.close_list(r.to_stream_day().values, stream, "to-stream", "stream day rate", abs_=0)
    ctx.require(
        r.to_calendar_day().rate_type == RateType.CALENDAR_DAY and r.to_stream_day().rate_type == RateType.STREAM_DAY,
        "rate-type-tag", "converted rate is tagged with the wrong type",
    )
    if all(regs):
        ctx.close_list(r.to_stream_day().to_calendar_day().values, cal, "regularity-roundtrip", "calendar->stream->calendar", abs_=0)
        ctx.close_list(r.to_calendar_day().to_stream_day().values, stream, "regularity-roundtrip", "stream->calendar->stream", abs_=0)
    vols = r.to_volumes()
    want = [c * tg.days(a, b) for c, a, b in zip(cal, dates[:-1], dates[1:])]
    ctx.close_list(vols.values, want, "volumes", "volume = calendar rate x days", abs_=0)
    ctx.require(vols.unit == vunit, "volume-unit", f"unit {unit} became {vols.unit}")
    cum = vols.cumulative()
    run, wc = 0.0, []
    for w in want:
        run += w
        wc.append(run)
    ctx.close_list(cum.values, wc, "cumulative", "cumulative volume", abs_=tol(*want))
    ctx.close_list(cum.to_volumes().values, want, "cumulative", "volumes from cumulative", abs_=tol(*wc))
    ctx.close_list(Rates.compute_cumulative_volumes_from_daily_rates(cal, P(dates)), wc, "cumulative", "cumulative from rates", abs_=tol(*want))
    back = vols.to_rate(regularity=list(regs))
    ctx.close_list(back.values, cal, "volumes-to-rate", "rate from volumes", abs_=0)
    ctx.require(r.values == vals and list(r.regularity) == regs, "input-intact", "operations changed their input")

    # resampling
    f = freq_for(rng, dates)
    inc_s, inc_e = rng.choice([(True, True)] * 3 + [(False, True), (True, False), (False, False)])
    new = tg.grid(dates[0], dates[-1], f, inc_s, inc_e)
    if len(new) < 2:
        return
    if set(dates) != set(new):
        ctx.distinct(("rate", tuple(dates), f, inc_s, inc_e))
    vals_new = [tg.integral(dates, cal, a, b) for a, b in zip(new[:-1], new[1:])]
    strm_new = [tg.integral(dates, stream, a, b) for a, b in zip(new[:-1], new[1:])]
    rv = vols.resample(FREQ[f], inc_s, inc_e)
    ctx.require(dates_of(rv) == new, "resample-grid", f"{f} grid of {dates[0]}..{dates[-1]}", got=[str(d) for d in dates_of(rv)])
    ctx.close_list(rv.values, vals_new, "resample-volumes", f"volume per {f}", rel=1e-8, abs_=tol(*wc))
    rr = r.resample(FREQ[f], inc_s, inc_e)
    ctx.require(dates_of(rr) == new and rr.rate_type == typ and rr.unit == unit, "resample-grid", f"{f} rate resampled")
    for i, (a, b) in enumerate(zip(new[:-1], new[1:])):
        d = tg.days(a, b)
        g = rr.values[i]
        if typ == RateType.CALENDAR_DAY:
            w = vals_new[i] / d
        else:
            if any(x == 0.0 for x in tg.overlapping(dates, regs, a, b)) or (strm_new[i] and abs(vals_new[i]) < 1e-6 * abs(strm_new[i])) or abs(strm_new[i]) < 1e-9 * sum(abs(v) for v in wc + [1e-9]):
                ctx.obs("skipped-zero-regularity")
                continue
            if min(vals, default=0) < 0:
                continue
            w = strm_new[i] / d
        ctx.obs("resample-rate")
        if not is_close(g, w, 1e-6, 1e-8 * max([abs(v) for v in vals + stream] + [1e-9])):
            ctx.violation("resample-rate", f"{f} average of {typ} rate in {a:%F}..{b:%F} is {g}, expected {w}", grid=[str(x) for x in new])
        # regularity consistent with both views
        if min(vals) >= 0 and min(regs) > 0 and vals_new[i] > 1e-5 * max(wc) and strm_new[i] > 1e-5 * max(wc):
            ctx.close(rr.regularity[i], vals_new[i] / strm_new[i], "resample-regularity", "regularity of resampled rate", rel=1e-5, abs_=1e-7)
    ctx.close(
        sum(rr.to_volumes().values) if typ == RateType.CALENDAR_DAY or all(regs) and min(vals) >= 0 else sum(vals_new),
        sum(vals_new), "resample-total", "total volume after resampling", rel=1e-6, abs_=1e-7 * max([abs(x) for x in wc] + [1e-9]),
    )
    ctx.sample({"dates": [str(d)[:10] for d in dates], "values": vals, "freq": f, "resampled": rr.values[:6]})


def case_floats(ctx):
    rng = ctx.rng
    dates, vals, _ = gen(rng)
    f = freq_for(rng, dates)
    inc_s, inc_e = rng.choice([(True, True)] * 3 + [(False, True), (True, False), (False, False)])
    new = tg.grid(dates[0], dates[-1], f, inc_s, inc_e)
    if len(new) < 2:
        return
    ctx.note(dates=[str(d) for d in dates], values=vals, freq=f, inc=(inc_s, inc_e))
    ts = TimeSeriesFloat(periods=P(dates), values=list(vals), unit=Unit.BARA)
    got = ts.resample(FREQ[f], inc_s, inc_e)
    ctx.require(dates_of(got) == new, "resample-grid", f"{f} grid", got=[str(d) for d in dates_of(got)])
    ctx.close_list(got.values, [tg.at(dates, vals, a) for a in new[:-1]], "resample-float", f"value in effect at each {f} start", rel=0, abs_=0)
    ints = [rng.randrange(5) for _ in vals]
    got = TimeSeriesInt(periods=P(dates), values=list(ints), unit=Unit.NONE).resample(FREQ[f], inc_s, inc_e)
    ctx.close_list(got.values, [tg.at(dates, ints, a) for a in new[:-1]], "resample-float", "integer in effect", rel=0, abs_=0)
    bools = [rng.random() < 0.7 for _ in vals]
    tb = TimeSeriesBoolean(periods=P(dates), values=list(bools), unit=Unit.NONE)
    got = tb.resample(FREQ[f], inc_s, inc_e)
    want = [all(tg.overlapping(dates, bools, a, b)) for a, b in zip(new[:-1], new[1:])]
    ctx.require(dates_of(got) == new, "resample-grid", "grid of booleans")
    ctx.close_list(got.values, want, "resample-bool", "invalid if any part is invalid", rel=0, abs_=0)
    other = [rng.random() < 0.5 for _ in vals]
    got = (tb * TimeSeriesBoolean(periods=P(dates), values=list(other), unit=Unit.NONE)).values
    ctx.close_list(got, [a and b for a, b in zip(bools, other)], "bool-and", "conjunction", rel=0, abs_=0)
    if set(dates) != set(new):
        ctx.distinct(("float", tuple(dates), f, inc_s, inc_e))
    same = ts.resample(Frequency.NONE)
    ctx.require(same.values == vals and dates_of(same) == dates, "resample-none", "no resampling requested but values changed")


def case_sum(ctx):
    rng = ctx.rng
    dates, v1, r1 = gen(rng, positive=True)
    n = len(v1)
    k = rng.choice([2, 2, 3, 4])
    unit, _, _ = rng.choice(UNITS)
    typ = rng.choice([RateType.STREAM_DAY, RateType.CALENDAR_DAY])
    series, cal_tot, val_tot = [], [0.0] * n, [0.0] * n
    zero_reg = False
    for i in range(k):
        if i == 0:
            v, g = v1, r1
        else:
            v = [rng.choice([0.0, rng.uniform(0, 100)]) for _ in range(n)]
            g = rng.choice([r1, [reg(rng) for _ in range(n)], [reg(rng) for _ in range(n)], near(rng, r1)])
        if typ == RateType.CALENDAR_DAY:
            v = [x if y else 0.0 for x, y in zip(v, g)]
        zero_reg = zero_reg or any(x == 0 for x in g)
        series.append(TimeSeriesRate(periods=P(dates), values=list(v), unit=unit, regularity=list(g), rate_type=typ))
        for j in range(n):
            val_tot[j] += v[j]
            cal_tot[j] += v[j] * g[j] if typ == RateType.STREAM_DAY else v[j]
    ctx.note(dates=[str(d) for d in dates], parts=[(s.values, s.regularity) for s in series], type=str(typ))
    tot = series[0]
    for s in series[1:]:
        tot = tot + s
    ctx.close_list(tot.values, val_tot, "sum-rate", "sum of rates", abs_=tol(*val_tot))
    want = [c * tg.days(a, b) for c, a, b in zip(cal_tot, dates[:-1], dates[1:])]
    ctx.close_list(tot.to_volumes().values, want, "sum-volume", "volume of a sum = sum of volumes", rel=1e-9, abs_=tol(*want))
    for x in tot.regularity:
        ctx.require(-1e-9 <= x <= 1 + 1e-9, "sum-regularity-range", f"regularity {x} of a sum of rates", regularity=tot.regularity)
    try:
        bad = series[0] + TimeSeriesRate(periods=P(dates), values=v1, unit=Unit.BARA, regularity=r1, rate_type=typ)
    except ValueError:
        ctx.obs("sum-rejects-mixed")
    else:
        ctx.violation("sum-rejects-mixed", "rates with different units were added", result=bad.values)
    try:
        other = RateType.CALENDAR_DAY if typ == RateType.STREAM_DAY else RateType.STREAM_DAY
        bad = series[0] + TimeSeriesRate(periods=P(dates), values=v1, unit=unit, regularity=r1, rate_type=other)
    except ValueError:
        ctx.obs("sum-rejects-mixed")
    else:
        ctx.violation("sum-rejects-mixed", "stream day and calendar day rates were added", result=bad.values)
    if any(s.regularity != series[0].regularity for s in series):
        ctx.distinct(("sum", tuple(dates), k, typ))


def case_split(ctx):
    """Cutting a series at any boundary and joining the parts is the identity."""
    rng = ctx.rng
    dates, vals, regs = gen(rng)
    n = len(vals)
    unit, _, _ = rng.choice(UNITS)
    typ = rng.choice([RateType.STREAM_DAY, RateType.CALENDAR_DAY])
    ctx.note(dates=[str(d) for d in dates], values=vals)
    r = TimeSeriesRate(periods=P(dates), values=list(vals), unit=unit, regularity=list(regs), rate_type=typ)
    fl = TimeSeriesFloat(periods=P(dates), values=list(vals), unit=Unit.BARA)
    sd = TimeSeriesStreamDayRate(periods=P(dates), values=list(vals), unit=unit)
    i = rng.randrange(0, n)
    j = rng.randrange(i + 1, n + 1)
    p = Period(start=dates[i], end=dates[j])
    for ts in (r, fl, sd):
        part = ts.for_period(p)
        ctx.require(part.values == vals[i:j] and dates_of(part) == dates[i : j + 1], "for-period", f"values of {type(ts).__name__} in {p}", got=part.values)
        part = ts[i:j]
        ctx.require(part.values == vals[i:j] and dates_of(part) == dates[i : j + 1], "slice", f"slice of {type(ts).__name__}", got=part.values)
        one = ts[i]
        ctx.require(one.values == [vals[i]] and dates_of(one) == dates[i : i + 2], "slice", "single item", got=one.values)
        lst = ts[list(range(i, j))]
        ctx.require(lst.values == vals[i:j], "slice", "list of items", got=lst.values)
        if 0 < i:
            a, b = ts[:i], ts[i:]
            for joined, what in ((a.extend(b), "extend"), (b.extend(a), "extend reversed"), (a.merge(b), "merge"), (b.merge(a), "merge reversed")):
                ctx.require(joined.values == vals and dates_of(joined) == dates, "split-join", f"{what} of {type(ts).__name__}", got=joined.values)
                if ts is r:
                    ctx.require(list(joined.regularity) == regs, "split-join", f"{what} regularity", got=list(joined.regularity))
            joins = [("join-rejects-overlap", lambda: ts[: i + 1].merge(ts[i:])), ("join-rejects-overlap", lambda: ts[: i + 1].extend(ts[i:]))]
            if j < n:
                for a, b in ((ts[:i], ts[j:]), (ts[j:], ts[:i])):
                    joins += [("join-rejects-gap", lambda a=a, b=b: a.merge(b)), ("join-rejects-gap", lambda a=a, b=b: a.extend(b))]
            if ts is not fl:
                odd = ts[i:].model_copy(update={"unit": Unit.BARA})
                joins += [("join-rejects-unit", lambda: ts[:i].merge(odd)), ("join-rejects-unit", lambda: ts[:i].extend(odd))]
            if ts is r:
                odd_type = r[i:].model_copy(update={"rate_type": RateType.CALENDAR_DAY if typ == RateType.STREAM_DAY else RateType.STREAM_DAY})
                joins += [("join-rejects-type", lambda: r[:i].merge(odd_type)), ("join-rejects-type", lambda: r[:i].extend(odd_type))]
            for rule, fn in joins:
                try:
                    bad = fn()
                except ValueError:
                    ctx.obs(rule)
                else:
                    ctx.violation(rule, f"{type(ts).__name__} series that do not fit together were joined", got=bad.values)
    # filling into a longer time vector
    if n >= 2:
        i = rng.randrange(0, n)
        j = rng.randrange(i + 1, n + 1)
        fill = rng.choice([0.0, -1.0])
        got = fl[i:j].fill_values_for_new_periods(P(dates), fillna=fill).values
        ctx.close_list(got, [vals[k] if i <= k < j else fill for k in range(n)], "fill", "values in a longer time vector", rel=0, abs_=0)
    s = TimeSeriesString(periods=P(dates), values=[str(k) for k in range(n)], unit=Unit.NONE)
    ctx.require(s[i:j].values == [str(k) for k in range(i, j)], "slice", "strings")
    ctx.distinct(("split", tuple(dates), i, j))


def case_unit(ctx):
    rng = ctx.rng
    dates, vals, regs = gen(rng)
    r = TimeSeriesRate(periods=P(dates), values=list(vals), unit=Unit.KILO_PER_DAY, regularity=list(regs), rate_type=RateType.CALENDAR_DAY)
    t = r.to_unit(Unit.TONS_PER_DAY)
    ctx.close_list(t.values, [v / 1000 for v in vals], "unit-scale", "kg/d to t/d", abs_=0)
    ctx.require(t.unit == Unit.TONS_PER_DAY and list(t.regularity) == regs and dates_of(t) == dates, "unit-scale", "metadata lost in unit change")
    # average intensity: kg per Sm3, undefined where nothing was exported
    em = [abs(v) for v in vals]
    hc = [rng.choice([0.0, rng.uniform(1, 100)]) for _ in vals]
    a = TimeSeriesVolumes(periods=P(dates), values=em, unit=Unit.KILO)
    b = TimeSeriesVolumes(periods=P(dates), values=hc, unit=Unit.STANDARD_CUBIC_METER)
    want = [e / h if h else math.nan for e, h in zip(em, hc)]
    ctx.close_list((a / b).values, want, "intensity", "volume ratio", abs_=0)
    ctx.close_list(
        (a.cumulative() / b.cumulative()).values,
        [sum(em[: k + 1]) / sum(hc[: k + 1]) if sum(hc[: k + 1]) else math.nan for k in range(len(em))],
        "intensity", "cumulative ratio", rel=1e-9, abs_=1e-12,
    )


def case(ctx):
    k = ctx.index % 10
    if k < 4:
        case_rate(ctx)
    elif k < 6:
        case_floats(ctx)
    elif k < 8:
        case_sum(ctx)
    elif k == 8:
        case_split(ctx)
    else:
        case_unit(ctx)
