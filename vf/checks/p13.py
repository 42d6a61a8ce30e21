"""P13 compressor charts: interpolation, control margin, capacity, efficiency, generic charts."""

from __future__ import annotations

import warnings

import numpy as np

from vf.compref import CompRef, chart_data, random_chart
from vf.charts import lin

CASES = {"quick": 4000, "thorough": 24000}
RULE = "random compressor charts (1-6 curves, control margins, points and curves in any order) and random operating points in, on and around them; distinct by chart and margin"
MIN_OBS = {
    "single-point": 15000, "rate-limits": 10000, "capacity": 15000, "efficiency": 3000, "control-margin": 1500, "generic-design-point": 600, "generic-from-input": 150,
    "scale": 800, "outside the chart": 3000, "between curves": 3000,
}
ASSUMPTIONS = ["heads fall with rate along each curve, and curves move right and up with speed, as compressor charts do"]


def random_points(rng, ref, n):
    out = []
    smin, smax = ref.speeds[0], ref.speeds[-1]
    for _ in range(n):
        s = rng.choice([rng.choice(ref.speeds), rng.uniform(smin, smax), rng.uniform(smin, smax), rng.uniform(0.8 * smin, 1.1 * smax)])
        lo, hi = ref.qmin(s), ref.qmax(s)
        q = rng.choice([lo, hi, rng.uniform(lo, hi), rng.uniform(lo, hi), rng.uniform(0.2 * lo, lo), rng.uniform(hi, 1.4 * hi)])
        out.append((s, q))
    return out


def near(a, b, eps=1e-9):
    return abs(a - b) <= eps * max(abs(a), abs(b))


def single_points(ctx, ref, chart):
    rng = ctx.rng
    for s, q in random_points(rng, ref, 20):
        lo, hi = ref.qmin(s), ref.qmax(s)
        ctx.close(float(chart.minimum_rate_as_function_of_speed(s)), lo, "rate-limits", f"minimum rate at speed {s}", rel=1e-9)
        ctx.close(float(chart.maximum_rate_as_function_of_speed(s)), hi, "rate-limits", f"maximum rate at speed {s}", rel=1e-9)
        res = chart.calculate_polytropic_head_and_efficiency_single_point(speed=s, actual_rate_m3_per_hour=q)
        inside_speed = ref.speeds[0] <= s <= ref.speeds[-1]
        if inside_speed and (near(q, hi) or near(q, lo)) and s not in ref.speeds:
            ctx.obs("set aside: on the edge between two curves")
            continue
        valid = inside_speed and q <= hi
        ctx.require(bool(res.is_valid) == valid, "single-point", f"point at speed {s}, rate {q} (limits {lo} - {hi}) is said to be {'valid' if res.is_valid else 'invalid'}")
        flag = str(getattr(res.chart_area_flag, "value", res.chart_area_flag))
        want = "BELOW_MINIMUM_SPEED" if s < ref.speeds[0] else "ABOVE_MAXIMUM_SPEED" if s > ref.speeds[-1] else "BELOW_MINIMUM_FLOW_RATE" if q < lo else "ABOVE_MAXIMUM_FLOW_RATE" if q > hi else "INTERNAL_POINT"
        ctx.require(flag == want, "single-point", f"point at speed {s}, rate {q} (limits {lo} - {hi}) is flagged {flag}, expected {want}")
        if not valid:
            ctx.obs("outside the chart")
            continue
        if s not in ref.speeds:
            ctx.obs("between curves")
        h, e = ref.lookup(s, max(q, lo))
        ctx.close(res.polytropic_head, h, "single-point", f"head at speed {s}, rate {q}", rel=1e-7)
        ctx.close(res.polytropic_efficiency, e, "single-point", f"efficiency at speed {s}, rate {q}", rel=1e-7)


def capacity(ctx, ref, chart):
    rng = ctx.rng
    hs = [h for c in ref.curves for h in c[2]]
    qs = [q for c in ref.curves for q in c[1]]
    pts = [(rng.uniform(0.5 * min(qs), 1.3 * max(qs)), rng.uniform(0.4 * min(hs), 1.2 * max(hs))) for _ in range(12)]
    for choke in (True, False):
        res = chart.evaluate_capacity_and_extrapolate_below_minimum(np.array([p[0] for p in pts]), np.array([p[1] for p in pts]), choke)
        for i, (q, h) in enumerate(pts):
            qmin = ref.min_rate_at_head(h) if choke else ref.min_rate_no_choking(h)
            qmax = ref.max_rate_at_head(h) if choke else ref.max_rate_no_choking(h)
            a = max(q, qmin)
            hmin = ref.min_head_at_rate(a)
            hc = max(h, hmin) if choke else h
            hmax = ref.max_head_at_rate(q)
            if near(a, qmax, 1e-7) or near(hc, hmax, 1e-7) or near(h, hmin, 1e-7) or near(q, qmin, 1e-7):
                ctx.obs("set aside: on an edge of the chart")
                continue
            over_q, over_h = a > qmax, hc > hmax
            over = over_q or over_h or (not choke and h < hmin)
            text = f"rate {q}, head {h}, choking {choke}"
            ctx.close(res.asv_corrected_rates[i], a, "capacity", f"rate after anti-surge at {text}", rel=1e-9)
            ctx.close(res.choke_corrected_heads[i], hc, "capacity", f"head after choking at {text}", rel=1e-9)
            for name, want in (("rate_has_recirc", q < qmin), ("pressure_is_choked", choke and h < hmin), ("rate_exceeds_maximum", over_q), ("head_exceeds_maximum", over_h), ("exceeds_capacity", over)):
                ctx.require(bool(getattr(res, name)[i]) == want, "capacity", f"{name} is {getattr(res, name)[i]} at {text}")


def efficiency(ctx, ref, chart):
    rng = ctx.rng
    hs = [h for c in ref.curves for h in c[2]]
    qs = [q for c in ref.curves for q in c[1]]
    pts = []
    for _ in range(3):
        s = rng.uniform(ref.speeds[0], ref.speeds[-1])
        q = rng.uniform(ref.qmin(s), ref.qmax(s))
        pts.append((q, ref.lookup(s, q)[0], None))
    c = rng.choice(ref.curves)
    i = rng.randrange(len(c[1]))
    pts.append((c[1][i], c[2][i], c[3][i]))
    pts.append((rng.uniform(0.9 * min(qs), 1.1 * max(qs)), rng.uniform(0.9 * min(hs), 1.1 * max(hs)), None))
    got = chart.efficiency_as_function_of_rate_and_head(np.array([p[0] for p in pts]), np.array([p[1] for p in pts]))
    es = [e for c in ref.curves for e in c[3]]
    for (q, h, on), g in zip(pts, got):
        e = ref.efficiency(q, h)
        ctx.require(min(es) - 1e-9 <= g <= max(es) + 1e-9, "efficiency", f"efficiency {g} at rate {q}, head {h} is outside those of the chart")
        if on is not None and sum(1 for x in ref.curves if lin(x[1], x[2], q) == h) <= 1:
            ctx.close(float(g), on, "efficiency", f"efficiency at the chart's own point {q}, {h}", rel=1e-6)
        elif ref.tie:
            ctx.obs("set aside: above or below a curve by rounding alone")
        else:
            ctx.close(float(g), e, "efficiency", f"efficiency at rate {q}, head {h}", rel=1e-6)


def margin_check(ctx, curves, m, chart):
    """a control margin only moves the left end of each curve"""
    from libecalc.domain.process.value_objects.chart.compressor import CompressorChart

    plain = CompressorChart(chart_data(curves))
    for a, b in zip(plain.curves, chart.curves):
        q0 = a.rate[0] + (m or 0.0) * (a.rate[-1] - a.rate[0])
        ctx.close(b.rate[0], q0, "control-margin", "left end of the curve", rel=1e-9)
        ctx.require(b.rate[-1] == a.rate[-1] and b.speed == a.speed, "control-margin", "the right end or the speed of a curve moved")
        for _ in range(2):
            q = ctx.rng.uniform(q0, a.rate[-1])
            ctx.close(float(b.head_as_function_of_rate(q)), float(a.head_as_function_of_rate(q)), "control-margin", f"head at {q}", rel=1e-9)
            ctx.close(float(b.efficiency_as_function_of_rate(q)), float(a.efficiency_as_function_of_rate(q)), "control-margin", f"efficiency at {q}", rel=1e-9)
    for c, (s, *_rest) in zip(sorted(plain.chart_data.get_original_curves(), key=lambda c: c.speed), sorted(curves)):
        ctx.require(c.speed == s, "control-margin", "original curves changed")


def scale(ctx, curves, m, chart):
    """the units of rate and head do not matter: a chart scaled in both gives the same efficiency, a scaled head and the same validity"""
    from libecalc.domain.process.value_objects.chart.compressor import CompressorChart

    a, b = ctx.rng.choice([0.01, 0.5, 3.0, 24.0]), ctx.rng.choice([0.1, 2.0, 9.81])
    other = CompressorChart(chart_data([(s, [a * x for x in q], [b * x for x in h], e) for s, q, h, e in curves], m))
    s, e, c = chart.speed_values, None, chart.curves[ctx.rng.randrange(len(chart.curves))]
    n = ctx.rng.uniform(s[0], s[-1])
    lo, hi = (float(f(n)) for f in (chart.minimum_rate_as_function_of_speed, chart.maximum_rate_as_function_of_speed))
    q = lo + ctx.rng.uniform(0.01, 0.99) * (hi - lo)
    one = chart.calculate_polytropic_head_and_efficiency_single_point(speed=n, actual_rate_m3_per_hour=q)
    two = other.calculate_polytropic_head_and_efficiency_single_point(speed=n, actual_rate_m3_per_hour=a * q)
    ctx.close(two.polytropic_head, b * one.polytropic_head, "scale", "head of a chart with another scale", rel=1e-7)
    ctx.close(two.polytropic_efficiency, one.polytropic_efficiency, "scale", "efficiency of a chart with another scale", rel=1e-7)
    h = one.polytropic_head
    e1 = chart.efficiency_as_function_of_rate_and_head(np.array([q]), np.array([h]))[0]
    e2 = other.efficiency_as_function_of_rate_and_head(np.array([a * q]), np.array([b * h]))[0]
    if len(chart.curves) > 1 and n not in s:
        ctx.close(float(e2), float(e1), "scale", "efficiency by rate and head of a chart with another scale", rel=1e-5)


def generic(ctx):
    from libecalc.domain.process.value_objects.chart.compressor import CompressorChart
    from libecalc.domain.process.value_objects.chart.compressor.chart_creator import CompressorChartCreator as C

    rng = ctx.rng
    eta = rng.choice([1.0, rng.uniform(0.5, 0.9)])
    if rng.random() < 0.5:
        q, h = 10 ** rng.uniform(2, 4.5), 10 ** rng.uniform(4, 5.3)
        one = C.from_rate_and_head_design_point(1.0, 1.0, eta)
        two = C.from_rate_and_head_design_point(q, h, eta)
        ctx.require((two.design_rate, two.design_head) == (q, h), "generic-design-point", "the design point changed")
        A, B = CompressorChart(one), CompressorChart(two)
        ctx.require(A.speed_values == B.speed_values and len(B.curves) == 2, "generic-design-point", "speeds")
        for a, b in zip(A.curves, B.curves):
            ctx.close_list(list(b.rate), [q * x for x in a.rate], "generic-design-point", "rates of the curve", rel=1e-9)
            ctx.close_list(list(b.head), [h * x for x in a.head], "generic-design-point", "heads of the curve", rel=1e-9)
            ctx.require(all(x == eta for x in b.efficiency), "generic-design-point", "efficiency of the curve")
        # the design point is on the highest but a few percent of the speed range, inside the chart
        r = B.evaluate_capacity_and_extrapolate_below_minimum(np.array([q]), np.array([h]), False)
        ctx.require(not r.exceeds_capacity[0], "generic-design-point", "the design point is outside its own chart")
        ctx.distinct(("design", q, h, eta))
        return
    k = rng.choice([1, 2, 3, 6, 15, 40])
    style = rng.random()
    q0, h0 = 10 ** rng.uniform(2, 4.5), 10 ** rng.uniform(4, 5.2)
    if style < 0.4:
        pts = [(q0 * rng.uniform(0.1, 1), h0 * rng.uniform(0.2, 1)) for _ in range(k)]
    elif style < 0.7:  # a narrow cloud
        pts = [(q0 * rng.uniform(0.9, 1), h0 * rng.uniform(0.9, 1)) for _ in range(k)]
    else:  # along a curve falling with rate, as operating points of one machine do
        pts = [(q0 * x, h0 * (1.1 - 0.6 * x**2) * rng.uniform(0.95, 1)) for x in (rng.uniform(0.4, 1) for _ in range(k))]
    qs, hs = [p[0] for p in pts], [p[1] for p in pts]
    data = C.from_rate_and_head_values(qs, hs, eta)
    ref = CompRef([(c.speed, c.rate, c.head, c.efficiency) for c in data.get_adjusted_curves()])
    chart = CompressorChart(data)
    res = chart.evaluate_capacity_and_extrapolate_below_minimum(np.array(qs), np.array(hs), True)
    ctx.note(rates=qs, heads=hs)
    need = 0.0
    for i, (q, h) in enumerate(pts):
        over = max(q / ref.max_rate_at_head(h), max(h, ref.min_head_at_rate(q)) / ref.max_head_at_rate(q))
        need = max(need, over)
        ctx.require(over <= 1 + 1e-4, "generic-from-input", f"the point {q} m3/h, {h} J/kg lies {over - 1:.2%} outside the chart made to hold it")
        ctx.require(not res.exceeds_capacity[i], "generic-from-input", f"the point {q} m3/h, {h} J/kg exceeds the capacity of the chart made to hold it")
    ctx.require(all(e == eta for c in ref.curves for e in c[3]), "generic-from-input", "efficiency of the chart")
    ctx.distinct(("input", repr(pts)))


def plateau(ctx):
    """a control margin on curves with heads and efficiencies of any shape: equal, rising or falling"""
    from libecalc.domain.process.value_objects.chart import ChartCurve

    rng = ctx.rng
    n = rng.choice([2, 3, 4, 7])
    q = [rng.uniform(10, 3000)]
    for _ in range(n - 1):
        q.append(q[-1] + rng.uniform(1, 1000))
    h = sorted((rng.choice([5e4, 6e4, rng.uniform(2e4, 9e4)]) for _ in range(n)), reverse=rng.random() < 0.8)
    e = [rng.choice([0.7, rng.uniform(0.4, 0.9)]) for _ in range(n)]
    m = rng.choice([0.05, rng.uniform(0.01, 0.8), (rng.choice(q[1:]) - q[0]) / (q[-1] - q[0])])
    if m > 0.97:
        return
    ctx.note(rates=q, heads=h, efficiencies=e, margin=m)
    c = ChartCurve(speed_rpm=1.0, rate_actual_m3_hour=q, polytropic_head_joule_per_kg=h, efficiency_fraction=e)
    a = c.adjust_for_control_margin(m)
    q0 = q[0] + m * (q[-1] - q[0])
    ctx.close(a.rate[0], q0, "control-margin", "left end of the curve", rel=1e-9)
    ctx.require((c.rate, c.head, c.efficiency) == (q, h, e), "control-margin", "the curve as given changed")
    for x in [q0, q[-1], *(y for y in q if y > q0), rng.uniform(q0, q[-1])]:
        ctx.close(float(np.interp(x, a.rate, a.head)), float(np.interp(x, q, h)), "control-margin", f"head at {x}", rel=1e-7)
        ctx.close(float(np.interp(x, a.rate, a.efficiency)), float(np.interp(x, q, e)), "control-margin", f"efficiency at {x}", rel=1e-7)
    ctx.distinct(("plateau", repr((q, h, m))))


def case(ctx):
    from libecalc.domain.process.value_objects.chart.compressor import CompressorChart

    warnings.simplefilter("ignore")
    rng = ctx.rng
    if rng.random() < 0.25:
        return generic(ctx)
    for _ in range(3):
        plateau(ctx)
    curves = random_chart(rng)
    m = rng.choice([None, 0.0, 0.1, rng.uniform(0.01, 0.5)])
    ctx.note(curves=curves, margin=m)
    chart = CompressorChart(chart_data(curves, m, rng if rng.random() < 0.5 else None))
    ref = CompRef(curves, m or 0.0)
    ctx.require(list(chart.speed_values) == ref.speeds, "single-point", "the curves are not in order of speed")
    single_points(ctx, ref, chart)
    if rng.random() < 0.7:
        capacity(ctx, ref, chart)
    efficiency(ctx, ref, chart)
    margin_check(ctx, curves, m, chart)
    scale(ctx, curves, m, chart)
    ctx.distinct(repr((curves, m)))
