"""Independent reference of compressor charts and of the compression step, and random charts."""

from __future__ import annotations

import math

from vf.charts import RefChart, lin

R = 8.314462618153241


def margin(q, h, e, m):
    """a curve with the part left of the control margin cut off"""
    if not m:
        return list(q), list(h), list(e)
    q0 = q[0] + m * (q[-1] - q[0])
    keep = [i for i, x in enumerate(q) if x > q0]
    return ([q0] + [q[i] for i in keep], [lin(q, h, q0)] + [h[i] for i in keep], [lin(q, e, q0)] + [e[i] for i in keep])


class CompRef(RefChart):
    """curves: [(speed, rates, heads, efficiencies)]; rates m3/h, heads J/kg, efficiencies fractions; m: control margin"""

    def __init__(self, curves, m=0.0):
        sort = [(s, *map(list, zip(*sorted(zip(q, h, e))))) for s, q, h, e in curves]
        super().__init__([(s, *margin(q, h, e, m)) for s, q, h, e in sort])

    @property
    def speeds(self):
        return [c[0] for c in self.curves]

    def qmin(self, n):
        return lin(self.speeds, [c[1][0] for c in self.curves], n)

    def qmax(self, n):
        return lin(self.speeds, [c[1][-1] for c in self.curves], n)

    def lookup(self, n, q):
        """head and efficiency at a speed and a rate inside the chart"""
        for s, qs, hs, es in self.curves:
            if abs(s - n) < 1e-12 * n:
                return lin(qs, hs, q), lin(qs, es, q)
        n = min(max(n, self.speeds[0]), self.speeds[-1])
        i = max([0] + [i for i, s in enumerate(self.speeds[:-1]) if s < n])
        (s0, q0, h0, e0), (s1, q1, h1, e1) = self.curves[i], self.curves[i + 1]
        w = (n - s0) / (s1 - s0)
        lo, hi = self.qmin(n), self.qmax(n)
        f = (q - lo) / (hi - lo)
        a = q0[0] + f * (q0[-1] - q0[0])
        b = q1[0] + f * (q1[-1] - q1[0])
        return (1 - w) * lin(q0, h0, a) + w * lin(q1, h1, b), (1 - w) * lin(q0, e0, a) + w * lin(q1, e1, b)

    # limits for a given head -----------------------------------------------------------------------------------------
    def min_rate_no_choking(self, h):
        """left limit when the head may not be lifted: minimum flow line, below it the lowest speed curve"""
        hs = self.lo[2][::-1] + [self.hi[2][0]]
        qs = self.lo[1][::-1] + [self.hi[1][0]]
        return lin(hs, qs, h)

    def max_rate_no_choking(self, h):
        hs = [self.lo[2][-1]] + self.hi[2][::-1]
        qs = [self.lo[1][-1]] + self.hi[1][::-1]
        return lin(hs, qs, h)


def campbell(p1, t1, z, kappa, m, head, eta):
    """outlet pressure of a polytropic compression"""
    a = (kappa - 1) / (kappa * eta)
    return p1 * (1 + head * a * m / (z * R * t1)) ** (1 / a)


def campbell_head(p1, p2, t1, z, kappa, m, eta):
    a = (kappa - 1) / (kappa * eta)
    return z * R * t1 / m / a * ((p2 / p1) ** a - 1)


def random_chart(rng, n_curves=None, q_design=None, h_design=None, flat_eff=None, wobble=0.05):
    """[(speed, rates, heads, efficiencies)] like a compressor's: heads fall with rate, curves move right and up with speed"""
    n = n_curves or rng.choice([1, 2, 2, 3, 4, 6])
    q_design = q_design or 10 ** rng.uniform(2.5, 4.2)
    h_design = h_design or rng.uniform(30e3, 150e3)
    top = rng.uniform(8000, 13000)
    speeds = [top] if n == 1 else [top * (0.7 + 0.35 * i / (n - 1)) for i in range(n)]
    if rng.random() < 0.5:
        speeds = [float(round(s)) for s in speeds]
    k = rng.choice([2, 3, 4, 6, 9])
    left, right = rng.uniform(0.5, 0.75), rng.uniform(1.15, 1.5)
    drop = rng.uniform(0.15, 0.6)
    eta = rng.uniform(0.6, 0.85)
    flat = rng.random() < 0.3 if flat_eff is None else flat_eff
    out = []
    for i, s in enumerate(speeds):
        f = s / top
        kk = k if rng.random() < 0.7 else rng.choice([2, 3, 5])
        wl, wr, wh = (1 + wobble * rng.uniform(-0.5, 0.5) for _ in range(3))
        q0, q1 = q_design * f * left * wl, q_design * f * right * wr
        qs = [q0] + sorted(rng.uniform(q0 * 1.01, q1 * 0.99) for _ in range(kk - 2)) + [q1]
        qs = [q for j, q in enumerate(qs) if j == 0 or q > qs[j - 1] * (1 + 1e-6)]
        hs = [h_design * f * f * wh * (1.15 - drop * ((q - q0) / (q1 - q0)) ** 1.7 - 0.02 * (q - q0) / (q1 - q0)) for q in qs]
        es = [eta if flat else eta * (1 - 0.25 * ((q / (q_design * f)) - 1) ** 2 * 4) for q in qs]
        es = [min(max(e, 0.3), 1.0) for e in es]
        out.append((s, qs, hs, es))
    # the chart's left and right ends move up with speed
    for a, b in zip(out, out[1:]):
        if not (b[1][0] > a[1][0] and b[1][-1] > a[1][-1] and b[2][0] > a[2][0] and b[2][-1] > a[2][-1]):
            return random_chart(rng, n_curves, q_design, h_design, flat_eff, 0.0)
    return out


def chart_data(curves, m=None, shuffle=None):
    """eCalc's chart from the curves"""
    from libecalc.domain.process.value_objects.chart import ChartCurve
    from libecalc.presentation.yaml.mappers.charts.user_defined_chart_data import UserDefinedChartData

    out = []
    for s, q, h, e in curves:
        pts = list(zip(q, h, e))
        if shuffle:
            shuffle.shuffle(pts)
        out.append(ChartCurve(rate_actual_m3_hour=[p[0] for p in pts], polytropic_head_joule_per_kg=[p[1] for p in pts], efficiency_fraction=[p[2] for p in pts], speed_rpm=s))
    if shuffle:
        shuffle.shuffle(out)
    return UserDefinedChartData(curves=out, control_margin=m)


def finite(*x):
    return all(isinstance(v, (int, float)) and math.isfinite(v) for v in x)
