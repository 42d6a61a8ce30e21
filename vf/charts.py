"""Independent reference of performance charts (pump and compressor): piecewise linear curves, scaled distance efficiency."""

from __future__ import annotations

import bisect
import math
import statistics as st


def lin(xs, ys, x):
    """Linear interpolation with constant ends; xs increasing."""
    if x <= xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    i = bisect.bisect_right(xs, x) - 1
    w = (x - xs[i]) / (xs[i + 1] - xs[i])
    return ys[i] + w * (ys[i + 1] - ys[i])


def project(px, py, pts):
    """Closest point on a polyline -> (signed distance, x); positive when the curve is above the point."""
    best = None
    for (x0, y0), (x1, y1) in zip(pts, pts[1:]) if len(pts) > 1 else [(pts[0], pts[0])]:
        dx, dy = x1 - x0, y1 - y0
        L = dx * dx + dy * dy
        w = 0.0 if L == 0 else max(0.0, min(1.0, ((px - x0) * dx + (py - y0) * dy) / L))
        cx, cy = x0 + w * dx, y0 + w * dy
        d = math.hypot(px - cx, py - cy)
        if best is None or d < best[0]:
            best = (d, cx, cy)
    d, cx, cy = best
    return (-d if cy < py else d), cx, d > 1e-9 and abs(cy - py) < 1e-9 * max(1.0, d)


class RefChart:
    """curves: [(speed, rates, heads, efficiencies)] sorted by speed; rates increasing."""

    def __init__(self, curves):
        self.curves = sorted(([s, *map(list, zip(*sorted(zip(q, h, e))))] for s, q, h, e in curves), key=lambda c: c[0])
        self.lo, self.hi = self.curves[0], self.curves[-1]
        qs = [x for c in self.curves for x in c[1]]
        hs = [x for c in self.curves for x in c[2]]
        self.mq, self.mh = st.fmean(qs), st.fmean(hs)
        self.sq, self.sh = st.pstdev(qs), st.pstdev(hs)
        if self.sq == 0 or self.sh == 0:
            self.sq = self.sh = 1.0
        self.tie = False
        self.perfect = all(e == 1 for c in self.curves for e in c[3])

    # limits -----------------------------------------------------------------------------------------------------
    def min_rate_at_head(self, h):
        h0, q0, h1, q1 = self.lo[2][0], self.lo[1][0], self.hi[2][0], self.hi[1][0]
        if h1 == h0:
            return q0 if h < h0 else q1
        return lin([h0, h1], [q0, q1], h)

    def min_head_at_rate(self, q):
        qs, hs = list(self.lo[1]), list(self.lo[2])
        if self.hi[1][-1] > qs[-1]:
            qs.append(self.hi[1][-1])
            hs.append(self.hi[2][-1])
        return lin(qs, hs, q)

    def max_head_at_rate(self, q):
        return lin(self.hi[1], self.hi[2], q)

    def max_rate_at_head(self, h):
        return lin(self.hi[2][::-1], self.hi[1][::-1], h)

    @property
    def max_rate(self):
        return max(c[1][-1] for c in self.curves)

    def efficiency(self, q, h):
        if self.perfect:
            return 1.0
        x, y = (q - self.mq) / self.sq, (h - self.mh) / self.sh
        above = below = None
        self.tie = False  # whether a curve is above or below the point is decided by rounding alone
        for s, qs, hs, es in self.curves:
            pts = [((a - self.mq) / self.sq, (b - self.mh) / self.sh) for a, b in zip(qs, hs)]
            d, cx, tie = project(x, y, pts)
            self.tie = self.tie or tie
            e = lin([p[0] for p in pts], es, cx)
            if d >= 0:
                if above is None or d < above[0]:
                    above = (d, e)
            elif below is None or d > below[0]:
                below = (d, e)
        if above is None:
            return below[1]
        if below is None:
            return above[1]
        a = above[0] / (above[0] - below[0])
        return a * below[1] + (1 - a) * above[1]

    # pump -------------------------------------------------------------------------------------------------------
    def pump(self, rate_day, ps, pd, rho, margin=0.0):
        """-> dict(power, valid, head, edge, q, reason); edge = relative distance to the nearest decision boundary"""
        if rate_day <= 0:
            return dict(power=0.0, valid=True, head=0.0, edge=1.0, q=0.0, over_head=False, over_rate=False)
        q = rate_day / 24
        head = (pd - ps) * 1e5 / rho
        qmin = self.min_rate_at_head(head)
        edge = abs(q - self.max_rate) / self.max_rate
        if len(self.curves) > 1:
            edge = min(edge, abs(q - qmin) / qmin)
        q = max(q, qmin)
        hmin, hmax = self.min_head_at_rate(q), self.max_head_at_rate(q)
        h = max(head, hmin)
        edge = min(edge, abs(head - hmax) / hmax, abs(head - hmax - margin) / hmax)
        if margin and hmax < h <= hmax + margin:
            h = hmax
        over_head, over_rate = h > hmax * (1 + 1e-12), q > self.max_rate * (1 + 1e-12)
        power = rho * h * q / 3600 / 1e6 / self.efficiency(q, h)
        if self.tie:
            edge = 0.0
        return dict(power=power, valid=not (over_head or over_rate), head=head, edge=edge, q=q, h=h, over_head=over_head, over_rate=over_rate)
