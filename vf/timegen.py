"""Random time vectors and an independent piecewise-constant calculus on them."""

from __future__ import annotations

import datetime as dt

DAY = dt.timedelta(days=1)


def days(a: dt.datetime, b: dt.datetime) -> float:
    return (b - a).total_seconds() / 86400.0


def random_dates(rng, n=None, style=None, start_year=(2000, 2030)):
    """n+1 increasing whole-day dates."""
    n = n or rng.choice([1, 1, 2, 3, 4, 6, 9])
    style = style or rng.choice(["year", "month", "random", "random", "day", "mixed", "leap"])
    y = rng.randint(*start_year)
    if style == "year":
        return [dt.datetime(y + i, 1, 1) for i in range(n + 1)]
    if style == "month":
        m0 = rng.randrange(12)
        return [dt.datetime(y + (m0 + i) // 12, (m0 + i) % 12 + 1, 1) for i in range(n + 1)]
    if style == "leap":
        y = y - y % 4
        pool = [
            dt.datetime(y, 1, 1), dt.datetime(y, 2, 1), dt.datetime(y, 2, 28), dt.datetime(y, 2, 29),
            dt.datetime(y, 3, 1), dt.datetime(y, 12, 31), dt.datetime(y + 1, 1, 1), dt.datetime(y + 1, 2, 28),
            dt.datetime(y + 1, 3, 1), dt.datetime(y + 1, 12, 31), dt.datetime(y + 2, 1, 1),
        ]
        return sorted(rng.sample(pool, min(n + 1, len(pool))))
    d = dt.datetime(y, rng.randint(1, 12), rng.randint(1, 28))
    out = [d]
    for _ in range(n):
        if style == "day":
            step = rng.choice([1, 1, 2, 3])
        elif style == "mixed":
            step = rng.choice([1, 5, 28, 29, 30, 31, 365, 366, 400])
        else:
            step = rng.randint(1, 500)
        d = d + DAY * step
        out.append(d)
    return out


def grid(start, end, freq, include_start=True, include_end=True):
    """The documented output grid: all year/month/day starts strictly inside, plus the ends when asked for."""
    out = set()
    if include_start:
        out.add(start)
    if include_end:
        out.add(end)
    if freq == "YEAR":
        for y in range(start.year, end.year + 1):
            d = dt.datetime(y, 1, 1)
            if start < d < end:
                out.add(d)
    elif freq == "MONTH":
        y, m = start.year, start.month
        while (y, m) <= (end.year, end.month):
            d = dt.datetime(y, m, 1)
            if start < d < end:
                out.add(d)
            m += 1
            if m == 13:
                y, m = y + 1, 1
    elif freq == "DAY":
        d = start + DAY
        while d < end:
            out.add(d)
            d += DAY
    return sorted(out)


def integral(dates, values, a, b) -> float:
    """Integral over [a, b) (in days) of the step function."""
    total = 0.0
    for s, e, v in zip(dates[:-1], dates[1:], values):
        lo, hi = max(s, a), min(e, b)
        if lo < hi:
            total += v * days(lo, hi)
    return total


def at(dates, values, t):
    """Value in effect at t."""
    for s, e, v in zip(dates[:-1], dates[1:], values):
        if s <= t < e:
            return v
    return None


def overlapping(dates, values, a, b):
    return [v for s, e, v in zip(dates[:-1], dates[1:], values) if max(s, a) < min(e, b)]
