"""Random eCalc models together with an independent reference of what they mean.

Everything in the reference is a function of a date t: eCalc evaluates each period on its own, with the inputs in effect
at the start of the period, so the expected result of a period is the reference at its start. The time vector follows from
the dates used anywhere in the model.
"""

from __future__ import annotations

import bisect
import datetime as dt
import math

from vf import lab
from vf import timegen as tg
from vf.charts import RefChart

D = dt.datetime
NAN = float("nan")


class Ex:
    """An expression: how it is written and what it is worth at t."""

    def __init__(self, yaml, f):
        self.yaml, self.f = yaml, f

    def __call__(self, t):
        return self.f(t)


class Temporal:
    """Plain value or {date: value}; active(t) is the value in effect, None before the first date."""

    def __init__(self, items, dated):
        self.items, self.dated = items, dated

    @property
    def yaml(self):
        if not self.dated:
            return self.items[0][1].yaml
        return {d: v.yaml for d, v in self.items}

    def active(self, t):
        if not self.dated:
            return self.items[0][1]
        out = None
        for d, v in self.items:
            if d <= t:
                out = v
        return out

    @property
    def first(self):
        return self.items[0][0] if self.dated else None


def interp(xs, ys, x, left=None, right=None):
    if math.isnan(x):
        return NAN
    if x < xs[0]:
        return left
    if x > xs[-1]:
        return right
    i = bisect.bisect_right(xs, x) - 1
    if i >= len(xs) - 1:
        return ys[-1]
    w = (x - xs[i]) / (xs[i + 1] - xs[i])
    return ys[i] + w * (ys[i + 1] - ys[i])


class U:
    """Energy usage of a consumer model at one time: stream-day energy usage, power (or None), valid."""

    __slots__ = ("energy", "power", "valid", "extra")

    def __init__(self, energy, power, valid, **extra):
        self.energy, self.power, self.valid, self.extra = energy, power, valid, extra


def nan(x):
    return isinstance(x, float) and math.isnan(x)


class Gen:
    def __init__(self, rng, n=None, dated=0.25, zero=0.15, expr=None, style=None):
        self.rng = rng
        self.p_dated, self.p_zero = dated, zero
        self.p_expr = expr if expr is not None else 0.7
        grid = tg.random_dates(rng, n or rng.choice([2, 3, 4, 6, 8]), style=style)
        if len(grid) < 3:
            grid.append(grid[-1] + tg.DAY * rng.randint(2, 400))
        self.grid = grid
        self.start, self.end = grid[0], grid[-1]
        inner = grid[1:-1]
        self.file_dates = [self.start] + sorted(rng.sample(inner, rng.randint(0, len(inner))))
        self.used = {*self.file_dates, self.start, self.end}
        self.cols: dict[str, list[float]] = {}
        self.variables: dict[str, object] = {}
        self.files: dict[str, str] = {}
        self.facility: list[dict] = []
        self.models: list[dict] = []
        self.fuel_types: list[dict] = []
        self.fuels: dict[str, dict[str, Ex]] = {}
        self.installations: list[dict] = []
        self.n = 0
        # set by the reference when an operating point lies on a decision boundary (within rounding): the case is set aside
        self.ambiguous = False
        # set by the reference when an operating point is evaluated with a documented numerical tolerance
        self.loose = False

    def near(self, a, b, rel=1e-9):
        if abs(a - b) <= rel * max(abs(a), abs(b)):
            self.ambiguous = True

    # ---------------------------------------------------------------- building blocks
    def uid(self, prefix):
        self.n += 1
        return f"{prefix}{self.n}"

    def num(self, lo, hi):
        r = self.rng
        v = r.uniform(lo, hi)
        if r.random() < 0.5:
            v = float(f"{v:.3g}")
            v = min(max(v, lo), hi)
        return v

    def pick(self, lo, hi, marks=()):
        """A number in [lo, hi], or now and then one just beside a value where the behaviour changes."""
        r = self.rng
        if marks and r.random() < 0.3:
            m = r.choice(marks)
            return m + r.choice([-1, 1]) * r.choice([2e-3, 4e-3, 0.01]) * abs(m)
        return self.num(lo, hi)

    def col(self, lo, hi, zero=0.0, step=None, marks=()):
        name = self.uid("C")
        vals = [0.0 if self.rng.random() < zero else self.pick(lo, hi, marks) for _ in self.file_dates]
        if step:
            vals = [float(self.rng.choice(step)) for _ in self.file_dates]
        self.cols[name] = vals
        return name

    def colval(self, name):
        vals = self.cols[name]

        def f(t):
            i = bisect.bisect_right(self.file_dates, t) - 1
            # DEFAULT series: zero before the first date; after the last date zero unless t is that date
            if i < 0:
                return 0.0
            if t > self.file_dates[-1]:
                return 0.0 if not self.extrapolate else vals[-1]
            return vals[i]

        return f

    p_turbine = 0.5
    p_over = 0.25  # chance that a consumer is driven beyond its capacity
    p_hard = 0.15  # chance that a regularity may be 0
    p_cross, sys_n, genset_n = 0.5, (1, 2, 2, 3), (1, 1, 2, 3)
    extrapolate = True  # the file is MISCELLANEOUS, RIGHT, EXTRAPOLATION: true

    def ex(self, lo, hi, zero=None, const=None, marks=()):
        """A random expression with value in [lo, hi] (or 0 when zero > 0, or near one of the marks)."""
        r = self.rng
        zero = self.p_zero if zero is None else zero
        if const or r.random() > self.p_expr:
            v = 0.0 if r.random() < zero else self.pick(lo, hi, marks)
            if v == int(v) and r.random() < 0.5:
                v = int(v)
            return Ex(str(v) if r.random() < 0.3 else v, lambda t: float(v))
        kind = r.choice(["col", "col", "scaled", "var", "sum"])
        if kind == "col":
            c = self.col(lo, hi, zero, marks=marks)
            return Ex(f"SIM;{c}", self.colval(c))
        if kind == "scaled":
            k = r.choice([2, 0.5, 10, 4])
            c = self.col(lo / k, hi / k, zero)
            g = self.colval(c)
            return Ex(f"SIM;{c} {{*}} {k}", lambda t: g(t) * k)
        if kind == "sum":
            w = r.uniform(0.2, 0.8)
            c1, c2 = self.col(lo * w, hi * w, 0), self.col(lo * (1 - w), hi * (1 - w), 0)
            g1, g2 = self.colval(c1), self.colval(c2)
            return Ex(f"SIM;{c1} {{+}} SIM;{c2}", lambda t: g1(t) + g2(t))
        return self.variable(lo, hi, zero)

    def variable(self, lo, hi, zero):
        """A reference to a (possibly dated, possibly chained) variable."""
        r = self.rng
        v = self.uid("v")

        def value():
            k = r.random()
            if k < 0.25:
                x = self.num(lo, hi)
                return Ex({"VALUE": x if r.random() < 0.5 else str(x)}, lambda t: x)
            c = self.col(lo, hi, zero)
            g = self.colval(c)
            if k < 0.45:  # through another variable, defined before or after this one
                w = self.uid("w")
                self.variables[w] = {"VALUE": f"SIM;{c} {{*}} 2"}
                return Ex({"VALUE": f"$var.{w} {{/}} 2"}, lambda t: g(t) * 2 / 2)
            return Ex({"VALUE": f"SIM;{c}"}, g)

        tm = self.temporal(value, self.p_dated, cover=not zero or r.random() < 0.7)
        items = list(tm.items)
        if tm.dated:
            if r.random() < 0.3:
                r.shuffle(items)  # the order in the file does not matter
            self.variables[v] = {d: x.yaml for d, x in items}
        else:
            self.variables[v] = items[0][1].yaml
        if r.random() < 0.3:  # definition order does not matter
            rest = list(self.variables.items())
            r.shuffle(rest)
            self.variables = dict(rest)

        def f(t):
            a = tm.active(t)
            return 0.0 if a is None else a(t)

        return Ex(f"$var.{v}" if r.random() < 0.7 else f"$var.{v} {{+}} 0", f)

    def cond(self):
        """(yaml dict, f(t) -> bool)"""
        r = self.rng
        if r.random() < 0.55:
            return {}, lambda t: True

        def one():
            k = r.random()
            if k < 0.2:
                v = r.choice([0, 1, 1, "0", "1"])
                return v, lambda t: float(v) != 0
            c = self.col(0, 1, 0, step=[0, 1, 1, 2])
            g = self.colval(c)
            if k < 0.5:
                return f"SIM;{c}", lambda t: g(t) != 0
            if k < 0.75:
                return f"SIM;{c} > 0.5", lambda t: g(t) > 0.5
            return f"SIM;{c} == 1", lambda t: g(t) == 1

        if r.random() < 0.6:
            y, f = one()
            return {"CONDITION": y}, f
        parts = [one() for _ in range(r.choice([1, 2, 3]))]
        return {"CONDITIONS": [y for y, _ in parts]}, lambda t: all(f(t) for _, f in parts)

    def key_dates(self, k, cover=True):
        """k increasing dates for date keys; the first one at or before START when cover."""
        r = self.rng
        day = tg.DAY
        pool = sorted({*self.grid[1:-1], *(d + day * r.randint(1, 20) for d in self.grid[:-1])} - {self.start})
        pool = [d for d in pool if self.start < d < self.end]
        if cover:
            first = [self.start if r.random() < 0.6 else self.start - day * r.randint(1, 400)]
            rest = sorted(r.sample(pool, min(k - 1, len(pool))))
        else:
            first = []
            rest = sorted(r.sample(pool, min(k, len(pool))))
        out = first + rest
        if r.random() < 0.1:
            out.append(self.end + day * r.randint(0, 30))
        if r.random() < 0.1 and cover and out[0] > self.start - 2 * day:
            out.insert(0, self.start - day * 600)
        self.used.update(out)
        return out

    def temporal(self, make, p=None, cover=True, k=None):
        """make() -> object with .yaml. Dated with probability p."""
        r = self.rng
        if r.random() >= (self.p_dated if p is None else p):
            return Temporal([(None, make())], False)
        dates = self.key_dates(k or r.choice([1, 2, 2, 3]), cover)
        if not dates:
            return Temporal([(None, make())], False)
        return Temporal([(d, make()) for d in dates], True)

    def tv(self):
        return sorted(d for d in self.used if self.start <= d <= self.end)

    # ---------------------------------------------------------------- fuels
    EMISSIONS = ["co2", "ch4", "nox", "nmvoc"]

    def fuel(self, names=None):
        r = self.rng
        name = self.uid("fuel_")
        names = names or r.sample(self.EMISSIONS, r.choice([1, 1, 2, 3]))
        em = {e: self.ex(0.001, 5, zero=0.05) for e in names}
        # emission names are case-insensitive
        self.fuel_types.append(
            {
                "NAME": name,
                **({"CATEGORY": r.choice(["FUEL-GAS", "DIESEL"])} if r.random() < 0.5 else {}),
                "EMISSIONS": [{"NAME": e.upper() if r.random() < 0.3 else e, "FACTOR": x.yaml} for e, x in em.items()],
            }
        )
        self.fuels[name] = em
        o = Ex(name, None)
        o.em = em
        return o

    def fuel_ref(self, p=None):
        r = self.rng

        def make():
            if self.fuels and r.random() < 0.6:
                name = r.choice(list(self.fuels))
                o = Ex(name, None)
                o.em = self.fuels[name]
                return o
            return self.fuel()

        return self.temporal(make, p)

    # ---------------------------------------------------------------- energy usage models
    # each returns an object with .yaml and .u(t, regularity) -> U
    class Mod:
        def __init__(self, yaml, u, kind):
            self.yaml, self.u, self.kind = yaml, u, kind

    def loss(self, p=0.3):
        r = self.rng
        if r.random() > p:
            return {}, lambda t: 0.0
        e = self.ex(0.0, 0.4, zero=0.2)
        return {"POWERLOSSFACTOR": e.yaml}, e.f

    @staticmethod
    def stream(rate, calendar, reg):
        if not calendar:
            return rate
        return rate / reg if reg != 0 else 0.0

    def direct(self, fuel: bool):
        r = self.rng
        y: dict = {"TYPE": "DIRECT"}
        e = self.ex(1, 1e5) if fuel else self.ex(r.choice([-2, -40]) if r.random() < 0.2 else 0.1, 40)
        y["FUELRATE" if fuel else "LOAD"] = e.yaml
        cy, cf = self.cond()
        y.update(cy)
        ly, lf = self.loss(0.25)
        y.update(ly)
        cal = False
        if r.random() < 0.5:
            y["CONSUMPTION_RATE_TYPE"] = r.choice(["STREAM_DAY", "CALENDAR_DAY"])
            cal = y["CONSUMPTION_RATE_TYPE"] == "CALENDAR_DAY"

        def u(t, reg):
            raw = self.stream(e(t) if cf(t) else 0.0, cal, reg)
            v = raw / (1 - lf(t))
            return U(v, None if fuel else v, True, raw=(raw, None if fuel else raw))

        return self.Mod(y, u, "direct")

    def csv(self, headers, rows, prefix="f"):
        fn = self.uid(prefix) + ".csv"
        self.files[fn] = lab.csv_text(headers, rows)
        return fn

    def tabulated(self, fuel: bool):
        r = self.rng
        name = self.uid("tab")
        out = "FUEL" if fuel else "POWER"
        lossy, lf = self.loss(0.25)
        cy, cf = self.cond()
        nv = r.choice([1, 1, 2, 3])
        varnames = r.sample(["RATE", "WATER", "TEMP", "rate_x"], nv)
        if nv == 1:
            k = r.choice([2, 3, 5])
            x0 = r.choice([0.0, 0.0, self.num(1, 50)])
            xs = sorted({x0, *(x0 + self.num(1, 1000) for _ in range(k))})
            ys = [self.num(0, 100) for _ in xs]
            rows = list(zip(xs, ys))
            r.shuffle(rows)
            cols = [varnames[0], out]
            if r.random() < 0.4:
                cols.reverse()
                rows = [(b, a) for a, b in rows]
            fn = self.csv(cols, rows)
            rng_ = [(xs[0], xs[-1])]

            def func(v):
                return interp(xs, ys, v[0], NAN, NAN)
        else:
            lo = [r.choice([0.0, self.num(0, 10)]) for _ in varnames]
            hi = [a + self.num(5, 500) for a in lo]
            coef = [self.num(0.01, 2) for _ in varnames]
            c0 = self.num(0, 20)
            import itertools

            rows = [list(p) + [c0 + sum(c * x for c, x in zip(coef, p))] for p in itertools.product(*zip(lo, hi))]
            for _ in range(r.choice([0, 3])):
                p = [self.num(a, b) for a, b in zip(lo, hi)]
                rows.append(p + [c0 + sum(c * x for c, x in zip(coef, p))])
            r.shuffle(rows)
            fn = self.csv(varnames + [out], rows)
            rng_ = list(zip(lo, hi))

            def func(v):
                if any(nan(x) or x < a - 1e-12 or x > b + 1e-12 for x, a, b in zip(v, lo, hi)):
                    return NAN
                return c0 + sum(c * x for c, x in zip(coef, v))

        self.facility.append({"NAME": name, "TYPE": "TABULAR", "FILE": fn})
        outside = r.random() < self.p_over
        es = []
        for a, b in rng_:
            # stay inside after the calendar-day conversion unless asked for
            e = self.ex(a + 1e-6 * (b - a), (b if outside else (a + b) / 2), zero=0.0 if a > 0 and not outside else 0.1)
            es.append(e)
        order = list(range(nv))
        r.shuffle(order)
        y = {
            "TYPE": "TABULATED",
            "ENERGYFUNCTION": name,
            "VARIABLES": [{"NAME": varnames[i], "EXPRESSION": es[i].yaml} for i in order],
            **cy,
            **lossy,
        }

        def u(t, reg):
            v = []
            for nm, e in zip(varnames, es):
                x = e(t) if cf(t) else 0.0
                v.append(self.stream(x, True, reg) if nm.lower() == "rate" else x)
            q = func(v) / (1 - lf(t))
            raw = func(v)
            return U(q, None if fuel else q, not nan(q), raw=(raw, None if fuel else raw))

        return self.Mod(y, u, "tabulated")

    def sampled_table(self, fuel: bool, both=None, dims=None):
        """A sampled compressor: -> name, func(rate, ps, pd) -> (energy, power, valid), max_rate(ps, pd), box"""
        r = self.rng
        name = self.uid("comp")
        dims = dims or r.choice([1, 1, 3])
        both = (r.random() < 0.4) if both is None else both
        outs = (["FUEL", "POWER"] if both else ["FUEL"]) if fuel else ["POWER"]
        if dims == 1:
            k = r.choice([2, 3, 5])
            x0 = r.choice([0.0, self.num(1e3, 1e4)])
            xs = sorted({x0, *(x0 + self.num(1e4, 1e6) for _ in range(k))})
            ys = sorted(self.num(1, 40) for _ in xs)
            ps = [y * 0.7 for y in ys]
            rows = [[x, y] + ([p] if len(outs) == 2 else []) for x, y, p in zip(xs, ys, ps)]
            r.shuffle(rows)
            fn = self.csv(["RATE"] + outs, rows)
            box = dict(rate=(xs[0], xs[-1]), ps=(10, 40), pd=(60, 120))

            def func(q, s, d):
                if q <= 0:
                    return (0.0, 0.0, True)
                self.near(q, xs[-1], 1e-12) if q > xs[-1] else None
                e = interp(xs, ys, max(q, xs[0]), NAN, NAN)
                if nan(e):
                    return (NAN, NAN, False)
                # power follows from the energy usage through the sampled pairs
                return (e, e if not fuel else e * 0.7, True)

            def maxrate(s, d):
                return xs[-1]
        else:
            small = 1e-5 if r.random() < 0.1 else 1.0  # a table in other units: small numbers
            rate = (self.num(1e4, 1e5) * small, self.num(5e5, 2e6) * small)
            ps = (self.num(10, 20), self.num(25, 50))
            pd = (self.num(60, 80), self.num(100, 200))
            box = dict(rate=rate, ps=ps, pd=pd)
            names = ["RATE", "SUCTION_PRESSURE", "DISCHARGE_PRESSURE"]
            # variables that vary in the table; the others are absent from it or have the same value throughout
            vary = [0, 1, 2] if r.random() < 0.6 else sorted(r.sample([0, 1, 2], r.choice([1, 2, 2])))
            const = {i: (self.num(5e5, 2e6) * small, self.num(10, 20), self.num(100, 200))[i] for i in range(3) if i not in vary and r.random() < 0.5}
            for i, key in enumerate(("rate", "ps", "pd")):
                if i in const:
                    k = const[i]
                    box[key] = ((k * 0.2, k), (k, k * 2), (max(60, k * 0.6), k))[i]
            coef = (self.num(1e-6, 1e-5) / small, -self.num(0.01, 0.1), self.num(0.01, 0.1))
            c0 = self.num(6, 20)
            rngs = [rate, ps, pd]
            present = sorted([*vary, *const])

            def g(v):
                return c0 + sum(coef[i] * v[i] for i in vary)

            pts = [{}]
            for i in vary:
                pts = [{**x, i: y} for x in pts for y in rngs[i]]
            seen = {i: set(rngs[i]) for i in vary}
            for _ in range(r.choice([0, 2])):
                x = {i: self.num(*rngs[i]) for i in vary}
                if len(vary) > 1 or not seen[vary[0]] & {x[vary[0]]}:
                    pts.append(x)
                    seen[vary[0]].add(x[vary[0]])
            rows = []
            for x in pts:
                e = g(x)
                rows.append([{**x, **const}[i] for i in present] + [e] + ([e * 0.7] if len(outs) == 2 else []))
            r.shuffle(rows)
            fn = self.csv([names[i] for i in present] + outs, rows)
            full = len(vary) == 3

            def func(q, s, d):
                if q <= 0:
                    return (0.0, 0.0, True)
                v = (q, s, d)
                nans = False
                for i, k in const.items():  # at most the sampled rate and discharge pressure, at least the suction pressure
                    self.near(v[i], k, 1e-6)
                    nans = nans or (v[i] < k if i == 1 else v[i] > k)
                if 1 in vary:
                    self.near(s, ps[0], 1e-6)
                    nans = nans or s < ps[0]
                if 2 in vary:
                    self.near(d, pd[1], 1e-6)
                    nans = nans or d > pd[1]
                if 0 in vary:
                    if min(abs(q - rate[1]), abs(q - rate[0])) <= 1.01e-4 * (rate[1] - rate[0]):
                        self.loose = True  # taken as the minimum or maximum rate itself
                    if rate[1] * (1 + 1e-12) < q < rate[1] * (1 + 1e-3):
                        self.ambiguous = True  # a small overshoot of the sampled maximum is tolerated
                    nans = nans or q > rate[1] * (1 + 1e-12)
                if nans:
                    return (NAN, NAN, False)
                e = g((max(q, rate[0]), min(s, ps[1]), max(d, pd[0])))
                return (e, e if not fuel else e * 0.7, True)

            def maxrate(s, d):
                if any((s < k if i == 1 else d > k) for i, k in const.items() if i):
                    self.ambiguous = True
                if (1 in vary and s < ps[0]) or (2 in vary and d > pd[1]):
                    return 0.0
                return rate[1]

            if 0 not in vary:
                maxrate = None

        self.facility.append({"NAME": name, "TYPE": "COMPRESSOR_TABULAR", "FILE": fn})
        haspower = (not fuel) or len(outs) == 2
        return name, func, haspower, box, dims, maxrate

    def turbine(self, pmax):
        r = self.rng
        name = self.uid("turb")
        loads = [0.0] + sorted(self.num(0.1, pmax) for _ in range(r.choice([1, 2, 4]))) + [pmax]
        loads = sorted(set(loads))
        effs = [0.0] + [self.num(0.1, 0.5) for _ in loads[1:]]
        if r.random() < 0.3:
            effs[0] = self.num(0.05, 0.1)
        lhv = self.num(30, 45)
        y = {"NAME": name, "TYPE": "TURBINE", "LOWER_HEATING_VALUE": lhv, "TURBINE_LOADS": loads, "TURBINE_EFFICIENCIES": effs}
        const = fac = None
        if r.random() < 0.4:
            const = y["POWER_ADJUSTMENT_CONSTANT"] = self.num(0.1, 2) * r.choice([1, 1, -1])
        if r.random() < 0.3:
            fac = y["POWER_ADJUSTMENT_FACTOR"] = self.num(0.8, 1.2)
        self.models.append(y)
        const, fac = const or 0.0, fac or 1.0

        def func(load):
            """-> fuel, adjusted load, efficiency, exceeds"""
            if nan(load):
                return NAN, NAN, NAN, False
            x = (load + const) / fac if load > 0 else load
            e = interp(loads, effs, x, 0.0, effs[-1])
            f = 0.0 if e == 0 else x * 86400 / lhv / e
            return f, x, e, x > loads[-1] + 1e-12

        return name, func

    def with_turbine(self):
        """sampled power compressor + turbine -> fuel"""
        r = self.rng
        cname, cf, _, box, dims, _mr = self.sampled_table(False)
        tname, tf = self.turbine(r.choice([60.0, 30.0, 20.0]))
        name = self.uid("cwt")
        y = {"NAME": name, "TYPE": "COMPRESSOR_WITH_TURBINE", "COMPRESSOR_MODEL": cname, "TURBINE_MODEL": tname}
        const, fac = 0.0, 1.0
        if r.random() < 0.4:
            const = y["POWER_ADJUSTMENT_CONSTANT"] = self.num(0.1, 2) * r.choice([1, 1, -1])
        if r.random() < 0.3:
            fac = y["POWER_ADJUSTMENT_FACTOR"] = self.num(0.8, 1.2)
        self.models.append(y)

        def func(q, s, d):
            e, p, ok = cf(q, s, d)
            load = p * fac + const if p > 0 else p
            fu, x, eff, exc = tf(load)
            return fu, x, ok and not exc, dict(fuel=fu, load=x, eff=eff, exceeds=exc)

        return name, func, True, box, dims

    def compressor(self, fuel: bool, kind=None):
        r = self.rng
        kind = kind or ("turbine" if fuel and r.random() < self.p_turbine else "sampled")
        if kind == "turbine":
            name, func, haspower, box, dims = self.with_turbine()
        else:
            name, func, haspower, box, dims, _ = self.sampled_table(fuel)
        cy, cf = self.cond()
        ly, lf = self.loss(0.25)
        over = r.random() < self.p_over
        m = {k: v if over else () for k, v in box.items()}
        q = self.ex(box["rate"][0] * 0.3, box["rate"][1] * (1.2 if over else 0.5), marks=m["rate"])
        s = self.ex(box["ps"][0] * (0.9 if over else 1), box["ps"][1] * 1.1, zero=0, marks=m["ps"])
        d = self.ex(max(box["pd"][0] * 0.9, box["ps"][1] * 1.1), box["pd"][1] * (1.1 if over else 1), zero=0, marks=m["pd"])
        y = {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": name, "RATE": q.yaml}
        y["SUCTION_PRESSURE"], y["DISCHARGE_PRESSURE"] = s.yaml, d.yaml
        y.update(cy)
        y.update(ly)

        def u(t, reg):
            rate = self.stream(q(t) if cf(t) else 0.0, True, reg)
            e, p, ok, *more = func(rate, s(t), d(t))
            k = 1 - lf(t)
            return U(
                e / k, p / k if haspower else None, ok, rate=rate, ps=s(t), pd=d(t), raw=(e, p if haspower else None),
                turbine=more[0] if more else None,
            )

        return self.Mod(y, u, "compressor")

    def pump_chart(self, margin=None, variable=None, perfect=None):
        """-> name, func(rate, ps, pd, rho) -> (power, valid, head, edge), maxrate(ps, pd, rho), box, chart, margin [J/kg]"""
        r = self.rng
        name = self.uid("pump")
        variable = (r.random() < 0.4) if variable is None else variable
        unit = r.choice(["M", "KJ_PER_KG", "JOULE_PER_KG"])
        wr = {"M": lambda h: h / 9.81, "KJ_PER_KG": lambda h: h / 1000, "JOULE_PER_KG": lambda h: h}[unit]
        effunit = r.choice(["PERCENTAGE", "FRACTION"])
        perfect = (r.random() < 0.25) if perfect is None else perfect
        curves = []
        q0, h0 = self.num(50, 200), self.num(20000, 40000)
        speeds = [1.0] if not variable else sorted({float(r.randint(1000, 4000)) for _ in range(r.choice([2, 3, 4]))})
        # curves that cross have no envelope to speak of
        speeds = [x for i, x in enumerate(speeds) if i == 0 or x >= 1.12 * speeds[i - 1]]
        if variable and len(speeds) < 2:
            speeds = [1500.0, 3000.0]
        k = r.choice([2, 3, 5])
        dq = [self.num(50, 300) for _ in range(k)]
        dh = [self.num(300, 2500) for _ in range(k)]
        for sp in speeds:
            f = sp / speeds[-1]
            qs, hs = [q0 * f], [h0 * f * f]
            for a, b in zip(dq, dh):
                qs.append(qs[-1] + a * f * r.uniform(0.95, 1.05))
                hs.append(hs[-1] - b * f * f)
            es = [1.0 if perfect else self.num(0.4, 0.9) for _ in qs]
            curves.append((sp, qs, hs, es))
        rows = [
            [sp, q, wr(h), e if effunit == "FRACTION" else e * 100] for sp, qs, hs, es in curves for q, h, e in zip(qs, hs, es)
        ]
        y = {
            "NAME": name, "TYPE": "PUMP_CHART_VARIABLE_SPEED" if variable else "PUMP_CHART_SINGLE_SPEED",
            "UNITS": {"HEAD": unit, "RATE": "AM3_PER_HOUR", "EFFICIENCY": effunit},
        }
        if variable or r.random() < 0.5:
            if r.random() < 0.5:
                r.shuffle(rows)
            y["FILE"] = self.csv(["SPEED", "RATE", "HEAD", "EFFICIENCY"], rows)
        else:
            y["FILE"] = self.csv(["RATE", "HEAD", "EFFICIENCY"], [x[1:] for x in rows])
        m = 0.0
        if margin or (margin is None and r.random() < 0.3):
            m = y["HEAD_MARGIN"] = self.num(1, 60)  # always in metres
        self.facility.append(y)
        # what is written is what counts
        back = {"M": lambda h: h * 9.81, "KJ_PER_KG": lambda h: h * 1000, "JOULE_PER_KG": lambda h: h}[unit]
        chart = RefChart([(sp, qs, [back(wr(h)) for h in hs], es) for sp, qs, hs, es in curves])

        def func(rate, ps, pd, rho):
            x = chart.pump(rate, ps, pd, rho, m * 9.81)
            if x["edge"] < 1e-9:
                self.ambiguous = True
            return x["power"], x["valid"], x["head"], x["edge"]

        def maxrate(ps, pd, rho):
            return 24 * chart.max_rate_at_head((pd - ps) * 1e5 / rho)

        hi = chart.hi
        return name, func, maxrate, dict(rate=(hi[1][0] * 24, hi[1][-1] * 24), head=(hi[2][-1], hi[2][0])), chart, m * 9.81

    def pump(self):
        r = self.rng
        over = r.random() < self.p_over
        # what a pump would use beyond its maximum rate is well defined only without an efficiency curve
        name, func, _, box, _c, _m = self.pump_chart(perfect=True if over and r.random() < 0.8 else None)
        cy, cf = self.cond()
        ly, lf = self.loss(0.25)
        q = self.ex(box["rate"][0] * 0.5, box["rate"][1] * (1.2 if over else 0.6))
        rho = self.ex(800, 1100, zero=0)
        s = self.ex(1, 20, zero=0)
        hi = box["head"][0] * 800 / 1e5
        d = self.ex(21, max(22.0, hi * (1.3 if r.random() < 0.3 else 0.9)), zero=0)
        y = {
            "TYPE": "PUMP", "ENERGYFUNCTION": name, "RATE": q.yaml, "SUCTION_PRESSURE": s.yaml,
            "DISCHARGE_PRESSURE": d.yaml, "FLUID_DENSITY": rho.yaml, **cy, **ly,
        }

        def u(t, reg):
            rate = self.stream(q(t) if cf(t) else 0.0, True, reg)
            p, ok, head, edge = func(rate, s(t), d(t), rho(t))
            k = 1 - lf(t)
            return U(p / k, p / k, ok, head=head, edge=edge, rate=rate, ps=s(t), pd=d(t), raw=(p, p))

        return self.Mod(y, u, "pump")

    # systems --------------------------------------------------------------------------------------------------------
    def compressor_system(self, fuel: bool):
        comps = []
        r = self.rng
        n = r.choice(self.sys_n)
        both = r.random() < 0.5
        dims = r.choice([1, 1, 3])
        shared = None
        for _ in range(n):
            if shared and r.random() < 0.3:
                comps.append(shared)
                continue
            if fuel and r.random() < min(0.7, self.p_turbine * 0.6):
                name, f, haspower, box, d = self.with_turbine()
                c = dict(ref=name, f=f, power=haspower, box=box, max=None)
            else:
                name, f, haspower, box, d, mx = self.sampled_table(fuel, both=both, dims=dims)
                c = dict(ref=name, f=f, power=haspower, box=box, max=mx)
            comps.append(c)
            shared = c
        return self._system(comps, False)

    def pump_system(self):
        r = self.rng
        comps = []
        for _ in range(r.choice(self.sys_n)):
            if comps and r.random() < 0.3:
                comps.append(comps[-1])
                continue
            name, f, mx, box, chart, m = self.pump_chart(margin=True, perfect=True if r.random() < 0.6 else None)
            comps.append(dict(ref=name, f=f, power=True, box=box, max=mx, chart=chart))
        return self._system(comps, True)

    def _system(self, comps, pump):
        r = self.rng
        n = len(comps)
        names = [self.uid("m") for _ in comps]
        y: dict = {"TYPE": "PUMP_SYSTEM" if pump else "COMPRESSOR_SYSTEM"}
        y["PUMPS" if pump else "COMPRESSORS"] = [
            {"NAME": nm, ("CHART" if pump else "COMPRESSOR_MODEL"): c["ref"]} for nm, c in zip(names, comps)
        ]
        cy, cf = self.cond()
        ly, lf = self.loss(0.3)
        y.update(cy)
        y.update(ly)
        scale = max(c["box"]["rate"][1] for c in comps)
        total = None
        if r.random() < 0.5:
            total = self.ex(scale * 0.1, scale * n * r.choice([0.6, 1.1]))
            y["TOTAL_SYSTEM_RATE"] = total.yaml
        dens = None
        if pump and r.random() < 0.7:
            dens = self.ex(800, 1100, zero=0)
            y["FLUID_DENSITY"] = dens.yaml
        box = comps[0]["box"]
        settings = []
        y["OPERATIONAL_SETTINGS"] = []
        for _i in range(r.choice([1, 2, 2, 3])):
            sy: dict = {}
            if total is not None:
                w = [r.choice([0.0, 0.25, 0.5, 1.0, r.random()]) for _ in comps]
                tot = sum(w) or 1.0
                fr = [round(x / tot, 6) for x in w] if r.random() < 0.7 else [round(x, 3) for x in w]
                if sum(fr) > 1:
                    fr[fr.index(max(fr))] -= sum(fr) - 1
                    fr = [max(0.0, x) for x in fr]
                sy["RATE_FRACTIONS"] = fr
                rates = [(lambda t, x=x: total(t) * x) for x in fr]
            else:
                if self.p_cross > 0.8 and r.random() < 0.7:
                    es = [self.ex(c["box"]["rate"][0] * 0.2, c["box"]["rate"][1] * r.choice([0.2, 0.5])) for c in comps]
                    k = r.randrange(n)
                    es[k] = self.ex(comps[k]["box"]["rate"][1] * 0.8, comps[k]["box"]["rate"][1] * 1.4)
                else:
                    es = [self.ex(c["box"]["rate"][0] * 0.2, c["box"]["rate"][1] * r.choice([0.5, 0.9, 1.5])) for c in comps]
                sy["RATES"] = [e.yaml for e in es]
                rates = es
            if pump:
                slo, shi = 1, 20
                dlo = 21
                dhi = max(22.0, box["head"][1] * 800 / 1e5 * r.choice([0.6, 0.9, 1.2]))
                if self.p_cross > 0.8 and r.random() < 0.7:  # heads where the maximum rate lies on the curve
                    a = max(c["box"]["head"][0] for c in comps) * 1000 / 1e5 + 10
                    b = min(c["box"]["head"][1] for c in comps) * 900 / 1e5
                    if b > a:
                        dlo, dhi = a, b
            else:
                slo, shi = box["ps"][0] * r.choice([1, 1, 0.95]), box["ps"][1] * 1.1
                dlo, dhi = max(box["pd"][0] * 0.9, shi), box["pd"][1] * r.choice([1, 1, 1.1])
            if r.random() < 0.5:
                e = self.ex(slo, shi, zero=0)
                sy["SUCTION_PRESSURE"] = e.yaml
                ss = [e] * n
            else:
                ss = [self.ex(slo, shi, zero=0) for _ in comps]
                sy["SUCTION_PRESSURES"] = [e.yaml for e in ss]
            if r.random() < 0.5:
                e = self.ex(dlo, dhi, zero=0)
                sy["DISCHARGE_PRESSURE"] = e.yaml
                ds = [e] * n
            else:
                ds = [self.ex(dlo, dhi, zero=0) for _ in comps]
                sy["DISCHARGE_PRESSURES"] = [e.yaml for e in ds]
            if pump:
                if dens is None or r.random() < 0.3:
                    rs = [self.ex(800, 1100, zero=0) for _ in comps]
                    sy["FLUID_DENSITIES"] = [e.yaml for e in rs]
                else:
                    rs = [dens] * n
            else:
                rs = [None] * n
            cross = [0] * n
            if n > 1 and r.random() < self.p_cross:
                recv = r.randrange(n)
                for i, c in enumerate(comps):
                    if i != recv and c["max"] is not None and r.random() < 0.7:
                        cross[i] = recv + 1
                sy["CROSSOVER"] = cross
            y["OPERATIONAL_SETTINGS"].append(sy)
            settings.append((rates, ss, ds, rs, cross))

        def u(t, reg):
            on = cf(t)
            k = 1 - lf(t)
            best = None
            detail = []
            for idx, (rates, ss, ds, rs, cross) in enumerate(settings):
                q0 = [self.stream(f(t) if on else 0.0, True, reg) for f in rates]
                q = list(q0)
                used = False
                for i, to in enumerate(cross):
                    if not to:
                        continue
                    args = (ss[i](t), ds[i](t)) + ((rs[i](t),) if pump else ())
                    mx = comps[i]["max"](*args)
                    if nan(mx):
                        continue
                    tr = q0[i] - mx
                    if tr > 0 and ds[to - 1](t) >= ds[i](t):
                        used = True
                        q[i] = mx
                        q[to - 1] += tr
                        self.near(q0[i], mx)
                        if (mx > 0 and q0[i] > 1.9 * mx) or (pump and mx >= comps[i]["box"]["rate"][1] * (1 - 1e-9)):
                            self.ambiguous = True  # the sender ends up on its limit only up to rounding
                res = []
                keep = self.ambiguous
                for i, c in enumerate(comps):
                    args = (q[i], ss[i](t), ds[i](t)) + ((rs[i](t),) if pump else ())
                    x = c["f"](*args)
                    res.append(
                        (x[0], x[0] if pump else (x[1] if c["power"] else None), x[1] if pump else x[2],
                         x[3] if not pump and len(x) > 3 else None, x[2] if pump else None)
                    )
                if used and pump:
                    self.ambiguous = keep  # a sender on its curve is within the head margin
                ok = all(z[2] for z in res)
                detail = res
                best = (idx, q, res, ok, used)
                if ok:
                    break
            idx, q, res, ok, used = best
            e = sum(z[0] for z in res) / k
            p = sum(z[1] or 0.0 for z in res) / k
            return U(
                e, p, ok, setting=idx + 1, crossover=used, rates=q, names=names, parts=detail,
                ps=[f(t) for f in settings[idx][1]], pd=[f(t) for f in settings[idx][2]], on=on,
            )

        return self.Mod(y, u, "system")

    # ---------------------------------------------------------------- components
    def consumer(self, fuel: bool, kinds=None, p_dated=None, cover=None):
        """-> yaml, expect(t, reg) -> U or None"""
        r = self.rng
        kinds = kinds or (
            ["direct", "direct", "tabulated", "compressor", "system"] if fuel else ["direct", "direct", "tabulated", "compressor", "pump", "system"]
        )
        kind = r.choice(kinds)
        pumps = r.random() < 0.5

        def make():
            if kind == "direct":
                return self.direct(fuel)
            if kind == "tabulated":
                return self.tabulated(fuel)
            if kind == "compressor":
                return self.compressor(fuel)
            if kind == "system":
                return self.pump_system() if not fuel and pumps else self.compressor_system(fuel)
            return self.pump()

        cover = (r.random() < 0.75) if cover is None else cover
        tm = self.temporal(make, p_dated, cover=cover)
        name = self.uid(("fc_" if fuel else "ec_") + kind + "_")
        cat = self.temporal(lambda: Ex(r.choice(CATEGORIES), None), self.p_dated * 0.4, cover=True)
        y = {"NAME": name, "CATEGORY": cat.yaml, "ENERGY_USAGE_MODEL": tm.yaml}

        def expect(t, reg):
            m = tm.active(t)
            return None if m is None else m.u(t, reg)

        return name, y, expect, kind, tm


CATEGORIES = ["MISCELLANEOUS", "BASE-LOAD", "FLARE", "COMPRESSOR", "PUMP", "GAS-DRIVEN-COMPRESSOR", "FIXED-PRODUCTION-LOAD", "BOILER", "HEATER"]


def nz(x):
    return 0.0 if nan(x) else x


class Model(Gen):
    """A whole random asset with expectations per component."""

    def compose(self, n_inst=None, fuel_kinds=None, elec_kinds=None, gensets=None, venting=None, fuel_consumers=None, p_reg=0.6):
        r = self.rng
        self.inst: list[dict] = []
        for _ in range(n_inst or r.choice([1, 1, 2, 3])):
            name = self.uid("inst")
            y: dict = {"NAME": name}
            e: dict = {"name": name, "fuel": [], "gensets": [], "venting": []}
            if r.random() < p_reg:
                hard = r.random() < self.p_hard
                reg = self.temporal(lambda: self.ex(0.0 if hard else 0.3, 1.0, zero=0.2 if hard else 0.0))
                y["REGULARITY"] = reg.yaml
                e["reg"] = lambda t, reg=reg: reg.active(t)(t)
            else:
                e["reg"] = lambda t: 1.0
            if r.random() < 0.7:
                hc = self.temporal(lambda: self.ex(0, 1e6), cover=r.random() < 0.8)
                y["HCEXPORT"] = hc.yaml
                e["hc"] = lambda t, hc=hc: hc.active(t)(t) if hc.active(t) else 0.0
            else:
                e["hc"] = lambda t: 0.0
            instfuel = None
            if r.random() < 0.7:
                instfuel = self.fuel_ref()
                y["FUEL"] = instfuel.yaml
            nfc = r.choice([0, 1, 2, 3]) if fuel_consumers is None else fuel_consumers
            ngs = r.choice([0, 1, 1, 2]) if gensets is None else gensets
            nv = r.choice([0, 0, 1, 2]) if venting is None else venting
            if nfc + ngs + nv == 0:
                nfc = 1

            def own_fuel(cy):
                if instfuel is None or r.random() < 0.4:
                    f = self.fuel_ref()
                    cy["FUEL"] = f.yaml
                    return f
                return instfuel

            if nfc:
                y["FUELCONSUMERS"] = []
            for _i in range(nfc):
                cn, cy, ex, kind, tm = self.consumer(True, fuel_kinds)
                f = own_fuel(cy)
                y["FUELCONSUMERS"].append(cy)
                e["fuel"].append(dict(name=cn, ex=ex, fuel=f, kind=kind, tm=tm, yaml=cy))
            if ngs:
                y["GENERATORSETS"] = []
            for _i in range(ngs):
                gy, g = self.genset(elec_kinds)
                g["fuel"] = own_fuel(gy)
                y["GENERATORSETS"].append(gy)
                e["gensets"].append(g)
            if nv:
                y["VENTING_EMITTERS"] = []
            for _i in range(nv):
                vy, v = self.venting_emitter()
                y["VENTING_EMITTERS"].append(vy)
                e["venting"].append(v)
            # key order in the file must not matter
            self.installations.append(y)
            self.inst.append(e)
        return self

    def genset_table(self):
        r = self.rng
        name = self.uid("el2fuel")
        k = r.choice([2, 3, 5])
        xs = [0.0] + sorted({self.num(1, 80) for _ in range(k)})
        ys = [0.0] + sorted(self.num(1000, 2e5) for _ in xs[1:])
        if r.random() < 0.3:
            xs[0], ys[0] = xs[1] * 0.05, ys[1] * 0.3
        rows = list(zip(xs, ys))
        r.shuffle(rows)
        self.facility.append({"NAME": name, "TYPE": "ELECTRICITY2FUEL", "FILE": self.csv(["POWER", "FUEL"], rows)})
        o = Ex(name, None)
        o.xs, o.ys = xs, ys
        return o

    def genset(self, elec_kinds=None):
        r = self.rng
        name = self.uid("genset")
        el = self.temporal(self.genset_table, cover=r.random() < 0.85)
        y: dict = {"NAME": name, "ELECTRICITY2FUEL": el.yaml, "CONSUMERS": []}
        g: dict = dict(name=name, el=el, consumers=[], pfs=False)
        if r.random() < 0.25:
            y["CATEGORY"] = "POWER-FROM-SHORE"
            g["pfs"] = True
            cl = self.ex(0, 0.3, zero=0.2)
            mu = self.ex(1, 100, zero=0)
            y["CABLE_LOSS"], y["MAX_USAGE_FROM_SHORE"] = cl.yaml, mu.yaml
            g["cable_loss"], g["max_usage"] = cl, mu
        else:
            y["CATEGORY"] = "TURBINE-GENERATOR"
        for _ in range(r.choice(self.genset_n)):
            cn, cy, ex, kind, tm = self.consumer(False, elec_kinds)
            y["CONSUMERS"].append(cy)
            g["consumers"].append(dict(name=cn, ex=ex, kind=kind, tm=tm, yaml=cy))
        return y, g

    def venting_emitter(self):
        r = self.rng
        name = self.uid("vent")
        oil = r.random() < 0.5
        y: dict = {"NAME": name, "CATEGORY": r.choice(["COLD-VENTING-FUGITIVE", "STORAGE", "LOADING"])}
        v: dict = dict(name=name, oil=oil, emissions=[], cal=False)

        def rate():
            e = self.ex(0.1, 1e4)
            cy, cf = self.cond()
            ry: dict = {"VALUE": e.yaml, **cy}
            cal = False
            if r.random() < 0.6:
                ry["TYPE"] = r.choice(["STREAM_DAY", "CALENDAR_DAY"])
                cal = ry["TYPE"] == "CALENDAR_DAY"
            return ry, (lambda t: e(t) if cf(t) else 0.0), cal

        names = [r.choice(self.EMISSIONS) for _ in range(r.choice([1, 1, 2, 3]))]
        if oil:
            y["TYPE"] = "OIL_VOLUME"
            ry, f, cal = rate()
            if r.random() < 0.5:
                ry["UNIT"] = "SM3_PER_DAY"
            em = []
            for e in names:
                fac = self.ex(0.001, 2, zero=0.1)
                em.append({"NAME": e.upper() if r.random() < 0.3 else e, "EMISSION_FACTOR": fac.yaml})
                v["emissions"].append((e, (lambda t, f=f, fac=fac: f(t) * fac(t) / 1000), cal))
            y["VOLUME"] = {"RATE": ry, "EMISSIONS": em}
            v["oil_rate"], v["oil_cal"] = f, cal
        else:
            y["TYPE"] = "DIRECT_EMISSION"
            y["EMISSIONS"] = []
            for e in names:
                ry, f, cal = rate()
                k = 1e-3
                if r.random() < 0.6:
                    ry["UNIT"] = r.choice(["KG_PER_DAY", "TONS_PER_DAY"])
                    k = 1.0 if ry["UNIT"] == "TONS_PER_DAY" else 1e-3
                y["EMISSIONS"].append({"NAME": e.upper() if r.random() < 0.3 else e, "RATE": ry})
                v["emissions"].append((e, (lambda t, f=f, k=k: f(t) * k), cal))
        return y, v

    # ---------------------------------------------------------------- assembly
    def build(self, shuffle=True):
        r = self.rng
        m: dict = {}
        self.files["sim.csv"] = lab.csv_text(
            ["DATE", *self.cols], [[d, *(c[i] for c in self.cols.values())] for i, d in enumerate(self.file_dates)]
        ) if self.cols else lab.csv_text(["DATE", "UNUSED"], [[d, 1] for d in self.file_dates])
        m["TIME_SERIES"] = [
            {
                "NAME": "SIM", "TYPE": "MISCELLANEOUS", "FILE": "sim.csv", "INTERPOLATION_TYPE": "RIGHT",
                "EXTRAPOLATION": True, "INFLUENCE_TIME_VECTOR": True,
            }
        ]
        if self.facility:
            m["FACILITY_INPUTS"] = self.facility
        if self.models:
            m["MODELS"] = self.models
        m["FUEL_TYPES"] = self.fuel_types or lab.MINIMAL_FUELS
        if self.variables:
            m["VARIABLES"] = self.variables
        m["INSTALLATIONS"] = self.installations
        m["START"], m["END"] = self.start, self.end
        if shuffle and r.random() < 0.3:
            items = list(m.items())
            r.shuffle(items)
            m = dict(items)
        return m, self.files

    # ---------------------------------------------------------------- expectation
    def expected(self):
        """Everything in calendar-day fuel/emissions and stream-day power, per component, over the time vector."""
        tv = self.tv()
        ts = tv[:-1]
        days = [tg.days(a, b) for a, b in zip(tv, tv[1:])]
        out: dict = {"tv": tv, "days": days, "comp": {}, "inst": {}}
        def there(tm):  # some value is in effect somewhere in the run
            return not tm.dated or any(d < self.end for d, _ in tm.items)

        out["refused"] = False
        for e0 in self.inst:
            # what only comes into effect after END is left out
            e = {**e0, "fuel": [c for c in e0["fuel"] if there(c["tm"])]}
            e["gensets"] = []
            for g in e0["gensets"]:
                g = {**g, "consumers": [c for c in g["consumers"] if there(c["tm"])]}
                if there(g["el"]) != bool(g["consumers"]):
                    out["refused"] = True  # consumers without a generator set, or a generator set without consumers
                elif g["consumers"]:
                    e["gensets"].append(g)
            reg = [e["reg"](t) for t in ts]
            rows = []
            for c in e["fuel"]:
                us = [c["ex"](t, g) for t, g in zip(ts, reg)]
                rows.append(self._fuel_comp(c, us, ts, reg))
            for g in e["gensets"]:
                pw = [0.0] * len(ts)
                bad = [False] * len(ts)
                for c in g["consumers"]:
                    us = [c["ex"](t, q) for t, q in zip(ts, reg)]
                    p = [0.0 if u is None else u.power for u in us]
                    bad = [b or nan(x) for b, x in zip(bad, p)]
                    pw = [a + nz(x) for a, x in zip(pw, p)]
                    out["comp"][c["name"]] = dict(
                        kind=c["kind"], us=us, energy=p, power=p, valid=[True if u is None else u.valid for u in us],
                        reg=reg, unit="MW", emissions={}, nanpower=[nan(x) for x in p],
                    )
                fu, mg, ok = [], [], []
                last = 0.0
                for t, p, b in zip(ts, pw, bad):
                    m = g["el"].active(t)
                    if m is None:
                        fu.append(last)
                        mg.append(0.0)
                        ok.append(False)
                        continue
                    f = 0.0 if p <= 0 else interp(m.xs, m.ys, p, m.ys[0], m.ys[-1])
                    last = f
                    fu.append(f)
                    mg.append(m.xs[-1] - p)
                    ok.append(mg[-1] >= 0)
                us = [U(f, p, v) for f, p, v in zip(fu, pw, ok)]
                row = self._fuel_comp(dict(name=g["name"], fuel=g["fuel"], kind="genset"), us, ts, reg)
                row.update(power=pw, margin=mg, bad=bad, pfs=g["pfs"])
                if g["pfs"]:
                    row["supply"] = [p * (1 + g["cable_loss"](t)) for p, t in zip(pw, ts)]
                    row["max_usage"] = [g["max_usage"](t) for t in ts]
                rows.append(row)
            for v in e["venting"]:
                em: dict = {}
                for n, f, cal in v["emissions"]:
                    vals = [f(t) * (1 if cal else q) if (q != 0 or not cal) else 0.0 for t, q in zip(ts, reg)]
                    em[n] = [a + b for a, b in zip(em[n], vals)] if n in em else vals
                row = dict(name=v["name"], kind="venting", emissions=em, valid=[True] * len(ts), reg=reg)
                if v["oil"]:
                    row["oil"] = [v["oil_rate"](t) * (1 if v["oil_cal"] else q) if q != 0 or not v["oil_cal"] else 0.0 for t, q in zip(ts, reg)]
                rows.append(row)
            for row in rows:
                out["comp"][row["name"]] = row
            members = [r_ for r_ in rows] + [out["comp"][c["name"]] for g in e["gensets"] for c in g["consumers"]]
            inst = dict(
                name=e["name"], reg=reg, hc=[e["hc"](t) for t in ts],
                fuel=[sum(nz(r_["fuelcal"][i]) for r_ in rows if "fuelcal" in r_) for i in range(len(ts))],
                anynan=[any(nan(r_["fuelcal"][i]) for r_ in rows if "fuelcal" in r_) for i in range(len(ts))],
                emissions={}, valid=[all(m["valid"][i] for m in members) for i in range(len(ts))],
                electrical=[sum(nz(out["comp"][c["name"]]["power"][i]) for g in e["gensets"] for c in g["consumers"]) for i in range(len(ts))]
                if e["gensets"] else None,
                mech_members=[r_ for r_ in rows if r_["kind"] not in ("genset", "venting") and r_.get("power") is not None],
                gensets=[r_["name"] for r_ in rows if r_["kind"] == "genset"],
                members=[c["name"] for g in e["gensets"] for c in g["consumers"]],
                rows=rows,
            )
            inst["mechanical"] = (
                [sum(nz(r_["power"][i]) for r_ in inst["mech_members"]) for i in range(len(ts))] if inst["mech_members"] else None
            )
            for r_ in rows:
                for n, vals in r_["emissions"].items():
                    prev = inst["emissions"].get(n, [0.0] * len(ts))
                    inst["emissions"][n] = [a + nz(b) for a, b in zip(prev, vals)]
            out["inst"][e["name"]] = inst
        out["loose"] = self.loose
        return out

    @staticmethod
    def _fuel_comp(c, us, ts, reg):
        energy = [0.0 if u is None else u.energy for u in us]
        fuelcal = [x * q for x, q in zip(energy, reg)]
        em: dict = {}
        names = {n for _, f in c["fuel"].items for n in f.em}
        for n in names:
            vals = []
            for t, x in zip(ts, fuelcal):
                f = c["fuel"].active(t)
                vals.append(x * f.em[n](t) / 1000 if f is not None and n in f.em else 0.0)
            em[n] = vals
        power = None
        if any(u is not None and u.power is not None for u in us):
            power = [0.0 if u is None else u.power for u in us]
            if any(p is None for p in power):
                power = None
        return dict(
            name=c["name"], kind=c["kind"], us=us, energy=energy, fuelcal=fuelcal, emissions=em, reg=reg, power=power,
            valid=[True if u is None else u.valid for u in us], unit="SM3", fuel=c["fuel"],
        )
