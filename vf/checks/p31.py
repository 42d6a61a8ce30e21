"""P31 searches: every search of the solvers and trains finds the root or limit there is, within its tolerance and bounds, or says why there is none."""

from __future__ import annotations

import math
from types import SimpleNamespace

from libecalc.common.numeric_methods import (
    DampState,
    adaptive_pressure_update,
    find_root,
    maximize_x_given_boolean_condition_function,
)
from libecalc.domain.process.compressor.core.exceptions import CompressorThermodynamicCalculationError
from libecalc.process.process_pipeline import process_error as pe
from libecalc.process.process_solver import solver as sv
from libecalc.process.process_solver.boundary import Boundary
from libecalc.process.process_solver.finders.choke_delta_pressure_finders import (
    DownstreamChokeDeltaPressureFinder,
    UpstreamChokeDeltaPressureFinder,
)
from libecalc.process.process_solver.finders.recirculation_loop_rate_finder import RecirculationLoopRateFinder
from libecalc.process.process_solver.finders.shaft_speed_finder import ShaftSpeedFinder
from libecalc.process.process_solver.float_constraint import FloatConstraint
from libecalc.process.process_solver.search_strategies import (
    Bisect,
    BisectResult,
    DidNotConvergeError,
    ScipyRootFindingStrategy,
)
from libecalc.process.process_pipeline.process_unit import ProcessUnit

CASES = {"quick": 100000, "thorough": 3000000}
RULE = "random monotone responses with regions that cannot be evaluated (surge, stonewall, inlet pressure, equation of state), bounds over six decades, tolerances and iteration limits; distinct by the parameters"
MIN_OBS = {"threshold": 12000, "root": 9000, "speed found": 5000, "recirculation found": 3500, "choke found": 6500, "no solution": 9000, "eos limit": 1700, "capacity limit": 9000, "damped": 4500}
ASSUMPTIONS = ["the searches are specified for monotone responses; results within the search tolerance of a decision are set aside"]
UID = ProcessUnit._create_id()


def span(rng):
    a = rng.choice([0.0, 10 ** rng.uniform(-2, 4)])
    return a, a + 10 ** rng.uniform(-1, 6)


def monotone(rng, a, b, up):
    """(f, inverse) on [a, b]"""
    k = rng.choice(["line", "power", "log", "kink"])
    lo, hi = 10 ** rng.uniform(-1, 1.5), 10 ** rng.uniform(1.6, 3)
    p = rng.choice([0.5, 2, 3])

    def shape(u):
        if k == "line":
            return u
        if k == "power":
            return 0.02 * u + 0.98 * u**p
        if k == "log":
            return math.log1p(9 * u) / math.log(10)
        return u * 0.5 if u < 0.7 else 0.35 + (u - 0.7) * (0.65 / 0.3)

    def f(x):
        u = (x - a) / (b - a)
        s = shape(min(max(u, 0.0), 1.0))
        return lo + (hi - lo) * (s if up else 1 - s)

    return f


def solve(f, a, b, y):
    """where the monotone f is y, by plain bisection"""
    up = f(b) > f(a)
    for _ in range(200):
        m = (a + b) / 2
        if (f(m) < y) == up:
            a = m
        else:
            b = m
    return (a + b) / 2


class Probe:
    """records where a search looks; its answer must not come from outside its bounds"""

    def __init__(self, ctx, f, a, b, what):
        self.ctx, self.f, self.a, self.b, self.what, self.n = ctx, f, a, b, what, 0

    def __call__(self, x):
        self.n += 1
        e = 1e-12 * max(abs(self.a), abs(self.b))
        self.ctx.require(self.a - e <= x <= self.b + e, "outside", f"{self.what}: looked at {x:.10g}, outside of {self.a:.10g} to {self.b:.10g}")
        return self.f(x)


def case(ctx):
    rng = ctx.rng
    k = rng.choice(["search", "first", "root", "maximize", "speed", "speed", "recirculation", "choke", "downstream", "damp"])
    {"search": search, "first": first, "root": root, "maximize": maximize, "speed": speed, "recirculation": recirculation, "choke": choke, "downstream": downstream, "damp": damp}[k](ctx, rng)
    ctx.distinct((k, *sorted((n, repr(v)) for n, v in ctx.data.items())) if ctx.data else (k, rng.random()))
    ctx.sample({"search": k, **{n: str(v) for n, v in ctx.data.items()}})


def err(a, b, tol, n, at):
    """how far from the threshold a bisection may end"""
    return max(tol * max(abs(at), 1.0), (b - a) / 2**n) * 1.01 + 1e-12 * max(abs(a), abs(b))


def search(ctx, rng):
    a, b = span(rng)
    tol, n = rng.choice([1e-5, 1e-5, 1e-3, 1e-7]), rng.choice([20, 20, 50, 8])
    t = rng.choice([rng.uniform(a, b), rng.uniform(a, b), a, b, a + (b - a) * 10 ** rng.uniform(-5, 0)])
    low = a if rng.random() < 0.6 else rng.uniform(a, t)  # not everything below the threshold is a solution
    up = rng.random() < 0.5
    f = (lambda x: BisectResult(higher=x <= t, accepted=low <= x <= t)) if up else (lambda x: BisectResult(higher=x < t, accepted=x >= t))
    p = Probe(ctx, f, a, b, "search")
    ctx.note(a=a, b=b, tol=tol, n=n, t=t, low=low, up=up)
    e = err(a, b, tol, n, t)
    try:
        r = Bisect(tol, n).search(Boundary(min=a, max=b), p)
    except DidNotConvergeError as x:
        ctx.require((t - low if up else b - t) <= 2 * e, "not-found", f"no solution found, although {low if up else t:.8g} to {t if up else b:.8g} are")
        ctx.require(x.lower_bound == a and x.upper_bound == b, "not-found", "the error names other bounds")
        ctx.obs("no solution")
        return
    ctx.require(f(r).accepted, "not-accepted", f"{r!r} was not accepted")
    ctx.require(abs(r - t) <= e, "not-limit", f"{r:.10g} is not the limit {t:.10g} (within {e:.3g})")
    ctx.require(p.n <= n, "iterations", f"{p.n} probes with {n} allowed")
    ctx.obs("threshold")


def first(ctx, rng):
    a, b = span(rng)
    tol, n = rng.choice([1e-5, 1e-5, 1e-3]), rng.choice([20, 20, 50])
    t = rng.choice([rng.uniform(a, b), rng.uniform(a, b), a, b, a - 1, b + 1])
    lowest = rng.random() < 0.5
    f = (lambda x: x >= t) if lowest else (lambda x: x <= t)
    p = Probe(ctx, f, a, b, "lowest" if lowest else "highest")
    ctx.note(a=a, b=b, tol=tol, n=n, t=t, lowest=lowest)
    s = Bisect(tol, n)
    r = (s.lowest_true if lowest else s.highest_true)(Boundary(min=a, max=b), p)
    want = None if (t > b if lowest else t < a) else max(t, a) if lowest else min(t, b)
    if want is None:
        ctx.require(r is None, "first", f"{r!r} although it is never true")
        ctx.obs("no solution")
        return
    ctx.require(r is not None and a <= r <= b and f(r), "first", f"{r!r}: not a value where it is true")
    ctx.require(abs(r - want) <= err(a, b, tol, n, want), "first", f"{r:.10g} is not the {'lowest' if lowest else 'highest'}, {want:.10g}")
    ctx.obs("threshold")


def root(ctx, rng):
    a, b = span(rng)
    f = monotone(rng, a, b, rng.random() < 0.5)
    y = rng.uniform(min(f(a), f(b)), max(f(a), f(b))) if rng.random() < 0.9 else f(rng.choice([a, b]))
    x = solve(f, a, b, y)
    p = Probe(ctx, lambda z: f(z) - y, a, b, "root")
    tol = rng.choice([1e-5, 1e-5, 1e-3, 1e-7])
    ctx.note(a=a, b=b, y=y, tol=tol)
    r = ScipyRootFindingStrategy(tol).find_root(Boundary(min=a, max=b), p) if rng.random() < 0.5 else find_root(a, b, p, tol)
    ctx.require(a <= r <= b, "outside", f"{r!r} is outside {a} to {b}")
    ctx.require(abs(r - x) <= 4 * tol * max(abs(x), abs(r)) + 1e-9 * (b - a) + 4e-12, "root", f"{r:.10g} is not the root {x:.10g}")
    ctx.obs("root")


def maximize(ctx, rng):
    a, b = span(rng)
    t = rng.choice([rng.uniform(a, b), rng.uniform(a, b), a, b])
    f = lambda x: x <= t  # noqa: E731
    tol = rng.choice([1e-5, 1e-3, 1e-7])
    p = Probe(ctx, f, a, b, "maximum")
    r = maximize_x_given_boolean_condition_function(a, b, p, tol)
    ctx.note(a=a, b=b, t=t, tol=tol)
    ctx.require(f(r) or r == a, "maximum", f"{r!r} does not satisfy the condition")
    ctx.require(abs(r - t) <= max(1.02 * tol * max(abs(t), abs(r)), (b - a) / 2**49) + 1e-12 * b, "maximum", f"{r:.10g} is not the largest, {t:.10g}")
    ctx.obs("threshold")


def surge():
    return pe.CompressorSurgeError(UID, 1.0, 2.0)


def stonewall():
    return pe.CompressorStonewallError(UID, 2.0, 1.0)


def inlet():
    return pe.InsufficientInletPressureError(UID, 5.0, 7.0)


def eos():
    return CompressorThermodynamicCalculationError.__new__(CompressorThermodynamicCalculationError)


FAIL = {"surge": sv.CompressorSurgeFailure, "stonewall": sv.CompressorStonewallFailure, "inlet": sv.InsufficientInletPressureFailure}
RAISE = {"surge": surge, "stonewall": stonewall, "inlet": inlet, "eos": eos}


def respond(f, regions):
    """a stream at the pressure of f, or the error of the region"""

    def g(x):
        for kind, lo, hi in regions:
            if lo <= x <= hi:
                raise RAISE[kind]()
        return SimpleNamespace(pressure_bara=f(x))

    return g


def slope_at(f, x, d, a, b):
    lo, hi = max(a, x - d), min(b, x + d)
    return abs(f(hi) - f(lo))


def speed(ctx, rng):
    n0 = rng.uniform(3000, 9000)
    n1 = n0 * rng.choice([1.0001, 1.2, 1.5, 2.0])
    f = monotone(rng, n0, n1, True)
    lo, hi, regions = n0, n1, []
    kind = rng.choice([None, None, "stonewall", "inlet", "eos", "low eos", "both", "all", "top"])
    if kind in ("stonewall", "inlet", "low eos", "both"):
        lo = rng.uniform(n0, n1)
        regions.append(({"low eos": "eos", "both": "stonewall"}.get(kind, kind), n0, lo))
    if kind in ("eos", "both"):
        hi = rng.uniform(lo, n1)
        regions.append(("eos", hi, n1))
    if kind == "all":
        regions = [(rng.choice(["stonewall", "inlet", "eos", "surge"]), n0, n1)]
    if kind == "top":
        regions = [(rng.choice(["stonewall", "inlet", "surge"]), rng.uniform(n0, n1), n1)]
    target = rng.uniform(f(n0) * 0.8, f(n1) * 1.2) if rng.random() < 0.4 else rng.uniform(f(lo), f(hi))
    ctx.note(n0=n0, n1=n1, regions=regions, target=target, lo=lo, hi=hi)
    g = respond(f, regions)
    fnd = ShaftSpeedFinder(Bisect(), ScipyRootFindingStrategy(), Boundary(min=n0, max=n1), target)

    def call(c):
        e = 1e-9
        ctx.require(n0 * (1 - e) <= c.speed <= n1 * (1 + e), "outside", f"looked at {c.speed:.8g} rpm, outside {n0:.8g} to {n1:.8g}")
        return g(c.speed)

    if kind in ("all", "top"):
        r = fnd.find(call)
        k = regions[0][0]
        want = sv.ThermodynamicCalculationFailure if k == "eos" else FAIL[k]
        ctx.require(not r.success and type(r.failure) is want, "speed-failure", f"{k} at the highest speed is reported as {r.failure}")
        if k != "eos":
            carries(ctx, r.failure, k)
        ctx.obs("no solution")
        return
    e = max(1e-5 * n1, (n1 - n0) / 2**20) * 1.05
    if hi - lo < 4 * e and (lo > n0 or hi < n1):  # next to nothing to find
        ctx.obs("set aside: narrow window")
        return
    r = fnd.find(call)
    n = r.configuration.speed
    judge(ctx, "speed", r, n, f, lo, hi, target, e, regions)
    if hi < n1:
        ctx.obs("eos limit")
    if lo > n0:
        ctx.obs("capacity limit")


def carries(ctx, failure, kind):
    """the failure says what the error said"""
    if kind == "inlet":
        ctx.require((failure.process_unit_id, failure.inlet_pressure_bara, failure.required_delta_pressure_bara) == (UID, 5.0, 7.0), "failure-details", f"{failure}")
    elif kind == "surge":
        ctx.require((failure.source_id, failure.actual_rate_m3_per_hour, failure.minimum_rate_m3_per_hour) == (UID, 1.0, 2.0), "failure-details", f"{failure}")
    elif kind == "stonewall":
        ctx.require((failure.source_id, failure.actual_rate_m3_per_hour, failure.maximum_rate_m3_per_hour) == (UID, 2.0, 1.0), "failure-details", f"{failure}")


def judge(ctx, what, r, x, f, lo, hi, target, e, regions):
    """f increases or decreases over [lo, hi], where it can be evaluated"""
    up = f(hi) > f(lo)
    top, bottom = (hi, lo) if up else (lo, hi)
    etop, ebot = slope_at(f, top, e, lo, hi), slope_at(f, bottom, e, lo, hi)
    ctx.require(lo - 1e-9 * abs(lo) - 1e-12 <= x <= hi + 1e-9 * abs(hi) and not any(a <= x <= b for _, a, b in regions), f"{what}-invalid", f"{x:.10g} cannot be evaluated ({lo:.10g} to {hi:.10g} can)")
    if abs(f(top) - target) <= etop or abs(f(bottom) - target) <= ebot:
        ctx.obs("set aside: target at the limit")
        return
    if target > f(top) or target < f(bottom):
        high = target > f(top)
        ctx.require(not r.success, f"{what}-success", f"{x:.8g} is called a solution, but {target:.8g} is outside {f(bottom):.8g} to {f(top):.8g}")
        ctx.require(abs(x - (top if high else bottom)) <= e, f"{what}-closest", f"{x:.10g} is not the closest, {top if high else bottom:.10g}")
        if isinstance(r.failure, sv.TargetPressureUnreachableFailure):
            ctx.require(r.failure.direction == (sv.TargetDirection.MAX_BELOW_TARGET if high else sv.TargetDirection.MIN_ABOVE_TARGET), f"{what}-direction", f"{r.failure}")
            ctx.close(r.failure.achievable_pressure_bara, f(x), f"{what}-achievable", "pressure that can be reached", rel=1e-9)
            ctx.close(r.failure.target_pressure_bara, target, f"{what}-achievable", "target")
        ctx.obs("no solution")
        return
    want = solve(f, lo, hi, target)
    ctx.require(r.success, f"{what}-failure", f"{r.failure}, although {want:.10g} meets {target:.8g}")
    ctx.require(abs(x - want) <= 5e-5 * abs(want) + 2 * e + 1e-9, f"{what}-solution", f"{x:.10g} instead of {want:.10g}")
    ctx.obs(f"{what} found")


def recirculation(ctx, rng):
    a, b = 0.0, 10 ** rng.uniform(3, 7)
    f = monotone(rng, a, b, False)
    lo, hi, regions = a, b, []
    kind = rng.choice([None, "surge", "surge", "stonewall", "both", "at zero"])
    if kind in ("surge", "both"):
        lo = rng.uniform(a, b * rng.choice([0.01, 0.9]))
        regions.append(("surge", a, lo))
    if kind in ("stonewall", "both"):
        hi = rng.uniform(lo + 0.02 * (b - lo), b)
        regions.append(("stonewall", hi, b))
    target = None if rng.random() < 0.2 else rng.uniform(f(b) * 0.8, f(a) * 1.2) if rng.random() < 0.4 else rng.uniform(f(hi), f(lo))
    k = None
    if kind == "at zero":
        k = rng.choice(["stonewall", "inlet"])
        regions = [(k, a, b)]
    ctx.note(b=b, regions=regions, target=target, lo=lo, hi=hi)
    g = respond(f, regions)
    fnd = RecirculationLoopRateFinder(Bisect(), ScipyRootFindingStrategy(), Boundary(min=a, max=b), None if target is None else FloatConstraint(target, abs_tol=1e-9))

    def call(c):
        ctx.require(a <= c.recirculation_rate <= b, "outside", f"looked at a recirculation of {c.recirculation_rate}")
        return g(c.recirculation_rate)

    if k:
        r = fnd.find(call)
        ctx.require(type(r.failure) is FAIL[k], "recirculation-failure", f"{k} without recirculation is reported as {r.failure}")
        carries(ctx, r.failure, k)
        ctx.obs("no solution")
        return
    e = max(1e-5 * b, b / 2**20) * 1.05
    r = fnd.find(call)
    x = r.configuration.recirculation_rate
    if target is None:
        ctx.require(r.success and abs(x - lo) <= e and not any(p <= x <= q for _, p, q in regions), "recirculation-least", f"{x:.10g} is not the least recirculation, {lo:.10g}")
        ctx.obs("recirculation found")
        return
    judge(ctx, "recirculation", r, x, f, lo, hi, target, e, regions)
    if regions:
        ctx.obs("capacity limit")


def choke(ctx, rng):
    a, b = rng.choice([0.0, 1e-6]), rng.uniform(5, 100)
    f = monotone(rng, 0.0, b, False)
    hi, regions, k = b, [], None
    if rng.random() < 0.6:
        k = rng.choice(["stonewall", "inlet"])
        hi = rng.uniform(0.01 * b, b)
        regions.append((k, hi, b))
    target = rng.uniform(f(b) * 0.8, f(0)) if rng.random() < 0.5 else rng.uniform(f(hi), f(0))
    if target >= f(0):
        return
    ctx.note(b=b, regions=regions, target=target, hi=hi)
    g = respond(f, regions)
    r = UpstreamChokeDeltaPressureFinder(ScipyRootFindingStrategy(), target, Boundary(min=a, max=b)).find(lambda c: g(c.delta_pressure))
    x = r.configuration.delta_pressure
    e = 0.003
    if k and not r.success:
        if isinstance(r.failure, FAIL[k]):
            carries(ctx, r.failure, k)
        else:
            ctx.violation("choke-failure", f"{k} is reported as {r.failure}")
    judge(ctx, "choke", r, x, f, 0.0, hi, target, e, regions)
    if k:
        ctx.obs("capacity limit")


def downstream(ctx, rng):
    p, t = rng.uniform(1, 300), rng.uniform(1, 300)
    if rng.random() < 0.1:
        t = p
    r = DownstreamChokeDeltaPressureFinder(t).find(lambda c: SimpleNamespace(pressure_bara=p - c.delta_pressure))
    if p < t:
        ctx.require(isinstance(r.failure, sv.TargetPressureUnreachableFailure) and r.failure.direction == sv.TargetDirection.MAX_BELOW_TARGET and r.failure.achievable_pressure_bara == p and r.failure.target_pressure_bara == t, "downstream", f"{p} against {t}: {r.failure}")
        ctx.require(r.configuration.delta_pressure == 0, "downstream", "choked although below the target")
        ctx.obs("no solution")
    else:
        ctx.require(r.success and r.configuration.delta_pressure == p - t, "downstream", f"{p} against {t}: {r}")
        ctx.obs("choke found")


def damp(ctx, rng):
    s, p = DampState(), rng.uniform(1, 300)
    target = rng.uniform(1, 300)
    gain = -rng.choice([0.3, 0.9, 1.2, 1.5])
    betas = []
    for i in range(80):
        raw = target + gain * (p - target)
        if raw <= 0:
            raw = 1e-3
        n, s = adaptive_pressure_update(p_prev=p, p_raw=raw, state=s)
        lo, hi = min(p, raw), max(p, raw)
        ctx.require(lo - 1e-9 * hi <= n <= hi * (1 + 1e-9), "damping", f"step {i}: {n:.8g} is not between {p:.8g} and {raw:.8g}")
        betas.append(s.beta)
        p = n
    ctx.require(all(0.1 <= b <= 1 for b in betas), "damping", "damping factor outside 0.1 to 1")
    ctx.close(p, target, "damping", f"fixed point with gain {gain}", rel=2e-2)
    ctx.obs("damped" if min(betas) < 1 else "undamped")
