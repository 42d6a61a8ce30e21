"""P25 the process solver: what it calls a solution is one, what it calls impossible is, and nothing it did before matters."""

from __future__ import annotations

import warnings

from vf import fakeneqsim as fn
from vf.streams import S
from vf.trains import TYPES, System, random_train

CASES = {"quick": 800, "thorough": 9000}
RULE = "random compressor trains (1-3 stages, all five kinds of pressure control, chokes, scrubbers, offtakes, control margins) and target pressures between, above and below what the train can do, solved one after the other on one system; distinct by train and target"
MIN_OBS = {
    "solution": 400, "target met": 400, "speed alone": 150, "least recirculation": 250, "impossible": 100, "possible": 300, "history": 500,
    "pressure control: DOWNSTREAM_CHOKE": 30, "pressure control: UPSTREAM_CHOKE": 10, "pressure control: COMMON_ASV": 10, "pressure control: INDIVIDUAL_ASV_RATE": 8, "pressure control: INDIVIDUAL_ASV_PRESSURE": 4,
}
ASSUMPTIONS = [
    "the thermodynamic package is replaced by an analytic stand-in with NeqSim's interface",
    "outlet pressure rises with speed and falls with recirculation and choking, as it does for compressor charts falling with rate",
    "pressure control acts at the lowest speed the train can run at with the least recirculation: solutions at a higher speed with more recirculation are not asked for",
]
CASE_TIMEOUT = {"quick": 120, "thorough": 120}
REL = 2e-3  # pressures: the outlet pressure of a compressor is itself iterated to 1e-3


def setup(tier):
    fn.install()


def attempt(f, *a):
    from libecalc.process.process_pipeline.process_error import ProcessError

    try:
        return f(*a)
    except ProcessError as e:
        return e


def lowest_speed(ref, lo, hi):
    """lowest speed with the least recirculation that is not beyond stonewall"""
    r = attempt(ref.minimum, lo)
    if not isinstance(r, Exception):
        return lo, r
    a, b, rb = lo, hi, None
    for _ in range(18):
        mid = 0.5 * (a + b)
        r = attempt(ref.minimum, mid)
        if isinstance(r, Exception):
            a = mid
        else:
            b, rb = mid, r
        if b - a < 1e-6 * b:
            break
    return b, rb if rb is not None else ref.minimum(b)


def narrow(ref, a, b):
    """is there a speed at which less than two percent of the recirculation range suits every compressor? (it is searched for to a percent)"""
    for i in range(9):
        n = a + (b - a) * i / 8
        r = attempt(ref.minimum, n)
        if isinstance(r, Exception):
            return True
        lo = r[0][0]
        ref.set(n, [0.0])
        most = ref.least(0, n, S.of(ref.runner.run(ref.inlet, to_id=ref.compressors[0].get_id())))[1]
        if lo and isinstance(attempt(ref.at, n, [lo + 0.02 * most]), Exception):
            return True
    return False


def control_range(ref, n, p_lo, rec_lo):
    """lowest pressure the pressure control reaches at speed n, with some slack; None: not known"""
    kind = ref.train.control
    if kind == "DOWNSTREAM_CHOKE":
        return 0.05
    if kind == "UPSTREAM_CHOKE":
        lo, hi, p = 0.0, ref.train.inlet.P - 1e-3, p_lo
        r = attempt(ref.minimum, n, hi)
        if not isinstance(r, Exception):
            return r[2].P
        for _ in range(18):
            mid = 0.5 * (lo + hi)
            r = attempt(ref.minimum, n, mid)
            if isinstance(r, Exception):
                hi = mid
            else:
                lo, p = mid, r[2].P
        return p
    if kind == "COMMON_ASV":
        ref.set(n, [0.0])
        s = S.of(ref.runner.run(ref.inlet, to_id=ref.compressors[0].get_id()))
        lo, hi, p = rec_lo[0], ref.least(0, n, s)[1] - 1e-6, p_lo
        r = attempt(ref.at, n, [hi])
        if not isinstance(r, Exception):
            return r[1].P
        for _ in range(18):
            mid = 0.5 * (lo + hi)
            r = attempt(ref.at, n, [mid])
            if isinstance(r, Exception):
                hi = mid
            else:
                lo, p = mid, r[1].P
        # the solver finds the largest recirculation to a percent
        r = attempt(ref.at, n, [max(rec_lo[0], lo - 0.025 * ref.least(0, n, s)[1])])
        return p_lo if isinstance(r, Exception) else r[1].P
    if kind == "INDIVIDUAL_ASV_RATE":
        r = attempt(lambda: ref.at(n, ref.individual(n, lambda i, lo, hi: hi - 2e-6)))
        return None if isinstance(r, Exception) else r[1].P
    return None


def stage_targets_reachable(ref, n, target):
    """INDIVIDUAL_ASV_PRESSURE: can each stage in turn deliver its share of the pressure ratio at speed n?"""
    k = len(ref.loops)
    ratio = (target / ref.train.inlet.P) ** (1 / k)
    rec = [0.0] * k
    r = attempt(lambda: ref.at(n, ref.individual(n, lambda i, lo, hi: hi - 2e-6)))
    if isinstance(r, Exception) or r[1].P > target * 0.999:
        return False
    for i, c in enumerate(ref.compressors):
        want = ref.train.inlet.P * ratio ** (i + 1)

        def out(x):
            rec[i] = x
            ref.set(n, rec)
            return c.propagate_stream(ref.runner.run(ref.inlet, to_id=c.get_id())).pressure_bara

        rec[i] = 0.0
        ref.set(n, rec)
        s = attempt(ref.runner.run, ref.inlet, c.get_id())
        if isinstance(s, Exception):
            return False
        lo, hi = ref.least(i, n, S.of(s))
        lo, hi = lo + 2e-6, hi - 2e-6
        p0, p1 = attempt(out, lo), attempt(out, hi)
        if isinstance(p0, Exception) or isinstance(p1, Exception) or not p1 * (1 + REL) < want < p0 * (1 - REL):
            return False
        for _ in range(24):
            mid = 0.5 * (lo + hi)
            if out(mid) > want:
                lo = mid
            else:
                hi = mid
        rec[i] = lo
    return True


def close(a, b, rel=REL):
    return abs(a - b) <= rel * max(abs(a), abs(b)) + 2e-3


def certificate(ctx, train, target, sol, plain, what, ref, top, low):
    """judge one answer of the solver on a system of our own"""
    kind = train.control
    lo, hi = train.speeds
    n, rec, choke = plain
    # the least recirculation of a common loop is found to a percent
    lim = 1e-2 if kind == "COMMON_ASV" else REL
    failure = type(sol.failure).__name__ if sol.failure else None
    direction = getattr(getattr(sol.failure, "direction", None), "name", "")
    text = f"{kind}, {len(train.stages)} stages, target {target:.6g} bara ({what})"
    if isinstance(top, Exception):
        ctx.obs("impossible")
        if sol.success:
            out = ref.at(n, rec, choke)[1]
            ctx.require(close(out.P, target), "solution", f"{text}: impossible at full speed ({top}), solved with {plain}, giving {out.P}")
        return
    p_hi = top[2].P
    n_lo, (rec_lo, _, out_lo) = low
    p_lo = out_lo.P
    limits = f"; full speed gives {p_hi:.6g}, lowest speed {n_lo:.6g} gives {p_lo:.6g}; answer: {failure or 'success'} {direction} speed {n}, recirculation {rec}, choke {choke}"
    if not sol.success:
        if target > p_hi * (1 + lim):
            ctx.obs("impossible")
            ctx.require(failure == "TargetPressureUnreachableFailure" and direction == "MAX_BELOW_TARGET", "impossible", f"{text}: wrong reason{limits}")
            ctx.close(sol.failure.achievable_pressure_bara, p_hi, "impossible", f"{text}: highest pressure reported", rel=lim)
            ctx.close(sol.failure.target_pressure_bara, target, "impossible", f"{text}: target reported")
            ctx.require(n == hi, "impossible", f"{text}: not at full speed{limits}")
            return
        if close(target, p_hi, lim) or close(target, p_lo, lim):
            ctx.obs("set aside: at the limit")
            return
        if failure == "ConvergenceFailure" and kind == "COMMON_ASV" and narrow(ref, n_lo, hi):
            ctx.obs("set aside: hardly any common recirculation suits every compressor")
            return
        if p_lo < target < p_hi:
            ctx.violation("possible", f"{text}: called impossible{limits}")
        # pressure control at the lowest speed
        if kind == "INDIVIDUAL_ASV_PRESSURE":
            ctx.require(not stage_targets_reachable(ref, n_lo * (1 + 2e-5), target) or not stage_targets_reachable(ref, n_lo, target), "possible", f"{text}: called impossible, but each stage can deliver its share{limits}")
        else:
            p_min = control_range(ref, n_lo, p_lo, rec_lo)
            if p_min is not None and n_lo > lo:
                q = control_range(ref, n_lo * (1 + 2e-5), p_lo, rec_lo)
                p_min = None if q is None else max(p_min, q)
            if p_min is None:
                ctx.obs("set aside: the largest recirculation of one stage is too much for the next")
            else:
                ctx.require(target < p_min * (1 + 2 * REL) + 0.01, "possible", f"{text}: called impossible, but {kind} reaches down to {p_min}{limits}")
        ctx.obs("impossible")
        if failure == "TargetPressureUnreachableFailure":
            # the stages share the pressure ratio equally: one of them may not even reach its share
            ok = ["MIN_ABOVE_TARGET"] + ["MAX_BELOW_TARGET"] * (kind == "INDIVIDUAL_ASV_PRESSURE" and len(train.stages) > 1)
            ctx.require(direction in ok, "impossible", f"{text}: wrong direction{limits}")
        else:
            ok = ["CompressorStonewallFailure"] + ["ConvergenceFailure"] * (kind == "COMMON_ASV")  # no recirculation found that the train can take
            ctx.require(failure in ok, "impossible", f"{text}: wrong reason{limits}")
        return
    # success
    ctx.require(n is not None and lo * (1 - 1e-12) <= n <= hi * (1 + 1e-12), "solution", f"{text}: speed outside {lo} - {hi}{limits}")
    ctx.require(all(r >= 0 for r in rec) and 0 <= choke < (train.inlet.P if kind == "UPSTREAM_CHOKE" else 1e6), "solution", f"{text}: negative or impossible setting{limits}")
    got = attempt(ref.at, n, rec, choke)
    ctx.require(not isinstance(got, Exception), "solution", f"{text}: the train does not run with the settings of the solution: {got}{limits}")
    seen, out = got
    ctx.obs("target met")
    ctx.close(out.P, target, "target met", f"{text}: outlet pressure with the settings of the solution{limits}", rel=REL if kind != "DOWNSTREAM_CHOKE" or choke == 0 else 1e-6, abs_=2e-3)
    ctx.close(out.mass, train.inlet.mass - sum(s.offtake for s in train.stages) * train.inlet.sd / 24, "solution", f"{text}: mass delivered{limits}", rel=1e-9)
    if target > p_hi * (1 + lim):
        ctx.violation("impossible", f"{text}: solved, though out of reach{limits}")
    if p_lo * (1 + lim) < target:
        # speed alone: the least recirculation and no choke
        ctx.obs("speed alone")
        ctx.require(choke <= 2e-3 * target + 2e-3, "speed alone", f"{text}: choked, though the speed alone can meet the target{limits}")
        ref.set(n, [0.0] * len(rec))
        least = [ref.common_least(n)] if kind == "COMMON_ASV" else ref.individual(n, lambda i, a, b: a)
        least_recirculation(ctx, train, rec, least, text + limits, kind, loose=True)
        ctx.obs("possible")
        return
    if close(target, p_lo, lim) or close(target, p_hi, lim):
        ctx.obs("set aside: at the limit")
        return
    ctx.obs("possible")
    ctx.obs("pressure control: " + kind)
    ctx.close(n, n_lo, "solution", f"{text}: speed of a solution with pressure control{limits}", rel=1e-4)
    if kind == "DOWNSTREAM_CHOKE":
        least = ref.individual(n, lambda i, a, b: a)
        least_recirculation(ctx, train, rec, least, text + limits, kind)
        ctx.require(choke > 0, "solution", f"{text}: no choking{limits}")
    elif kind == "UPSTREAM_CHOKE":
        ctx.require(choke > 0, "solution", f"{text}: no choking{limits}")
        least = ref.individual(n, lambda i, a, b: a, choke)
        least_recirculation(ctx, train, rec, least, text + limits, kind)
    elif kind == "INDIVIDUAL_ASV_RATE":
        bounds = []
        ref.individual(n, lambda i, a, b: (bounds.append((a, b)), rec[i])[1])
        f = [(r - a) / (b - a) for r, (a, b) in zip(rec, bounds) if b - a > 1.0]
        if len(f) > 1:
            ctx.require(max(f) - min(f) < 1e-3, "equal fraction", f"{text}: stages recirculate {f} of what they can{limits}")
        ctx.obs("equal fraction")
    elif kind == "INDIVIDUAL_ASV_PRESSURE":
        k = len(rec)
        ratio = (target / train.inlet.P) ** (1 / k)
        for i, (_, o) in enumerate(seen):
            ctx.close(o.P, train.inlet.P * ratio ** (i + 1), "equal pressure ratio", f"{text}: pressure after stage {i}{limits}", rel=REL)


def least_recirculation(ctx, train, rec, least, text, kind, loose=False):
    """loose: pressure control may trim the last thousandth of the pressure; the bisection for a common loop goes to a percent"""
    for i, (r, a) in enumerate(zip(rec, least)):
        ctx.obs("least recirculation")
        scale = train.inlet.std + a
        tol = (2e-2 if kind == "COMMON_ASV" else 3e-3 if loose else 1e-5) * scale + 1.0
        if not -1e-5 * scale - 1.0 <= r - a <= tol:
            ctx.violation("least recirculation", f"{text}: loop {i} recirculates {r}, the least is {a}")


def case(ctx):
    from libecalc.process.process_solver.float_constraint import FloatConstraint

    warnings.simplefilter("ignore")
    rng = ctx.rng
    service = fn.fresh()
    control = rng.choice(TYPES + ["COMMON_ASV", "INDIVIDUAL_ASV_RATE", "INDIVIDUAL_ASV_PRESSURE", "COMMON_ASV", "UPSTREAM_CHOKE"])
    # machines that are too large recirculate: an upstream choke then changes how much
    large = rng.random() < (0.7 if control == "UPSTREAM_CHOKE" else 0.15)
    train = random_train(rng, control=control, size=rng.uniform(1.2, 2.0) if large else 1.0)
    ctx.note(kind=train.control, stages=[(s.T, s.dp, s.scrub, s.margin, s.offtake, s.curves) for s in train.stages], inlet=str(train.inlet))
    ref = System(train, service)
    lo, hi = train.speeds
    if lo >= hi:
        return
    top = attempt(ref.minimum, hi)
    targets, low = [], None
    if isinstance(top, Exception):
        targets = [("full speed impossible", rng.uniform(train.inlet.P * 1.1, train.rough))]
    else:
        p_hi = top[2].P
        low = lowest_speed(ref, lo, hi)
        p_lo = low[1][2].P
        for what in rng.sample(["between", "between", "below", "below", "just below", "above", "at full speed", "at lowest speed", "a hair below"] + ["below", "just below"] * (2 * large), 3):
            t = {
                "between": rng.uniform(p_lo, p_hi), "below": p_lo * rng.uniform(0.6, 0.99), "just below": p_lo * rng.uniform(0.97, 0.995),
                "above": p_hi * rng.uniform(1.005, 1.3), "at full speed": p_hi, "at lowest speed": p_lo, "a hair below": p_lo - 10 ** rng.uniform(-3.0, -1.5),
            }[what]
            targets.append((what, t))
    one = System(train, service)
    for what, t in targets:
        sol = one.solver.find_solution([FloatConstraint(t)], one.inlet)
        plain = one.plain(sol.configuration)
        # a system that has not solved anything before says the same
        new = System(train, service)
        other = new.solver.find_solution([FloatConstraint(t)], new.inlet)
        ctx.require((type(other.failure), new.plain(other.configuration)) == (type(sol.failure), plain), "history", f"{train.control}: target {t} ({what}) is answered with {plain} {sol.failure} after other targets, with {new.plain(other.configuration)} {other.failure} on a new system")
        certificate(ctx, train, t, sol, plain, what, ref, top, low)
        ctx.distinct(repr((train.control, train.inlet.P, t)))
