"""P27 several sections in a row: each meets its own pressure, sections on one shaft share its speed, and a failure has a reason."""

from __future__ import annotations

import warnings
from dataclasses import replace

from vf import fakeneqsim as fn
from vf.checks.p25 import REL, attempt, control_range, least_recirculation, stage_targets_reachable
from vf.streams import S
from vf.trains import System, Train, on_one_shaft, random_train, split, stream

CASES = {"quick": 480, "thorough": 6000}
RULE = "random trains cut into sections with their own target pressure and pressure control, on one shaft, on a shaft each, or with equal pressure ratios; targets solved one after the other; distinct by train and targets"
MIN_OBS = {"one shaft: solved": 60, "one shaft: refused": 40, "one speed": 60, "section target": 250, "governing section": 60, "pressure control": 30, "own shafts: solved": 40, "own shafts: refused": 20, "equal ratio": 20, "history": 200, "placement": 20}
ASSUMPTIONS = [
    "the thermodynamic package is replaced by an analytic stand-in with NeqSim's interface",
    "a section on its own is solved as P25 has it; here only how sections are put together is judged",
    "sections on one shaft run at the highest speed any of them needs, found going down the train with every section at its own speed",
]
CASE_TIMEOUT = {"quick": 120, "thorough": 120}


def setup(tier):
    fn.install()


def controls(rng, k):
    out = []
    for i in range(k):
        kinds = ["COMMON_ASV", "INDIVIDUAL_ASV_RATE", "INDIVIDUAL_ASV_PRESSURE"]
        if i == 0:
            kinds += ["UPSTREAM_CHOKE"] * 2
        if i == k - 1:
            kinds += ["DOWNSTREAM_CHOKE"] * 3
        out.append(rng.choice(kinds))
    return out


def pressures_at(trains, service, f, shared):
    """outlet pressure of each section with the least recirculation, at a fraction of the speed range"""
    systems = on_one_shaft(trains, service) if shared else [System(t, service) for t in trains]
    inlet, out = trains[0].inlet, []
    for sy in systems:
        b = sy.system.pipeline_section.get_speed_boundary()
        if b.min >= b.max:
            return None
        sy.inlet = stream(service, inlet)
        r = attempt(sy.minimum, b.min + f * (b.max - b.min))
        if isinstance(r, Exception):
            return None
        inlet = r[2]
        out.append(inlet.P)
    return out


def run_sections(systems, inlet, plains):
    """-> inlet and outlet of each section, or the error"""
    out, s = [], inlet
    for sy, (n, rec, choke) in zip(systems, plains):
        r = attempt(sy.at, n, rec, choke, s)
        if isinstance(r, Exception):
            return r
        o = stream(sy.service, r[1])
        out.append((S.of(s), r[1], r[0]))
        s = o
    return out


def split_configuration(ctx, systems, sol, shared):
    """the solution by section; each setting once"""
    ids = [c.configuration_handler_id for c in sol.configuration]
    ctx.require(len(set(ids)) == len(ids), "one speed", f"settings given more than once: {ids}")
    known = {h for sy in systems for h in [sy.shaft.get_id(), *[l.get_id() for l in sy.loops], *([sy.choke.get_id()] if sy.choke else [])]}
    ctx.require(set(ids) <= known, "one speed", "settings for something not in the train")
    out = []
    for sy in systems:
        mine = {sy.shaft.get_id(), *[l.get_id() for l in sy.loops], *([sy.choke.get_id()] if sy.choke else [])}
        out.append(sy.plain([c for c in sol.configuration if c.configuration_handler_id in mine]))
    return out


def alone(trains, service, targets, shared):
    """each section solved by itself going down the train -> [(train with its inlet, solution, plain)], stops at a failure"""
    from libecalc.process.process_solver.float_constraint import FloatConstraint

    out, inlet = [], trains[0].inlet
    for i, (t, p) in enumerate(zip(trains, targets)):
        sy = (on_one_shaft(trains, service)[i] if shared else System(t, service))
        sol = sy.solver.find_solution([FloatConstraint(p)], stream(service, inlet))
        plain = sy.plain(sol.configuration)
        out.append((replace(t, inlet=inlet), sol, plain))
        if not sol.success:
            break
        r = attempt(sy.at, *plain, stream(service, inlet))
        if isinstance(r, Exception):
            break
        inlet = r[1]
    return out


def one_shaft(ctx, trains, service, targets, sol, plains, text):
    ref = alone(trains, service, targets, True)
    failed = next((s.failure for _, s, _ in ref if not s.success), None)
    failure = type(sol.failure).__name__ if sol.failure else None
    if failed is not None:
        ctx.obs("one shaft: refused")
        ctx.require(failure == type(failed).__name__, "one shaft: refused", f"{text}: section {len(ref)} of {len(trains)} alone says {failed}, the train {sol.failure or 'is solved'}")
        return
    if len(ref) < len(trains):
        ctx.obs("set aside: a section does not run with its own solution")
        return
    speeds = [p[0] for _, _, p in ref]
    n = max(speeds)
    systems = on_one_shaft(trains, service)
    if sol.success:
        ctx.obs("one shaft: solved")
        got = {p[0] for p in plains}
        ctx.obs("one speed")
        ctx.require(len(got) == 1, "one speed", f"{text}: speeds {got}")
        ctx.close(got.pop(), n, "governing section", f"{text}: sections need {speeds}", rel=2e-4)
        ctx.obs("governing section")
        r = run_sections(systems, stream(service, trains[0].inlet), plains)
        ctx.require(not isinstance(r, Exception), "section target", f"{text}: the train does not run with the settings of the solution {plains}: {r}")
        for i, (t, p, (inlet, out, seen), plain, sy) in enumerate(zip(trains, targets, r, plains, systems)):
            ctx.obs("section target")
            kind = t.control
            trimmed = kind == "DOWNSTREAM_CHOKE" and plain[2] > 0
            ctx.close(out.P, p, "section target", f"{text}: pressure after section {i} ({kind}) with {plain}", rel=1e-6 if trimmed else REL, abs_=2e-3)
            ctx.close(out.mass, inlet.mass - sum(s.offtake for s in t.stages) * inlet.sd / 24, "section target", f"{text}: mass after section {i}", rel=1e-9)
            ctx.require(all(x >= 0 for x in plain[1]) and plain[2] >= 0, "section target", f"{text}: section {i} set to {plain}")
            if kind == "COMMON_ASV":
                continue
            sy.inlet = stream(service, inlet)
            free = attempt(sy.minimum, plain[0])
            if isinstance(free, Exception):
                continue
            if free[2].P > p * (1 + 2 * REL) + 0.01:
                ctx.obs("pressure control")
                least = attempt(sy.individual, plain[0], lambda i, a, b: a, plain[2] if kind == "UPSTREAM_CHOKE" else 0.0)
                if kind.endswith("CHOKE"):
                    ctx.require(plain[2] > 0, "pressure control", f"{text}: section {i} not choked, though it would give {free[2].P} for {p}")
                    least_recirculation(ctx, replace(t, inlet=inlet), plain[1], least, f"{text}: section {i} {plain}", kind)
        return
    # each section can do its part alone: at the common speed one of them must be unable to bring the pressure down
    inlet, reason = trains[0].inlet, None
    for i, (t, p, sy) in enumerate(zip(trains, targets, systems)):
        sy.inlet, sy.train = stream(service, inlet), replace(t, inlet=inlet)
        free = attempt(sy.minimum, n)
        if isinstance(free, Exception):
            reason = f"section {i}: {free}"
            break
        if isinstance(attempt(sy.minimum, n * (1 - 1e-4)), Exception):
            reason = "at the limit"  # the lowest speed at which the section takes the rate: a stream a hair off is too much
            break
        if abs(free[2].P - p) <= 1e-2 * p:
            reason = "at the limit" if free[2].P >= p else None  # pressure control may not reach so little
            if reason is None and t.control == "COMMON_ASV":
                reason = "least recirculation is found to a percent"
            if reason:
                break
            inlet = replace_pressure(free[2], p)
            continue
        if free[2].P < p:
            reason = f"section {i} gives {free[2].P} only"
            break
        if t.control == "INDIVIDUAL_ASV_PRESSURE":
            ok = stage_targets_reachable(sy, n, p)
        else:
            low = control_range(sy, n, free[2].P, free[0])
            ok = low is not None and p > low * (1 + 2 * REL) + 0.01
        if not ok:
            reason = f"section {i} cannot bring {free[2].P} down to {p}"
            break
        inlet = replace_pressure(free[2], p)
    if reason == "at the limit":
        ctx.obs("set aside: at the limit")
        return
    ctx.obs("one shaft: refused")
    ctx.require(reason is not None, "one shaft: refused", f"{text}: sections need {speeds} and can all bring their pressure down at {n}, but: {sol.failure}")


def replace_pressure(s: S, p):
    return S(s.model, p, s.T, s.mass)


def own_shafts(ctx, trains, service, targets, sol, plains, text):
    ref = alone(trains, service, targets, False)
    failed = next((s.failure for _, s, _ in ref if not s.success), None)
    if failed is None and len(ref) < len(trains):
        ctx.obs("set aside: a section does not run with its own solution")
        return
    ctx.obs("own shafts: refused" if failed else "own shafts: solved")
    ctx.require(type(sol.failure) is type(failed), "own shafts: refused", f"{text}: section by section {failed or 'solved'}, the train {sol.failure or 'is solved'}")
    for i, ((t, _, want), got) in enumerate(zip(ref, plains)):
        text2 = f"{text}: section {i}: {got}, alone {want}"
        ctx.close(got[0], want[0], "own shafts: solved", text2, rel=1e-6)
        ctx.close_list(list(got[1]), list(want[1]), "own shafts: solved", text2, rel=1e-4, abs_=1.0)
        ctx.close(got[2], want[2], "own shafts: solved", text2, rel=1e-4, abs_=1e-4)
        if not failed:
            ctx.obs("section target")
            r = attempt(System(t, service).at, *got, stream(service, t.inlet))
            ctx.require(not isinstance(r, Exception), "section target", f"{text2}: does not run: {r}")
            ctx.close(r[1].P, targets[i], "section target", text2, rel=REL, abs_=2e-3)


def placement(ctx, trains, service):
    """a choke anywhere but at the ends of the train is refused"""
    from libecalc.common.errors.ecalc_validation_error import EcalcValidationException
    from libecalc.process.process_solver.multi_pressure_solver import MultiPressureSolver
    from libecalc.process.process_solver.pipeline_section import Pipeline

    rng = ctx.rng
    k = len(trains)
    kinds = [rng.choice(["COMMON_ASV", "INDIVIDUAL_ASV_RATE", "INDIVIDUAL_ASV_PRESSURE", "UPSTREAM_CHOKE", "DOWNSTREAM_CHOKE"]) for _ in range(k)]
    bad = any((c == "UPSTREAM_CHOKE" and i > 0) or (c == "DOWNSTREAM_CHOKE" and i < k - 1) for i, c in enumerate(kinds))
    systems = on_one_shaft([replace(t, control=c) for t, c in zip(trains, kinds)], service)
    try:
        MultiPressureSolver(Pipeline([s.system.pipeline_section for s in systems]))
        refused = False
    except EcalcValidationException:
        refused = True
    ctx.obs("placement")
    ctx.require(refused == bad, "placement", f"sections controlled by {kinds} are {'refused' if refused else 'accepted'}")
    for wrong in (systems[:1], [System(t, service) for t in trains]):
        try:
            MultiPressureSolver(Pipeline([s.system.pipeline_section for s in wrong]))
        except EcalcValidationException:
            continue
        if not any((s.train.control == "UPSTREAM_CHOKE" and i > 0) for i, s in enumerate(wrong)):
            ctx.violation("placement", f"{len(wrong)} section(s) {'on a shaft each' if len(wrong) > 1 else ''} accepted as sections on one shaft")


def case(ctx):
    from libecalc.process.process_solver.float_constraint import FloatConstraint
    from libecalc.process.process_solver.multi_pressure_solver import MultiPressureSolver
    from libecalc.process.process_solver.multi_shaft_equal_ratio_solver import MultiShaftEqualRatioSolver
    from libecalc.process.process_solver.multi_shaft_solver import MultiShaftSolver
    from libecalc.process.process_solver.pipeline_section import Pipeline

    warnings.simplefilter("ignore")
    rng = ctx.rng
    service = fn.fresh()
    mode = rng.choice(["one shaft", "one shaft", "one shaft", "own shafts", "equal ratio"])
    whole = random_train(rng, stages=rng.choice([2, 2, 3, 3, 4]))
    k = 2 if len(whole.stages) == 2 else rng.choice([2, 3])
    kinds = controls(rng, k) if mode == "one shaft" else [rng.choice(["COMMON_ASV", "INDIVIDUAL_ASV_RATE", "INDIVIDUAL_ASV_PRESSURE", "UPSTREAM_CHOKE", "DOWNSTREAM_CHOKE"]) for _ in range(k)]
    trains = split(rng, whole, k, kinds)
    shared = mode == "one shaft"
    ctx.note(mode=mode, kinds=kinds, inlet=str(whole.inlet), stages=[[(s.T, s.dp, s.scrub, s.margin, s.offtake) for s in t.stages] for t in trains])
    if not shared and any(t.speeds[0] >= t.speeds[1] for t in trains) or whole.speeds[0] >= whole.speeds[1]:
        return
    if shared and ctx.index % 3 == 0:
        placement(ctx, trains, service)

    def build():
        systems = on_one_shaft(trains, service) if shared else [System(t, service) for t in trains]
        sections = [s.system.pipeline_section for s in systems]
        solver = MultiPressureSolver(Pipeline(sections)) if shared else (MultiShaftSolver if mode == "own shafts" else MultiShaftEqualRatioSolver)(sections)
        return systems, solver

    systems, solver = build()
    for _ in range(2):
        base = pressures_at(trains, service, rng.uniform(0.1, 0.95), shared)
        if base is None:
            base, q = [], whole.inlet.P
            for t in trains:
                q *= rng.uniform(1.3, 2.5)
                base.append(q)
        spread = rng.choice([0.0, 0.02, 0.1])
        targets = [p * (1 - rng.uniform(-0.01, spread)) for p in base]
        if mode == "equal ratio":
            # one target: the sections share the pressure ratio
            targets = [whole.inlet.P * (targets[-1] / whole.inlet.P) ** ((i + 1) / k) for i in range(k)]
            ask = [FloatConstraint(targets[-1])]
            ctx.obs("equal ratio")
        else:
            ask = [FloatConstraint(p) for p in targets]
        text = f"{mode}, sections {[(len(t.stages), t.control) for t in trains]}, targets {targets}"
        inlet = stream(service, whole.inlet)
        sol = solver.find_solution(ask, inlet)
        plains = split_configuration(ctx, systems, sol, shared)
        new, other = build()
        osol = other.find_solution(ask, inlet)
        oplains = split_configuration(ctx, new, osol, shared)
        ctx.obs("history")
        ctx.require((type(osol.failure), oplains) == (type(sol.failure), plains), "history", f"{text}: {plains} {sol.failure} after other targets, {oplains} {osol.failure} on a new train")
        if shared:
            one_shaft(ctx, trains, service, targets, sol, plains, text)
        else:
            own_shafts(ctx, trains, service, targets, sol, plains, text)
        ctx.distinct(text)
