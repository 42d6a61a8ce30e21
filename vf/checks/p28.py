"""P28 stream distribution: nothing lost or made up between trains, overflow only of what a train cannot take, first setting that works."""

from __future__ import annotations

import warnings

from vf import fakeneqsim as fn
from vf.fluids import random_fluid
from vf.streams import S
from vf.trains import System, random_train, stream

CASES = {"quick": 400, "thorough": 6000}
RULE = "random networks of trains with known capacity (overflow in any direction), lists of settings with validity by train, and searches for the capacity of random compressor trains; distinct by network or train"
MIN_OBS = {"share": 400, "conserved": 120, "overflow": 120, "cyclic": 10, "no more than it takes": 120, "priority": 150, "no valid setting": 15, "individual": 60, "capacity": 12, "no excess": 15, "edge of capacity": 12, "overflow between trains": 6}
ASSUMPTIONS = [
    "the thermodynamic package is replaced by an analytic stand-in with NeqSim's interface",
    "a train overflows to at most one other",
]
CASE_TIMEOUT = {"quick": 120, "thorough": 120}


def setup(tier):
    fn.install()


class Item:
    """a train that takes up to its capacity, which may depend on the pressure of the stream"""

    def __init__(self, capacity, inlet):
        self.capacity, self.inlet, self.asked = capacity, inlet, []

    def get_excess_rate(self, inlet_stream):
        self.asked.append(S.of(inlet_stream))
        return max(0.0, inlet_stream.standard_rate_sm3_per_day - self.capacity)


def expected(names, shares, links, capacity):
    """rate of each train, by recursion from the train"""
    to = dict(links)
    memo = {}

    def arrives(x):
        if x not in memo:
            memo[x] = shares[x] + sum(excess(y) for y in names if to.get(y) == x)
        return memo[x]

    def excess(x):
        return max(0.0, arrives(x) - capacity[x]) if x in to else 0.0

    return {x: arrives(x) - excess(x) for x in names}, {x: arrives(x) for x in names}, {x: excess(x) for x in names}


def same_state(ctx, s, inlet, text):
    ctx.close(s.P, inlet.P, "share", f"{text}: pressure", rel=1e-12)
    ctx.close(s.T, inlet.T, "share", f"{text}: temperature", rel=1e-12)
    ctx.require(s.composition() == inlet.composition() if hasattr(s, "composition") else True, "share", f"{text}: composition")


def network(ctx):
    from libecalc.common.errors.ecalc_validation_error import EcalcValidationException
    from libecalc.process.stream_distribution.common_stream_distribution import CommonStreamDistribution, Overflow

    rng = ctx.rng
    service = fn.fresh()
    model = random_fluid(rng, wet=rng.random() < 0.3)
    inlet = S(model, rng.uniform(5, 80), rng.uniform(285, 330), 10 ** rng.uniform(3, 6))
    n = rng.randint(1, 6)
    names = [f"t{i}" for i in range(n)]
    order = names[:]
    rng.shuffle(order)  # overflow runs along this order, whatever the order of the trains
    links = []
    for i, x in enumerate(order[:-1]):
        if rng.random() < 0.7:
            links.append((x, rng.choice(order[i + 1:])))
    rng.shuffle(links)
    w = [rng.choice([0.0, rng.random(), rng.random()]) for _ in names]
    if not sum(w):
        w[0] = 1.0
    fractions = [x / sum(w) for x in w]
    capacity = {x: inlet.std * rng.choice([0.0, rng.uniform(0, 0.5), rng.uniform(0.2, 1.2), 1e9]) for x in names}
    items = {x: Item(capacity[x], inlet) for x in names}
    feed = stream(service, inlet)
    text = f"{n} trains, shares {fractions}, overflow {links}, capacity {[capacity[x] for x in names]}"
    made = CommonStreamDistribution(feed, items, fractions, [Overflow(a, b) for a, b in links], service)
    ctx.require(made.get_number_of_streams() == n, "share", f"{text}: {made.get_number_of_streams()} streams")
    shares = {x: f * inlet.std for x, f in zip(names, fractions)}
    want, arrives, excess = expected(names, shares, links, capacity)
    for turn in range(2):  # asking again gives the same
        got = [S.of(s) for s in made.get_streams()]
        ctx.require(len(got) == n, "share", f"{text}: {len(got)} streams")
        for x, g in zip(names, got):
            ctx.obs("share")
            ctx.close(g.std, want[x], "share", f"{text}: rate of {x}", rel=1e-9, abs_=1e-6 * max(1.0, inlet.std * 1e-3))
            same_state(ctx, g, inlet, f"{text}: {x}")
            if excess[x]:
                ctx.obs("overflow")
            if x in dict(links):
                ctx.obs("no more than it takes")
                ctx.require(g.std <= capacity[x] * (1 + 1e-9) + 1e-6, "no more than it takes", f"{text}: {x} gets {g.std}, takes {capacity[x]}")
        ctx.obs("conserved")
        ctx.close(sum(g.std for g in got), inlet.std, "conserved", f"{text}: total", rel=1e-9)
        ctx.close(sum(g.mass for g in got), inlet.mass, "conserved", f"{text}: total mass", rel=1e-9)
    for x in names:
        for q in items[x].asked:
            ctx.close(q.std, arrives[x], "overflow", f"{text}: rate {x} was asked about", rel=1e-9, abs_=1e-6 * max(1.0, inlet.std * 1e-3))
            same_state(ctx, q, inlet, f"{text}: {x}")
    # a circle is refused
    if links and rng.random() < 0.5:
        to = dict(links)
        a = b = links[0][0]
        while b in to:
            b = to[b]
        try:
            CommonStreamDistribution(feed, items, fractions, [Overflow(*l) for l in [*links, (b, a)]], service)
        except EcalcValidationException:
            ctx.obs("cyclic")
        else:
            ctx.violation("cyclic", f"{text}: overflow in a circle through {(b, a)} is accepted")
    ctx.distinct(text)


def settings(ctx):
    from libecalc.process.stream_distribution.common_stream_distribution import CommonStreamDistribution, Overflow
    from libecalc.process.stream_distribution.individual_stream_distribution import IndividualStreamDistribution
    from libecalc.process.stream_distribution.priorities_stream_distribution import PrioritiesStreamDistribution

    rng = ctx.rng
    service = fn.fresh()
    model = random_fluid(rng, wet=False)
    n = rng.randint(1, 4)
    low, high = [rng.choice([0.0, rng.uniform(0, 3e5)]) for _ in range(n)], [rng.uniform(4e5, 1e6) for _ in range(n)]

    class Train:
        def __init__(self, i):
            self.i = i

        def is_valid(self, inlet_stream):
            return low[self.i] <= inlet_stream.standard_rate_sm3_per_day <= high[self.i]

    inlet = S(model, rng.uniform(5, 80), rng.uniform(285, 330), rng.uniform(1e5, 2e6) * fn.standard_density(model) / 24)
    feed = stream(service, inlet)
    choices, rates = [], []
    for _ in range(rng.randint(1, 5)):
        if rng.random() < 0.4:
            ss = [stream(service, S(model, rng.uniform(5, 80), rng.uniform(285, 330), rng.uniform(0, 1.2e6) * fn.standard_density(model) / 24)) for _ in range(n)]
            d = IndividualStreamDistribution(ss)
            out = d.get_streams()
            ctx.obs("individual")
            ctx.require(out == ss and d.get_number_of_streams() == n, "individual", f"streams {[str(S.of(s)) for s in ss]} come out as {[str(S.of(s)) for s in out]}")
            rates.append([S.of(s).std for s in ss])
        else:
            w = [rng.choice([0.0, rng.random(), rng.random()]) for _ in range(n)]
            w[rng.randrange(n)] += 0.1
            f = [x / sum(w) for x in w]
            links = [("0", "1")] if n > 1 and rng.random() < 0.5 else []
            cap = {str(i): high[i] * rng.choice([1.0, 0.5, 1.2]) for i in range(n)}
            d = CommonStreamDistribution(feed, {str(i): Item(cap[str(i)], inlet) for i in range(n)}, f, [Overflow(*l) for l in links], service)
            want = expected([str(i) for i in range(n)], {str(i): f[i] * inlet.std for i in range(n)}, links, cap)[0]
            rates.append(list(want.values()))
        choices.append(d)
    ok = [all(a <= r <= b for r, a, b in zip(rs, low, high)) for rs in rates]
    edge = any(abs(r - x) < 1e-6 * (1 + x) and r != x for rs in rates for r, a, b in zip(rs, low, high) for x in (a, b)) or any(abs(r - b) < 1e-6 * b for rs in rates for r, b in zip(rs, high))
    if edge:
        ctx.obs("set aside: on the limit")
        return
    first = ok.index(True) if True in ok else len(ok) - 1
    made = PrioritiesStreamDistribution(choices, [Train(i) for i in range(n)])
    ctx.require(made.get_number_of_streams() == n, "priority", f"{made.get_number_of_streams()} streams for {n} trains")
    got = [S.of(s).std for s in made.get_streams()]
    ctx.obs("priority" if True in ok else "no valid setting")
    for i, (g, w) in enumerate(zip(got, rates[first])):
        ctx.close(g, w, "priority" if True in ok else "no valid setting", f"settings {rates}, limits {list(zip(low, high))}: train {i}, setting {first} expected", rel=1e-9, abs_=1e-4)
    ctx.distinct(repr((rates, low)))


def capacity(ctx):
    from libecalc.process.process_solver.feasibility_solver import FeasibilitySolver
    from libecalc.process.process_solver.float_constraint import FloatConstraint

    rng = ctx.rng
    service = fn.fresh()
    train = random_train(rng, stages=rng.choice([1, 1, 2]), offtakes=False)
    lo, hi = train.speeds
    if lo >= hi:
        return
    text = f"{train.control}, {len(train.stages)} stages, inlet {train.inlet}"
    target = rng.uniform(train.inlet.P * 1.05, train.rough * rng.choice([0.7, 1.0, 1.0, 1.3]))

    def solves(rate):
        sy = System(train, service)
        return sy.solver.find_solution([FloatConstraint(target)], sy.inlet.with_standard_rate(rate)).success

    one = System(train, service)
    f = FeasibilitySolver(one.solver)
    for scale in rng.sample([0.3, 0.8, 1.0, 1.5, 3.0, rng.choice([10.0, 40.0, 200.0])], 2):
        full = train.inlet.std * scale
        excess = f.get_excess_rate(one.inlet.with_standard_rate(full), FloatConstraint(target))
        t = f"{text}, target {target}, rate {full}: excess {excess}"
        ctx.require(0 <= excess <= full * (1 + 1e-12), "capacity", t)
        fits = solves(full)
        ctx.require(fits == (excess == 0), "no excess", f"{t}; the train {'can' if fits else 'cannot'} take it all")
        ctx.obs("no excess")
        if fits:
            continue
        handled = full - excess if full - excess > 1e-9 * full else 0.0
        if handled:
            ctx.obs("capacity")
            # the rate handled is rounded when the excess is taken from the full rate
            ctx.require(solves(handled) or solves(handled * (1 - 1e-9)), "capacity", f"{t}; the train cannot take the {handled} left")
            if handled * (1 + 4e-4) + 2 < full:
                ctx.obs("edge of capacity")
                more = [handled * (1 + k * 1e-4) + k for k in (1.1, 2, 3, 4)]
                ctx.require(not all(solves(m) for m in more), "edge of capacity", f"{t}; the train can take {more[-1]}")
        else:
            ctx.obs("nothing handled")
            tries = [full * 0.5**k for k in range(1, 12)]
            ctx.require(not any(solves(m) for m in tries), "capacity", f"{t}; the train can take some of {tries}")
    ctx.distinct(text)


def trains(ctx):
    """two or three compressor trains sharing one inlet, overflow from one to the next"""
    from libecalc.process.process_solver.feasibility_solver import FeasibilitySolver
    from libecalc.process.process_solver.float_constraint import FloatConstraint
    from libecalc.process.stream_distribution.common_stream_distribution import CommonStreamDistribution, Overflow

    rng = ctx.rng
    service = fn.fresh()
    first = random_train(rng, stages=1, offtakes=False)
    target = rng.uniform(first.inlet.P * 1.1, first.rough * 0.95)
    made = [first] + [random_train(rng, stages=1, offtakes=False, model=first.inlet.model) for _ in range(rng.choice([1, 2]))]
    if any(t.speeds[0] >= t.speeds[1] for t in made):
        return
    names = [f"t{i}" for i in range(len(made))]
    rng.shuffle(names)

    class Item:
        def __init__(self, train):
            self.system = System(train, service)
            self.f = FeasibilitySolver(self.system.solver)

        def get_excess_rate(self, inlet_stream):
            return self.f.get_excess_rate(inlet_stream, FloatConstraint(target))

    items = {x: Item(t) for x, t in zip(names, made)}
    inlet = first.inlet
    w = [rng.uniform(0.2, 1) for _ in names]
    f = [x / sum(w) for x in w]
    d = CommonStreamDistribution(stream(service, inlet), items, f, [Overflow(a, b) for a, b in zip(names[::-1], names[::-1][1:])], service)
    got = [S.of(s).std for s in d.get_streams()]
    text = f"trains {[t.control for t in made]}, target {target}, shares {f}: rates {got} of {inlet.std}"
    ctx.obs("overflow between trains")
    ctx.close(sum(got), inlet.std, "conserved", text, rel=1e-9)
    for x, t, g, share in zip(names, made, got, f):
        if x == names[0]:
            continue  # takes what is left
        if g > 1e-9 * inlet.std:
            sy = System(t, service)
            ok = sy.solver.find_solution([FloatConstraint(target)], stream(service, inlet).with_standard_rate(g)).success or sy.solver.find_solution([FloatConstraint(target)], stream(service, inlet).with_standard_rate(g * (1 - 1e-9))).success
            ctx.require(ok, "no more than it takes", f"{text}: {x} cannot take its {g}")
    ctx.distinct(text)


def case(ctx):
    warnings.simplefilter("ignore")
    k = ctx.index % 8
    if k < 4:
        network(ctx)
        network(ctx)
    elif k < 6:
        for _ in range(3):
            settings(ctx)
    elif k == 6 or ctx.index % 16 < 8:
        capacity(ctx)
    else:
        trains(ctx)
