"""P26 the fluid service: what the thermodynamic package answers, whatever was asked before; conversions; liquid removal."""

from __future__ import annotations

import dataclasses
import math
import threading

from vf import fakeneqsim as fn
from vf.fluids import FIELDS, random_fluid

CASES = {"quick": 1600, "thorough": 40000}
RULE = (
    "random histories of flashes, liquid removals, conversions and failing flashes over several compositions and equations of "
    "state, with random cache sizes, also from several threads, every answer compared with the thermodynamic package asked "
    "directly; distinct by the history"
)
MIN_OBS = {
    "pt-flash": 3000, "ph-flash": 2000, "remove-liquid": 500, "rate-conversion": 1500, "failed-flash": 150, "cache-size": 3000,
    "threads": 500, "cached answer asked again": 1000, "stream": 500, "lru": 3000,
}
ASSUMPTIONS = [
    "the thermodynamic package is replaced by an analytic stand-in with NeqSim's interface (no jar or JVM is available offline): "
    "what eCalc asks and how it uses and caches the answers is monitored, not NeqSim's thermodynamics"
]
PROPS = ("temperature_kelvin", "pressure_bara", "density", "enthalpy_joule_per_kg", "z", "kappa", "vapor_fraction_molar", "molar_mass", "standard_density")


def setup(tier):
    fn.install()


def want(model, s):
    return dict(
        temperature_kelvin=s.T, pressure_bara=s.P, density=s.density, enthalpy_joule_per_kg=s.h, z=s.z, kappa=s.kappa,
        vapor_fraction_molar=s.v, molar_mass=s.m, standard_density=fn.standard_density(model),
    )


def compare(ctx, got, exp, mechanism, text, rel=1e-6):
    ctx.obs(mechanism)
    for k in PROPS:
        g, w = getattr(got, k), exp[k]
        tol = rel * max(abs(w), 1.0) if k != "enthalpy_joule_per_kg" else max(0.05, 1e-5 * abs(w))
        if not abs(g - w) <= tol:
            ctx.violation(mechanism, f"{text}: {k} is {g}, the thermodynamic package says {w}")


def lru(ctx):
    """the cache by itself: a bounded map that forgets the least recently used entry first"""
    from collections import OrderedDict

    from ecalc_neqsim_wrapper.cache_service import LRUCache

    rng = ctx.rng
    size = rng.choice([0, 1, 2, 3, 5, 8])
    c, ref = LRUCache(size), OrderedDict()
    hits = misses = evictions = 0
    log = []
    for _ in range(rng.choice([20, 60, 200])):
        k = rng.randrange(12)
        op = rng.random()
        if op < 0.5:
            v = rng.randrange(1000)
            log.append(("put", k, v))
            c.put(k, v)
            if size:
                ref[k] = v
                ref.move_to_end(k)
                while len(ref) > size:
                    ref.popitem(last=False)
                    evictions += 1
        elif op < 0.98:
            log.append(("get", k))
            got = c.get(k)
            if k in ref:
                ref.move_to_end(k)
                hits += 1
            else:
                misses += 1
            ctx.require(got == ref.get(k), "lru", f"get({k}) gave {got}, expected {ref.get(k)}", size=size, log=log)
        else:
            log.append(("clear",))
            c.clear()
            ref.clear()
            hits = misses = evictions = 0
        ctx.require(len(c) == len(ref) <= size, "cache-size", f"{len(c)} entries, expected {len(ref)} (limit {size})", log=log)
    st = c.get_stats()
    ctx.require(
        (st["hits"], st["misses"], st["evictions"], st["size"], st["max_size"]) == (hits, misses, evictions, len(ref), size),
        "cache-statistics", f"statistics {st}, expected hits {hits} misses {misses} evictions {evictions} size {len(ref)}", log=log,
    )
    ctx.distinct(("lru", size, repr(log)))


def threads(ctx):
    """the same questions from several threads, with small caches"""
    from ecalc_neqsim_wrapper.cache_service import CacheConfig, CacheName, CacheService

    rng = ctx.rng
    ref_size, flash_size = rng.choice([1, 2, 50]), rng.choice([1, 3, 50])
    s = fn.fresh(CacheConfig(reference_fluid_max_size=ref_size, flash_max_size=flash_size))
    models = [random_fluid(rng) for _ in range(3)]
    jobs = []
    for _ in range(4):
        jobs.append([(rng.choice(models), rng.choice([5.0, 30.0, 80.0]), rng.choice([290.0, 310.0])) for _ in range(15)])
    out, errors = [[] for _ in jobs], []

    def work(i):
        try:
            for m, p, t in jobs[i]:
                a = s.flash_pt(m, p, t)
                b = s.flash_ph(m, p, a.enthalpy_joule_per_kg)
                out[i].append((a, b))
        except Exception as e:  # noqa: BLE001 - judged below
            errors.append(e)

    ts = [threading.Thread(target=work, args=(i,)) for i in range(len(jobs))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    ctx.require(not errors, "threads", f"a flash from one of {len(ts)} threads failed: {errors[:1]!r}")
    for job, answers in zip(jobs, out):
        for (m, p, t), (a, b) in zip(job, answers):
            compare(ctx, a, want(m, fn.state(m, p, t)), "threads", f"PT flash at {p} bara, {t} K")
            ctx.close(b.temperature_kelvin, t, "threads", "temperature found by the PH flash", rel=1e-6)
    for name, size in ((CacheName.REFERENCE_FLUID, ref_size), (CacheName.FLUID_SERVICE_FLASH, flash_size)):
        ctx.require(len(CacheService.get_cache(name)) <= size, "cache-size", f"{name} holds more than {size}")
    ctx.distinct(repr(jobs))


def history(ctx):
    from ecalc_neqsim_wrapper.cache_service import CacheConfig, CacheName, CacheService
    from ecalc_neqsim_wrapper.exceptions import NeqsimFlashCalculationError
    from libecalc.process.fluid_stream.fluid import Fluid

    rng = ctx.rng
    ref_size, flash_size = rng.choice([0, 1, 2, 512]), rng.choice([0, 1, 3, 20, 100000])
    default = rng.random() < 0.3
    s = fn.fresh(None if default else CacheConfig(reference_fluid_max_size=ref_size, flash_max_size=flash_size))
    if default:
        ref_size, flash_size = 512, 100000
    models = [random_fluid(rng) for _ in range(rng.choice([1, 2, 4]))]
    if rng.random() < 0.5:  # the same composition under another equation of state, and nearly the same composition
        other = rng.choice([e for e in type(models[0].eos_model) if e != models[0].eos_model])
        models.append(dataclasses.replace(models[0], eos_model=other))
    if rng.random() < 0.3:
        d = dataclasses.asdict(models[0].composition)
        tot = sum(d.values())
        d["methane"] += rng.choice([1e-6, 1e-4]) * tot
        models.append(dataclasses.replace(models[0], composition=type(models[0].composition)(**d)))
    if rng.random() < 0.3:  # the same composition, not normalised the same way
        d = {k: 3.7 * v for k, v in dataclasses.asdict(models[0].composition).items()}
        models.append(dataclasses.replace(models[0], composition=type(models[0].composition)(**d)))
    log = []
    ctx.note(models=[repr(m) for m in models], cache=(ref_size, flash_size), log=log)
    asked = []
    for _ in range(rng.choice([6, 15, 30])):
        m = rng.choice(models)
        kind = rng.random()
        p = rng.choice([1.01325, rng.uniform(1.5, 10), rng.uniform(10, 200), rng.uniform(200, 500)])
        t = rng.uniform(265, 430)
        if asked and kind < 0.25:  # the same question again, or one that is nearly the same
            how, m, p, x = rng.choice(asked)
            if rng.random() < 0.4:
                d = rng.choice([1e-4, 1e-3, 0.01])
                if rng.random() < 0.5:
                    p += d
                else:
                    x += d * (1000 if how == "ph" else 1)
            else:
                ctx.obs("cached answer asked again")
            log.append((how, models.index(m), p, x))
            if how == "pt":
                compare(ctx, s.flash_pt(m, p, x), want(m, fn.state(m, p, x)), "pt-flash", f"PT flash at {p} bara, {x} K")
            else:
                guess = rng.choice([None, 300.0, 380.0])
                compare(ctx, s.flash_ph(m, p, x, guess), want(m, fn.state_ph(m, p, x)), "ph-flash", f"PH flash at {p} bara, {x} J/kg")
        elif kind < 0.5:
            log.append(("pt", models.index(m), p, t))
            asked.append(("pt", m, p, t))
            got = s.flash_pt(m, p, t) if rng.random() < 0.6 else s.create_fluid(m, p, t).properties
            compare(ctx, got, want(m, fn.state(m, p, t)), "pt-flash", f"PT flash at {p} bara, {t} K")
        elif kind < 0.68:
            h = fn.state(m, p, t).h
            log.append(("ph", models.index(m), p, h))
            asked.append(("ph", m, p, h))
            guess = rng.choice([None, t, t + 60, t - 60])
            compare(ctx, s.flash_ph(m, p, h, guess), want(m, fn.state_ph(m, p, h)), "ph-flash", f"PH flash at {p} bara, {h} J/kg")
        elif kind < 0.78:
            log.append(("remove", models.index(m), p, t))
            fluid = s.create_fluid(m, p, t)
            st = fn.state(m, p, t)
            if st.v < 1e-3:
                ctx.obs("set aside: all liquid")
                continue
            gas = s.remove_liquid(fluid)
            ctx.obs("remove-liquid")
            if st.v >= 0.9999:
                ctx.require(gas == fluid, "remove-liquid", f"removing liquid from a gas (vapour fraction {st.v}) changed it")
                ctx.obs("nothing to remove")
            else:
                ctx.obs("liquid removed")
                comp = fn.ecalc_comp(gas.composition)
                d = dict(st.gas)
                for n, x in comp:
                    ctx.close(x, d.get(n, 0.0), "remove-liquid", f"fraction of {n} in the gas", rel=1e-9, abs_=1e-12)
                ctx.require({n for n, x in st.gas if x > 0} == {n for n, _ in comp}, "remove-liquid", f"components of the gas {comp}, expected {st.gas}")
                ctx.require(gas.eos_model == m.eos_model, "remove-liquid", f"equation of state {gas.eos_model} instead of {m.eos_model}")
                g = gas.fluid_model
                compare(ctx, gas.properties, want(g, fn.state(g, p, t)), "remove-liquid", "the gas after removing liquid")
                ctx.require(gas.vapor_fraction_molar >= 0.9999, "remove-liquid", "there is liquid left")
        elif kind < 0.9:
            log.append(("rate", models.index(m)))
            rho = fn.standard_density(m)
            q = rng.choice([0.0, rng.uniform(1, 1e3), rng.uniform(1e3, 1e7)])
            ctx.close(s.standard_rate_to_mass_rate(m, q), q * rho / 24, "rate-conversion", "kg/h from Sm3/day", rel=1e-6)
            ctx.close(s.mass_rate_to_standard_rate(m, q), q * 24 / rho, "rate-conversion", "Sm3/day from kg/h", rel=1e-6)
            ctx.close(s.mass_rate_to_standard_rate(m, s.standard_rate_to_mass_rate(m, q)), q, "rate-conversion", "there and back", rel=1e-12)
            a = s.create_stream_from_standard_rate(m, p, t, q)
            b = s.create_stream_from_mass_rate(m, p, t, q)
            st = fn.state(m, p, t)
            for stream, mass in ((a, q * rho / 24), (b, q)):
                compare(ctx, stream.fluid.properties, want(m, st), "stream", "the fluid of the stream")
                ctx.close(stream.mass_rate_kg_per_h, mass, "stream", "mass rate", rel=1e-6)
                ctx.close(stream.standard_rate_sm3_per_day, mass * 24 / rho, "stream", "standard rate", rel=1e-6)
                ctx.close(stream.volumetric_rate_m3_per_hour, mass / st.density, "stream", "actual rate", rel=1e-6)
                q2 = rng.uniform(0, 1e6)
                ctx.close(stream.with_standard_rate(q2).mass_rate_kg_per_h, q2 * rho / 24, "stream", "mass rate after setting the standard rate", rel=1e-6)
                ctx.close(stream.with_mass_rate(q2).standard_rate_sm3_per_day, q2 * 24 / rho, "stream", "standard rate after setting the mass rate", rel=1e-6)
        else:  # a flash that fails must fail as such, and leave nothing behind
            log.append(("failing", models.index(m), p, t))
            p = round(p, 3) + 0.0001234
            h = fn.state(m, p, t).h
            which = rng.choice(["tp", "ph"])
            with fn.failing(lambda sys_, kind: kind == which and sys_.P == p):
                for f in ([lambda: s.flash_pt(m, p, t)] if which == "tp" else [lambda: s.flash_ph(m, p, h), lambda: s.flash_ph(m, p, h, 350.0)]):
                    try:
                        got = f()
                    except NeqsimFlashCalculationError:
                        ctx.obs("failed-flash")
                    else:
                        ctx.violation("failed-flash", f"a failing {which} flash gave an answer: {got}")
            compare(ctx, s.flash_pt(m, p, t), want(m, fn.state(m, p, t)), "pt-flash", "the flash after one that failed")
            compare(ctx, s.flash_ph(m, p, h), want(m, fn.state_ph(m, p, h)), "ph-flash", "the flash after one that failed")
        for name, size in ((CacheName.REFERENCE_FLUID, ref_size), (CacheName.FLUID_SERVICE_FLASH, flash_size)):
            c = CacheService.get_cache(name)
            ctx.require(c is not None and len(c) <= size, "cache-size", f"{name} holds {len(c)} entries, the limit is {size}")
    ctx.distinct(repr(log))


def invalid(ctx):
    """a PH flash that ends somewhere else must not pass for an answer"""
    from ecalc_neqsim_wrapper.exceptions import NeqsimFlashCalculationError

    rng = ctx.rng
    s = fn.fresh()
    m = random_fluid(rng)
    p, t = rng.uniform(5, 200), rng.uniform(280, 400)
    h = fn.state(m, p, t).h
    off = rng.choice([-1, 1]) * rng.choice([0.5, 2.0, 20.0])
    real = fn.t_from_ph
    fn.t_from_ph = lambda *a: real(*a) + off
    try:
        try:
            got = s.flash_ph(m, p, h, rng.choice([None, 320.0]))
        except NeqsimFlashCalculationError:
            ctx.obs("failed-flash")
        else:
            ctx.violation("failed-flash", f"a PH flash that missed the enthalpy by {got.enthalpy_joule_per_kg - h} J/kg passed for an answer", p=p, t=t, off=off)
    finally:
        fn.t_from_ph = real
    compare(ctx, s.flash_ph(m, p, h), want(m, fn.state_ph(m, p, h)), "ph-flash", "the flash after one that missed")
    ctx.distinct(("invalid", p, t, off))


def case(ctx):
    r = ctx.rng.random()
    if r < 0.1:
        lru(ctx)
    elif r < 0.16:
        threads(ctx)
    elif r < 0.22:
        invalid(ctx)
    else:
        history(ctx)
