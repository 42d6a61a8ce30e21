"""P21 the comparison of two runs is the difference of what they are, at every date both have."""

from __future__ import annotations

import copy
import datetime as dt
import json
import math

from libecalc.common.errors.exceptions import EcalcError
from libecalc.common.time_utils import Frequency
from libecalc.infrastructure.file_utils import OutputFormat, get_result_output
from libecalc.presentation.simple_result import SimpleResultData
from vf import lab
from vf.refmodel import Model

CASES = {"quick": 480, "thorough": 12000}
RULE = "pairs of runs: a random whole-asset model and a change of it (time, consumers, fuels, loads, names) or another model; distinct by pair"
MIN_OBS = {
    "delta:difference": 40000, "delta:power": 1800, "delta:valid": 12000, "delta:emissions": 5000, "itself:difference": 40000, "inputs-kept": 180, "no overlap": 2, "different units": 6, "component in one run only": 800,
    "periods cut": 90, "periods split": 12, "power in one run only": 22, "resampled": 55, "simple output": 40, "change time": 40, "change kind": 10, "change remove": 50, "change rename": 30, "change order": 25, "change another": 18,
}
ASSUMPTIONS = []
FREQ = {"YEAR": Frequency.YEAR, "MONTH": Frequency.MONTH}


def consumers(m):
    for i in m["INSTALLATIONS"]:
        for g in i.get("GENERATORSETS") or []:
            yield g["CONSUMERS"]
        if i.get("FUELCONSUMERS"):
            yield i["FUELCONSUMERS"]
        if i.get("VENTING_EMITTERS"):
            yield i["VENTING_EMITTERS"]


def change(rng, m):
    m = copy.deepcopy(m)
    how = set()
    for _ in range(rng.choice([1, 2, 3])):
        h = rng.choice(["time", "time", "remove", "remove", "rename", "emission", "load", "order", "installation", "kind", "regularity"])
        if h == "time":
            d = dt.timedelta(days=rng.choice([-400, -1, 1, 30, 365, 366]))
            k = rng.choice(["START", "END"])
            new = m[k] + d
            a, b = (new, m["END"]) if k == "START" else (m["START"], new)
            if a < b:
                m[k] = new
                how.add(h)
        elif h == "remove":
            lists = [c for c in consumers(m) if len(c) > 1]
            if lists:
                c = rng.choice(lists)
                c.pop(rng.randrange(len(c)))
                how.add(h)
        elif h == "rename":
            c = rng.choice(list(consumers(m)))
            rng.choice(c)["NAME"] += "_other"
            how.add(h)
        elif h == "emission":
            f = rng.choice(m["FUEL_TYPES"])
            f.setdefault("EMISSIONS", [])
            if f["EMISSIONS"] and rng.random() < 0.5:
                e = rng.choice(f["EMISSIONS"])
                if rng.random() < 0.5:
                    e["FACTOR"] = rng.choice([0, 1, 3.5])
                else:
                    e["NAME"] = "zz_" + e["NAME"]
            else:
                f["EMISSIONS"].append({"NAME": rng.choice(["aa", "sox", "zz"]) + str(rng.randrange(9)), "FACTOR": 2})
            how.add(h)
        elif h == "load":
            for x in m["INSTALLATIONS"]:
                if "HCEXPORT" in x:
                    x["HCEXPORT"] = 5
            for c in consumers(m):
                for x in c:
                    u = x.get("ENERGY_USAGE_MODEL")
                    if isinstance(u, dict) and u.get("TYPE") == "DIRECT":
                        for k in ("LOAD", "FUELRATE", "FUEL_RATE"):
                            if k in u:
                                u[k] = rng.choice([0, 1, 7.5])
                                how.add(h)
        elif h == "order":
            m["INSTALLATIONS"].reverse()
            for c in consumers(m):
                rng.shuffle(c)
            how.add(h)
        elif h == "installation" and len(m["INSTALLATIONS"]) > 1:
            m["INSTALLATIONS"].pop(rng.randrange(len(m["INSTALLATIONS"])))
            how.add(h)
        elif h == "regularity":
            for x in m["INSTALLATIONS"]:
                x["REGULARITY"] = 0.5
            how.add(h)
        elif h == "kind":  # an electric consumer that becomes one of fuel, by the same name
            at = [(i, g) for i in m["INSTALLATIONS"] for g in i.get("GENERATORSETS") or [] if len(g["CONSUMERS"]) > 1 and "FUEL" in i]
            if at:
                i, g = rng.choice(at)
                c = g["CONSUMERS"].pop(rng.randrange(len(g["CONSUMERS"])))
                c.pop("ENERGY_USAGE_MODEL")
                c["ENERGY_USAGE_MODEL"] = {"TYPE": "DIRECT", "FUELRATE": 1000}
                i.setdefault("FUELCONSUMERS", []).append(c)
                how.add(h)
    return m, how


class Run:
    """what a result says, by component and date"""

    def __init__(self, result):
        self.result = result
        p = result.periods
        self.dates = [x.start for x in p] + [list(p)[-1].end]
        self.of = {}
        for c in result.components:
            per = list(c.periods)
            self.of[(str(c.componentType), c.name)] = dict(
                starts=[x.start for x in per], energy=list(c.energy_usage.values), unit=c.energy_usage.unit, power=None if c.power is None else list(c.power.values),
                valid=[bool(x) for x in c.is_valid.values], emissions={k: list(e.rate.values) for k, e in c.emissions.items()}, parent=c.parent, level=c.component_level)

    def at(self, c, t, what):
        i = max(j for j, s in enumerate(c["starts"]) if s <= t)
        return what[i]


def num(x):
    return 0.0 if x is None else float(x)


def plain(x):
    return 0.0 if x is None or math.isnan(x) else float(x)  # what is not a number is null in JSON


def same(a, b):
    return (math.isnan(a) and math.isnan(b)) or a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b))


def compare(ctx, ref: Run, chg: Run, out, tag):
    c_out, r_out, delta, errors = out
    lo, hi = max(ref.dates[0], chg.dates[0]), min(ref.dates[-1], chg.dates[-1])
    dates = sorted({d for d in ref.dates + chg.dates if lo <= d <= hi})
    for o in (c_out, r_out, delta):
        got = [p.start for p in o.periods] + [list(o.periods)[-1].end]
        ctx.require(got == dates, f"{tag}:periods", f"periods {got[:4]}.. are not the dates of both {dates[:4]}..")
    starts = dates[:-1]
    ids = sorted(set(ref.of) | set(chg.of))
    key = lambda c: (str(c.componentType), c.name)  # noqa: E731
    for o, what in ((c_out, "changed"), (r_out, "reference")):
        ctx.require(sorted(key(c) for c in o.components) == ids, f"{tag}:components", f"{what}: components {sorted(set(ids) ^ {key(c) for c in o.components})} not in both")
    odd = {i for i in ids if i in ref.of and i in chg.of and ref.of[i]["unit"] != chg.of[i]["unit"]}
    ctx.require(sorted(key(c) for c in delta.components) == [i for i in ids if i not in odd], f"{tag}:components", "components of the difference")
    ctx.require(len(errors) == len(odd) and all(any(i[1] in e for e in errors) for i in odd), f"{tag}:errors", f"errors {errors[:3]} for components of different units {sorted(odd)[:3]}")
    if odd:
        ctx.obs("different units")
    by = [{key(c): c for c in o.components} for o in (c_out, r_out, delta)]
    for i in ids:
        a, b = chg.of.get(i), ref.of.get(i)
        some = a or b
        names = sorted(set((a or some)["emissions"]) | set((b or some)["emissions"]))
        has_power = any(x is not None and x["power"] is not None for x in (a, b))
        for o, x, what in ((by[0], a, "changed"), (by[1], b, "reference")):
            c = o[i]
            ctx.require(sorted(c.emissions) == names, f"{tag}:emissions", f"{what} {i}: emissions {sorted(c.emissions)}, not {names}")
            for j, t in enumerate(starts):
                want = num(x and ref.at(x, t, x["energy"]))
                ctx.require(same(num(c.energy_usage[j]), want), f"{tag}:{what}", f"{i} energy at {t}: {c.energy_usage[j]} is not {want}")
                ctx.require(bool(c.is_valid[j]) == (True if x is None else ref.at(x, t, x["valid"])), f"{tag}:{what}", f"{i} valid at {t}")
                for n in names:
                    want = num(ref.at(x, t, x["emissions"][n])) if x and n in x["emissions"] else 0.0
                    ctx.require(same(num(c.emissions[n].rate[j]), want), f"{tag}:{what}", f"{i} {n} at {t}: {c.emissions[n].rate[j]} is not {want}")
                if x and x["power"] is not None:
                    want = num(ref.at(x, t, x["power"]))
                    ctx.require(same(num(c.power[j]), want), f"{tag}:{what}", f"{i} power at {t}: {c.power[j]} is not {want}")
            ctx.require(len(c.energy_usage) == len(c.is_valid) == len(starts), f"{tag}:length", f"{what} {i}")
        if a is None or b is None:
            ctx.obs("component in one run only")
        if i in odd:
            continue
        c = by[2][i]
        ctx.require(len(c.energy_usage) == len(c.is_valid) == len(starts) and all(len(e.rate) == len(starts) for e in c.emissions.values()), f"{tag}:length", f"difference of {i}")
        ctx.require(sorted(c.emissions) == names, f"{tag}:emissions", f"difference of {i}: emissions {sorted(c.emissions)}")
        ctx.require(not has_power or (c.power is not None and len(c.power) == len(starts)), f"{tag}:power", f"difference of {i}: power {c.power} where a run has power")
        if (a and a["power"] is None and b and b["power"] is not None) or (b and b["power"] is None and a and a["power"] is not None):
            ctx.obs("power in one run only")

        def diff(what, t, n=None):
            def v(x):
                if x is None:
                    return 0.0
                s = x[what] if n is None else x["emissions"].get(n)
                return num(ref.at(x, t, s)) if s is not None else 0.0

            return v(a) - v(b)

        for j, t in enumerate(starts):
            ctx.require(same(num(c.energy_usage[j]), diff("energy", t)), f"{tag}:difference", f"{i} energy at {t}: {c.energy_usage[j]} is not {diff('energy', t)}")
            if has_power:
                ctx.require(same(num(c.power[j]), diff("power", t)), f"{tag}:difference", f"{i} power at {t}: {c.power[j]} is not {diff('power', t)}")
            for n in names:
                ctx.require(same(num(c.emissions[n].rate[j]), diff("x", t, n)), f"{tag}:difference", f"{i} {n} at {t}: {c.emissions[n].rate[j]} is not {diff('x', t, n)}")
            want = all(ref.at(x, t, x["valid"]) for x in (a, b) if x is not None)
            ctx.require(bool(c.is_valid[j]) == want, f"{tag}:valid", f"{i} valid at {t}: {c.is_valid[j]}")
    ctx.obs("difference checked", len(ids))
    if len(dates) - 1 > max(len(ref.dates), len(chg.dates)) - 1:
        ctx.obs("periods split")
    if (ref.dates[0], ref.dates[-1]) != (chg.dates[0], chg.dates[-1]):
        ctx.obs("periods cut")


def case(ctx):
    rng = ctx.rng
    dated = rng.choice([0.0, 0.2])
    m, files = Model(rng, dated=dated).compose(n_inst=rng.choice([1, 2])).build(shuffle=False)
    if rng.random() < 0.12:
        m2, files2 = Model(rng, dated=dated).compose(n_inst=1).build(shuffle=False)
        if rng.random() < 0.8:  # bring it to the same time
            m2["START"], m2["END"] = m["START"], m["END"]
        how = {"another"}
    else:
        m2, how = change(rng, m)
        files2 = files
    ctx.note(yaml=lab.dump(m), files=files, changed=lab.dump(m2))
    results = []
    for a, f in ((m, files), (m2, files2)):
        try:
            results.append(lab.run(a, f)[1])
        except EcalcError:
            if a is m and how != {"another"}:
                raise
            ctx.obs("changed model refused")
            return
    if rng.random() < 0.3:
        f = rng.choice(list(FREQ))
        results[0] = results[0].resample(FREQ[f])
        if rng.random() < 0.7:
            results[1] = results[1].resample(FREQ[f])
        if any(len(r.periods) == 0 for r in results):
            return
        ctx.obs("resampled")
    for h in how:
        ctx.obs("change " + h)
    ref, chg = Run(results[0]), Run(results[1])
    rs, cs = SimpleResultData.from_dto(results[0]), SimpleResultData.from_dto(results[1])
    before = rs.model_dump_json(), cs.model_dump_json()
    if max(ref.dates[0], chg.dates[0]) >= min(ref.dates[-1], chg.dates[-1]):
        ctx.obs("no overlap")
        ctx.require(lab.refused(lambda: SimpleResultData.delta_profile(rs, cs)), "no-overlap", "runs without a common date were compared")
        return
    if rng.random() < 0.3:
        rng.shuffle(rs.components)
        rng.shuffle(cs.components)
        before = rs.model_dump_json(), cs.model_dump_json()
    out = SimpleResultData.delta_profile(reference_model=rs, changed_model=cs)
    compare(ctx, ref, chg, out, "delta")
    ctx.require((rs.model_dump_json(), cs.model_dump_json()) == before, "inputs-kept", "the runs compared were changed by the comparison")
    back = SimpleResultData.delta_profile(reference_model=cs, changed_model=rs)
    compare(ctx, chg, ref, back, "back")
    none = SimpleResultData.delta_profile(reference_model=rs, changed_model=rs)
    compare(ctx, ref, ref, none, "itself")
    ctx.distinct((tuple(sorted(how)), lab.dump(m)[:3000], lab.dump(m2)[-2000:]))
    ctx.sample({"changes": sorted(how), "components": len(ref.of), "dates": len(ref.dates)})
    if rng.random() < 0.2:
        text = get_result_output(results=results[0], output_format=OutputFormat.JSON, simple_output=True, date_format_option=1)
        d = json.loads(text)
        ctx.require(len(d["components"]) == len(ref.of), "simple-output", "components of the simple output")
        for c in d["components"]:
            x = ref.of[(c["componentType"], c["name"])]
            e = c["energyUsage"] if "energyUsage" in c else c["energy_usage"]
            ctx.close_list([num(v) for v in e], [plain(v) for v in x["energy"]], "simple-output", f"{c['name']} energy", rel=1e-9, abs_=1e-9)
            for n, s in x["emissions"].items():
                ctx.close_list([num(v) for v in c["emissions"][n]["rate"]], [plain(v) for v in s], "simple-output", f"{c['name']} {n}", rel=1e-9, abs_=1e-9)
        ctx.obs("simple output")
