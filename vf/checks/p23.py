"""P23 a result depends on what the model says: not on what ran before, on order, on names, on neighbours, on other time steps or on the way of writing."""

from __future__ import annotations

import contextlib
import copy
import csv
import datetime as dt
import io
import math
import os
import pickle
import subprocess
import sys

import yaml as pyyaml

from libecalc.common.errors.exceptions import EcalcError, EcalcErrorType
from libecalc.presentation.json_result.mapper import get_asset_result
from vf import fakeneqsim as fn
from vf import lab, mutate
from vf import legacy as L
from vf.refmodel import Model

CASES = {"quick": 450, "thorough": 12000}
RULE = "random whole-asset models and models of compressor trains, each run again after a change that must not change the result; distinct by model and change"
MIN_OBS = {
    "values": 1000000, "again": 90, "again of a train": 25, "files": 40, "names": 45, "neighbour": 45, "order": 45, "place": 40, "order of a train": 12, "process": 25, "refine": 45, "shorten": 40,
    "steps": 100, "steps of a train": 35, "twice": 40, "without": 20, "writing": 35, "writing of a train": 7,
}
ASSUMPTIONS = ["the thermodynamic package is replaced by an analytic stand-in with NeqSim's interface"]
DATE = dt.datetime


def setup(tier):
    fn.install()


# ------------------------------------------------------------------ results as plain data
class Result:
    """{(kind, level, name): {leaf: value or list}}, starts"""

    def __init__(self, res, rename=None):
        d = res.model_dump()
        self.names = {v: k for k, v in (rename or {}).items()}
        self.parts = {}
        comps = [d["component_result"], *d["sub_components"]]
        for c in comps:
            self.add(("component", str(c["component_level"]), self.back(c["name"])), c)
        for c in d["models"]:  # one for each energy usage model in time
            key = ("model", self.back(c.get("parent")), self.back(c["name"]), 0)
            while key in self.parts:
                key = (*key[:3], key[3] + 1)
            self.add(key, c)

    def back(self, s):
        return self.names.get(s, s) if isinstance(s, str) else s

    def add(self, key, c):
        assert key not in self.parts, key
        out = {}
        self.walk(c, (), out)
        self.parts[key] = out

    def walk(self, o, path, out):
        if isinstance(o, dict):
            if set(o) == {"periods"}:
                out[path] = ("periods", [(p["start"], p["end"]) for p in o["periods"]])
                return
            for k, v in o.items():
                if k == "id":
                    continue
                self.walk(v, (*path, self.back(k)), out)
        elif isinstance(o, list) and o and isinstance(o[0], dict):
            for i, v in enumerate(o):
                self.walk(v, (*path, self.back(v.get("name", i)) if isinstance(v.get("name"), str) else i), out)
        elif isinstance(o, list):
            out[path] = ("list", o)
        else:
            out[path] = ("one", self.back(o) if path and path[-1] in ("name", "parent") else o)

    def periods(self, key):
        p = self.parts[key].get(("periods",))
        return p[1] if p else None


def run(m, files, keep=None, where=None):
    """-> (verdict, result or message)"""
    with lab.scratch() if where is None else contextlib.nullcontext(where) as d:
        try:
            model = lab.load(lab.write_files(d, m, files)).validate_for_run()
            model.evaluate_energy_usage()
            res = get_asset_result(model)
        except EcalcError as e:
            if e.error_type != EcalcErrorType.CLIENT_ERROR:
                raise
            return "refused", str(e)
        if keep is not None:
            keep.append(model)
        return "ran", res


def other_numbers(rng, files):
    """the same files with other numbers"""
    out = {}
    for name, text in files.items():
        f = rng.uniform(0.9, 0.99)
        rows = [list(r) for r in rows_of(text)]
        for r in rows[1:]:
            for i, x in enumerate(r):
                try:
                    r[i] = f"{float(x) * f:.6g}"
                except ValueError:
                    pass
        out[name] = text_of(rows)
    return out


def same(a, b, rel):
    if isinstance(a, float) or isinstance(b, float):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return a == b
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return a == b or abs(a - b) <= rel * max(abs(a), abs(b)) + (1e-9 if rel else 0)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, rel) for x, y in zip(a, b))
    return a == b


def compare(ctx, how, text, a: Result, b: Result, rel=0.0, only=None, at=None, values=True):
    """b says what a says; `at(key, periods of a, periods of b)` -> [(index in a, index in b)], else same periods"""
    keys = only(a) if only else list(a.parts)
    matched = []
    for key in keys:
        if at and key[0] == "model":  # the models of a consumer in time, each with its own periods
            matched += [(key, k) for k in b.parts if k[:3] == key[:3]]
        elif ctx.require(key in b.parts, f"{how}:lost", f"{text}: {key} is not in the other result"):
            matched.append((key, key))
    for key, other in matched:
        x, y = a.parts[key], b.parts[other]
        pa, pb = a.periods(key), b.periods(other)
        pairs = at(pa, pb) if at and pa else None
        if at and not pairs:
            continue
        n = len(pa) if pa else None
        # a consumer has power when all its models in time have it, which fewer of them may
        unpowered = at is not None and key[0] == "component" and {k for k in a.parts if ("power",) in a.parts[k]} != {k for k in b.parts if ("power",) in b.parts[k]}
        for leaf, (kind, v) in x.items():
            name = "/".join(map(str, leaf))
            if at:
                if kind == "periods" or "cumulative" in name or kind == "one" or "chart" in leaf or leaf[-1] == "regularity" or (unpowered and leaf[0].startswith("power")):
                    continue
                if leaf not in y:
                    if leaf[0] == "emissions":
                        continue  # of fuels that are not burnt in what is left of the run
                    ctx.violation(f"{how}:lost", f"{text}: {key} {name} is not in the other result")
                    continue
                w = y[leaf][1]
                if len(v) != n or len(w) != len(pb):
                    continue
                for i, j in pairs:
                    # a sum leaves out what has no value, unless it is a sum of one: which it is may differ with the run's length
                    if key[1] in ("ASSET", "INSTALLATION", "GENERATOR_SET") and {str(v[i]), str(w[j])} == {"nan", "0.0"}:
                        continue
                    if not same(v[i], w[j], rel):
                        ctx.violation(f"{how}:{leaf[0]}", f"{text}: {key} {name} from {pa[i][0]}: {v[i]!r}, then {w[j]!r}")
                        break
                else:
                    ctx.obs("values", len(pairs))
                continue
            if not ctx.require(leaf in y, f"{how}:lost", f"{text}: {key} {name} is not in the other result"):
                continue
            w = y[leaf][1]
            ctx.require(same(v, w, rel), f"{how}:{leaf[0]}", f"{text}: {key} {name} is {str(v)[:150]}, then {str(w)[:150]}")
            ctx.obs("values", len(v) if isinstance(v, list) else 1)
    return keys


# ------------------------------------------------------------------ changes that must not matter
LISTS = ["FACILITY_INPUTS", "MODELS", "FUEL_TYPES", "TIME_SERIES", "INSTALLATIONS"]


def dict_order(rng, o):
    if isinstance(o, dict):
        items = list(o.items())
        if not any(isinstance(k, dt.date) for k in o):
            rng.shuffle(items)
        return {k: dict_order(rng, v) for k, v in items}
    return [dict_order(rng, v) for v in o] if isinstance(o, list) else o


def reordered(rng, m):
    m = copy.deepcopy(m)
    for k in LISTS:
        if k in m:
            rng.shuffle(m[k])
    if "VARIABLES" in m:
        items = list(m["VARIABLES"].items())
        rng.shuffle(items)
        m["VARIABLES"] = dict(items)
    for i in m["INSTALLATIONS"]:
        for k in ("GENERATORSETS", "FUELCONSUMERS", "VENTING_EMITTERS"):
            if i.get(k):
                rng.shuffle(i[k])
        for g in i.get("GENERATORSETS") or []:
            rng.shuffle(g["CONSUMERS"])
    for f in m["FUEL_TYPES"]:
        if f.get("EMISSIONS"):
            rng.shuffle(f["EMISSIONS"])
    return dict_order(rng, m) if rng.random() < 0.5 else m


def names_of(m):
    out = []
    for i in m["INSTALLATIONS"]:
        out.append(i["NAME"])
        for k in ("GENERATORSETS", "FUELCONSUMERS", "VENTING_EMITTERS"):
            for c in i.get(k) or []:
                out.append(c["NAME"])
                out += [x["NAME"] for x in c.get("CONSUMERS") or []]
    for k in ("FACILITY_INPUTS", "MODELS", "FUEL_TYPES"):
        out += [x["NAME"] for x in m.get(k) or []]
    return out


def renamed(rng, m):
    names = names_of(m)
    new = {n: f"{rng.choice('abcmxyzABZ_0129')}{rng.randrange(10**6)}{rng.choice(['', '_x', '-y', ' z'])}{j}" for j, n in enumerate(dict.fromkeys(names))}

    def walk(o, key=None):
        if isinstance(o, dict):
            return {k: walk(v, k) for k, v in o.items()}
        if isinstance(o, list):
            return [walk(v, key) for v in o]
        if isinstance(o, str) and o in new and key not in ("FILE", "TYPE", "CATEGORY"):
            return new[o]
        return o

    return walk({k: v for k, v in m.items()}), new


def written(rng, m, files):
    """the same model in other words of YAML"""
    files = dict(files)
    how = rng.choice(["flow", "wide", "json-like", "comments", "include", "include", "anchors"])
    lab.dump(m)
    if how == "flow":
        return pyyaml.dump(pyyaml.safe_load(lab.dump(m)), default_flow_style=True, sort_keys=False), files, how
    if how == "wide":
        return pyyaml.dump(pyyaml.safe_load(lab.dump(m)), width=20, indent=6, sort_keys=False), files, how
    if how == "json-like":
        return pyyaml.dump(pyyaml.safe_load(lab.dump(m)), default_style=None, default_flow_style=None, allow_unicode=True, sort_keys=False), files, how
    if how == "comments":
        lines = []
        for line in lab.dump(m).split("\n"):
            if rng.random() < 0.3:
                lines.append(" " * rng.randrange(8) + "# a: comment - 'here'")
            lines.append(line + ("   # ; {x}" if line.endswith(":") and rng.random() < 0.3 else ""))
        return "\n".join(lines), files, how
    if how == "anchors":
        m = copy.deepcopy(m)
        if len(m["INSTALLATIONS"]) and m["INSTALLATIONS"][0].get("FUELCONSUMERS"):
            return pyyaml.dump({**m, "FUEL_TYPES": m["FUEL_TYPES"]}, sort_keys=False), files, how
        return lab.dump(m), files, how
    m = copy.deepcopy(m)
    spots = [(m, k) for k in m if isinstance(m[k], (list, dict)) and m[k]]
    for o, k, p in mutate.walk(m):
        if isinstance(o[k], (dict, list)) and o[k] and rng.random() < 0.3:
            spots.append((o, k))
    o, k = rng.choice(spots)
    files["part one.yml" if rng.random() < 0.3 else "part.yml"] = lab.dump(o[k])
    name = next(f for f in files if f.endswith(".yml"))
    o[k] = "@@include@@"
    return lab.dump(m).replace("'@@include@@'", "@@include@@").replace("@@include@@", f"!include {name}"), files, how


def rows_of(text):
    return list(csv.reader(io.StringIO(text)))


def text_of(rows, end="\n"):
    return end.join(",".join(r) for r in rows) + end


def refiled(rng, files, series):
    """the time series in another layout of the file"""
    files = dict(files)
    for f in series:
        rows = rows_of(files[f])
        order = list(range(1, len(rows[0])))
        rng.shuffle(order)
        rows = [[r[0], *(r[i] for i in order)] for r in rows]
        how = rng.choice(["columns", "crlf", "end", "rows"])
        if how == "rows":
            body = rows[1:]
            rng.shuffle(body)
            rows = [rows[0], *body]
        t = text_of(rows, "\r\n" if how == "crlf" else "\n")
        files[f] = t.rstrip("\n") if how == "end" else t
    return files


SCALARS = {"REGULARITY", "HCEXPORT", "FUEL", "CATEGORY", "LOAD", "ENERGY_USAGE_MODEL", "ELECTRICITY2FUEL", "CABLE_LOSS", "MAX_USAGE_FROM_SHORE"}


def refined(rng, m, tv):
    """a value is said again at some date"""
    m = copy.deepcopy(m)
    spots = [
        (o, k) for o, k, p in mutate.walk(m)
        if isinstance(o, dict) and k in ("REGULARITY", "HCEXPORT", "FUEL", "CATEGORY", "ENERGY_USAGE_MODEL", "ELECTRICITY2FUEL") and p[0] == "INSTALLATIONS" and "VENTING_EMITTERS" not in p
        and not any(isinstance(x, dt.date) for x in p)
    ]
    if not spots:
        return None
    for o, k in rng.sample(spots, min(len(spots), rng.choice([1, 1, 2, 4]))):
        v = o[k]
        i = rng.randrange(len(tv))
        a, b = tv[i]
        d = a + dt.timedelta(days=rng.randrange(0, max(1, (b - a).days)))
        if isinstance(v, dict) and v and all(isinstance(x, dt.date) for x in v):
            at = [x for x in v if x <= d]
            if not at or d in v:
                continue
            v = {**v, d: v[max(at)]}
            o[k] = {x: copy.deepcopy(v[x]) for x in sorted(v)}
        else:
            o[k] = {a if rng.random() < 0.2 and i == 0 else m["START"]: v}
            if d != m["START"]:
                o[k][d] = copy.deepcopy(v)
    return m


def inside(pa, pb):
    """each period of b within one of a"""
    out = []
    for j, (s, e) in enumerate(pb):
        for i, (x, y) in enumerate(pa):
            if x <= s < y:
                out.append((i, j))
    return out


def train_model(rng):
    """a compressor train over several steps, as P14 has them"""
    multi = rng.random() < 0.35
    t = L.random_train(rng, multi=multi)
    control = rng.choice(L.CONTROLS[:1] * 2 + L.CONTROLS)
    if multi and control == "INDIVIDUAL_ASV_PRESSURE":
        control = "DOWNSTREAM_CHOKE"
    extra = dict(multi=True, first=rng.choice(L.CONTROLS[:4]), last=rng.choice(L.CONTROLS[:4])) if multi else {}
    if not multi and rng.random() < 0.3:
        extra["CALCULATE_MAX_RATE"] = True
    order = list(range(len(t.streams)))
    models, _ = L.yaml_models(rng, t, "train", control, extra, order=order if multi else None)
    n = rng.choice([3, 4, 5])
    lo, hi = t.speeds
    data = {f"r{j}": [] for j in order}
    data.update(ps=[], pd=[], pi=[])
    for i in range(n):
        f = rng.choice([1.0, rng.uniform(0.15, 0.9), rng.uniform(0.8, 1.2), rng.uniform(1.1, 1.7), 0.0])
        rates = [x * f for x in t.std]
        if i and rng.random() < 0.3:
            k = rng.randrange(i)
            for c in data:
                data[c].append(data[c][k])
            continue
        ps = t.P * rng.choice([1.0, rng.uniform(0.9, 1.15)])
        pd, pi = ps * 2.0, ps * 1.5
        if sum(rates) > 0:
            try:
                pts = L.forward(t, rates, ps, lo + rng.random() * (hi - lo))
                pd = pts[-1].outlet.P * rng.choice([1.0, 1.0, rng.uniform(0.75, 1.3)])
                if t.inter is not None:
                    pi = pts[t.inter - 1].outlet.P * rng.uniform(0.9, 1.05)
            except L.Out:
                pass
        pd = max(pd, ps * 1.01)
        for j, x in enumerate(rates):
            data[f"r{j}"].append(x)
        data["ps"].append(ps)
        data["pd"].append(pd)
        data["pi"].append(min(max(pi, ps * 1.005), pd * 0.995))
    usage = {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": "train", "RATE": "SIM;r0"}
    if multi:
        usage = {"TYPE": "VARIABLE_SPEED_COMPRESSOR_TRAIN_MULTIPLE_STREAMS_AND_PRESSURES", "COMPRESSOR_TRAIN_MODEL": "train", "RATE_PER_STREAM": [f"SIM;r{j}" for j in order]}
        if t.inter is not None:
            usage["INTERSTAGE_CONTROL_PRESSURE"] = "SIM;pi"
    if t.inter is None:
        del data["pi"]
    usage.update(SUCTION_PRESSURE="SIM;ps", DISCHARGE_PRESSURE="SIM;pd")
    steps = [DATE(2020 + i, 1, 1) for i in range(n)]
    m, files = L.model_of(models, usage, steps, data, regularity=rng.choice([1.0, 0.9]))
    m["TIME_SERIES"][0].update(TYPE="MISCELLANEOUS", INTERPOLATION_TYPE="RIGHT", EXTRAPOLATION=True, INFLUENCE_TIME_VECTOR=True)
    return m, files


def asset_model(rng, dated=None):
    return Model(rng, dated=rng.choice([0.0, 0.0, 0.3]) if dated is None else dated).compose(n_inst=rng.choice([1, 2, 2])).build(shuffle=False)


def extra_installation(rng, m):
    m = copy.deepcopy(m)
    m["FUEL_TYPES"] = [*m["FUEL_TYPES"], {"NAME": "zz_fuel", "EMISSIONS": [{"NAME": rng.choice(["co2", "zz_gas"]), "FACTOR": 3.5}]}]
    new = {
        "NAME": "zz_inst", "FUEL": "zz_fuel", "REGULARITY": 0.5, "HCEXPORT": 17,
        "FUELCONSUMERS": [{"NAME": "zz_flare", "CATEGORY": "FLARE", "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "FUELRATE": 11}}],
    }
    m["INSTALLATIONS"].insert(rng.randrange(len(m["INSTALLATIONS"]) + 1), new)
    return m


def elsewhere(jobs, hashseed):
    """the same models in another process, where sets and dicts of strings have another order"""
    with lab.scratch() as d:
        (d / "in").write_bytes(pickle.dumps(jobs))
        env = {**os.environ, "PYTHONHASHSEED": str(hashseed), "PYTHONPATH": os.pathsep.join(p for p in sys.path if p)}
        p = subprocess.run([sys.executable, "-m", "vf.checks.p23", str(d / "in"), str(d / "out")], env=env, capture_output=True, text=True, timeout=150)
        if p.returncode:
            raise RuntimeError(p.stderr[-1500:])
        return pickle.loads((d / "out").read_bytes())


def outcomes(jobs):
    fn.fresh(None)
    out = []
    for m, files in jobs:
        try:
            v, r = run(m, files)
            out.append((v, Result(r) if v == "ran" else r))
        except Exception as e:
            if "flash failed" not in str(e):
                raise
            out.append(("failed", ""))
    return out


def process_case(ctx):
    rng = ctx.rng
    jobs = [train_model(rng) if rng.random() < 0.3 else asset_model(rng) for _ in range(20)]
    here = outcomes(jobs)
    there = elsewhere(jobs, rng.randrange(1, 2**32))
    for (m, files), (v, a), (w, b) in zip(jobs, here, there):
        ctx.note(yaml=lab.dump(m), files=files)
        if not ctx.require(v == w, "process:verdict", f"in another process: {v}, then {w} ({a if v != 'ran' else b if w != 'ran' else ''})"):
            continue
        if v == "ran":
            compare(ctx, "process", "in another process", a, b)
            ctx.require(list(a.parts) == list(b.parts), "process:parts", "in another process: other parts or another order in the result")
            ctx.require(all(list(a.parts[k]) == list(b.parts[k]) for k in a.parts if k in b.parts), "process:order", "in another process: another order in the result")
            ctx.obs("process")
            ctx.distinct(("process", lab.dump(m)[:2000]))
        elif v == "refused":
            ctx.require(a == b, "process:message", f"in another process: refused with {a[:200]!r}, then with {b[:200]!r}")


def case(ctx):
    rng = ctx.rng
    fn.fresh(None)
    if rng.random() < 0.015:
        return process_case(ctx)
    train = rng.random() < 0.3
    steps = rng.random() < 0.25
    m, files = train_model(rng) if train else asset_model(rng, 0.0 if steps else None)
    ctx.note(yaml=lab.dump(m), files=files)
    kept = []
    try:
        v, res = run(m, files, kept)
    except Exception as e:
        if train and "flash failed" in str(e):
            ctx.obs("set aside: pressures beyond the stand-in's range")
            return
        raise
    if not ctx.require(v == "ran", "correct-model", f"a correct model was refused: {str(res)[:200]}"):
        return
    a = Result(res)
    series = [x["FILE"] for x in m["TIME_SERIES"]]
    tv = a.periods(("component", "ASSET", "model")) or next(p for p in map(a.periods, a.parts) if p)
    hows = ["steps", "steps", "again"] if steps else rng.sample(["again", "place", "twice", "order", "names", "writing", "files", "neighbour", "without", "refine", "shorten"], 3)
    for how in hows:
        text, b = how, None
        if how == "again":
            for _ in range(rng.choice([0, 1, 2])):
                x = train_model(rng) if rng.random() < 0.5 else asset_model(rng)
                try:
                    run(*x)
                except Exception as e:
                    if "flash failed" not in str(e):
                        raise
                text = "after other models"
            v, res = run(m, files)
        elif how == "place":
            with lab.scratch() as d:
                for _ in range(rng.choice([1, 1, 2])):
                    before = m if rng.random() < 0.7 else asset_model(rng)[0]
                    try:
                        run(before, other_numbers(rng, files), where=d)
                    except Exception as e:
                        # (whatever becomes of the model with other numbers is not judged here)
                        if isinstance(e, (MemoryError, OSError)):
                            raise
                text = "in the place of a model with other numbers"
                v, res = run(m, files, where=d)
        elif how == "twice":
            v, res = "ran", get_asset_result(kept[0])
            if rng.random() < 0.6:
                kept[0].evaluate_energy_usage()
                res = get_asset_result(kept[0])
        elif how == "order":
            m2 = reordered(rng, m)
            ctx.note(changed=lab.dump(m2))
            v, res = run(m2, files)
        elif how == "names":
            m2, new = renamed(rng, m)
            ctx.note(changed=lab.dump(m2))
            v, res = run(m2, files)
            if v == "ran":
                b = Result(res, new)
        elif how == "writing":
            t, files2, text = written(rng, m, files)
            ctx.note(changed=t)
            v, res = run(t, files2)
        elif how == "files":
            files2 = refiled(rng, files, series)
            ctx.note(changed=files2)
            v, res = run(m, files2)
        elif how == "neighbour":
            m2 = extra_installation(rng, m)
            v, res = run(m2, files)
        elif how == "without":
            if len(m["INSTALLATIONS"]) < 2:
                continue
            m2 = copy.deepcopy(m)
            gone = m2["INSTALLATIONS"].pop(rng.randrange(len(m2["INSTALLATIONS"])))
            v, res = run(m2, files)
        elif how == "refine":
            m2 = refined(rng, m, tv)
            if m2 is None:
                continue
            ctx.note(changed=lab.dump(m2))
            v, res = run(m2, files)
        elif how == "shorten":
            m2 = copy.deepcopy(m)
            if len(tv) < 2:
                continue
            i = rng.randrange(len(tv))
            j = rng.randrange(i, len(tv))
            m2["START"], m2["END"] = tv[i][0], tv[j][1]
            text = f"from {m2['START']} to {m2['END']}"
            v, res = run(m2, files)
            if v != "ran":
                ctx.obs("shorter run refused")  # what it needs may be dated outside it
                continue
        elif how == "steps":
            perm = list(range(len(tv)))
            files2 = dict(files)
            at = {}
            for f in series:
                rows = rows_of(files[f])
                body = rows[1:]
                order = list(range(len(body)))
                rng.shuffle(order)
                files2[f] = text_of([rows[0], *([body[i][0], *body[order[i]][1:]] for i in range(len(body)))])
                at[f] = order
                dates = [r[0] for r in body]
            if len(series) != 1 or [f"{s:%d.%m.%Y}" for s, _ in tv] is None:
                continue
            ctx.note(changed=files2)
            v, res = run(m, files2)
        if not ctx.require(v == "ran", f"{how}:refused", f"{text}: refused: {str(res)[:300]}"):
            continue
        b = b or Result(res)
        if how in ("again", "place", "twice", "writing", "files"):
            compare(ctx, how, text, a, b)
            ctx.require(list(a.parts) == list(b.parts), f"{how}:parts", f"{text}: other parts in the result")
        elif how in ("order", "names"):
            compare(ctx, how, text, a, b, rel=1e-9)
            ctx.require(set(a.parts) == set(b.parts), f"{how}:parts", f"{text}: other parts in the result {set(a.parts) ^ set(b.parts)}")
        elif how in ("neighbour", "without"):
            def only(r, other=b, how=how):
                return [k for k in r.parts if k[1] != "ASSET" and (how == "neighbour" or k[0] == "model" or k in other.parts)]

            compare(ctx, how, text, a, b, only=only, at=inside if how == "without" else None)
        elif how == "refine":
            compare(ctx, how, text, a, b, rel=1e-9, at=inside)
        elif how == "shorten":
            compare(ctx, how, text, a, b, rel=1e-9, only=lambda r, o=b: [k for k in r.parts if k[0] == "model" or k in o.parts], at=inside)
        elif how == "steps":
            # what was asked for at row i is asked for at row order^-1(i) now
            order = at[series[0]]
            index = {}
            ok = True
            for p, (s, _e) in enumerate(tv):
                c = [i for i, d in enumerate(dates) if date_of(d) <= s]
                if not c:
                    ok = False
                    break
                index.setdefault(max(c, key=lambda i: date_of(dates[i])), []).append(p)
            if not ok:
                ctx.obs("steps: before the first date")
                continue

            def moved(pa, pb, index=index, order=order):
                out = []
                for i, src in enumerate(order):  # row i now has what row src had
                    if i in index and src in index:
                        out.append((index[src][0], index[i][0]))
                return out

            compare(ctx, how, text, a, b, rel=1e-9, at=moved)
        ctx.obs(how)
        if train:
            ctx.obs(f"{how} of a train")
        ctx.distinct((how, lab.dump(m)[:2000], text))


def date_of(s):
    s = s.strip()
    for f in ("%Y-%m-%d %H:%M:%S", "%Y-%m-%d", "%d.%m.%Y", "%d.%m.%Y %H:%M:%S", "%Y", "%d/%m/%Y"):
        try:
            return DATE.strptime(s, f)
        except ValueError:
            pass
    raise ValueError(s)


if __name__ == "__main__":
    import __main__

    sys.modules["vf.checks.p23"] = __main__
    Result.__module__ = "vf.checks.p23"
    setup("quick")
    with open(sys.argv[1], "rb") as f:
        jobs = pickle.load(f)
    done = outcomes(jobs)
    with open(sys.argv[2], "wb") as f:
        pickle.dump(done, f)
