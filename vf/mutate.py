"""Mistakes a user makes in a model, each with what the refusal has to mention."""

from __future__ import annotations

import copy
import datetime as dt

DATE = (dt.date, dt.datetime)


def walk(o, path=()):
    """every (container, key, path)"""
    if isinstance(o, dict):
        for k, v in list(o.items()):
            yield o, k, (*path, k)
            yield from walk(v, (*path, k))
    elif isinstance(o, list):
        for k, v in enumerate(o):
            yield o, k, (*path, k)
            yield from walk(v, (*path, k))


def fixed(d, path):
    """a mapping whose keys eCalc decides"""
    return isinstance(d, dict) and d and not any(isinstance(k, DATE) for k in d) and (not path or path[-1] not in ("VARIABLES", "COMPOSITION"))


def dicts(m):
    yield m, ()
    for o, k, p in walk(m):
        if isinstance(o[k], dict):
            yield o[k], p


def text_of(p):
    return ".".join(str(x) for x in p)


REFERENCES = {"ENERGYFUNCTION", "ELECTRICITY2FUEL", "POWER_LOSS", "FLUID_MODEL", "COMPRESSOR_CHART", "COMPRESSOR_MODEL", "TURBINE_MODEL", "CHART", "CONSUMPTION_MODEL", "FUEL"}
REQUIRED = {"NAME", "TYPE", "CATEGORY", "ENERGY_USAGE_MODEL", "FILE", "ENERGYFUNCTION", "CONSUMERS", "COMPRESSOR_MODEL", "CHART", "COMPRESSORS", "PUMPS", "OPERATIONAL_SETTINGS", "TOTAL_SYSTEM_RATE",
            "INSTALLATIONS", "FUEL_TYPES", "END", "FACTOR", "ELECTRICITY2FUEL", "LOWER_HEATING_VALUE", "TURBINE_LOADS", "TURBINE_EFFICIENCIES", "FLUID_MODEL", "COMPRESSOR_TRAIN", "STAGES", "INLET_TEMPERATURE",
            "COMPRESSOR_CHART", "CHART_TYPE", "CURVES", "CURVE", "SPEED", "RATE", "HEAD", "EFFICIENCY", "PRESSURE_CONTROL", "STREAMS", "SUCTION_PRESSURE", "DISCHARGE_PRESSURE", "VARIABLES", "EXPRESSION",
            "VALUE", "EMISSIONS", "VOLUME", "COMPOSITION", "EOS_MODEL", "FLUID_MODEL_TYPE", "FLUID_DENSITY", "RATES", "RATE_FRACTIONS", "RATE_PER_STREAM", "POWER_ADJUSTMENT_CONSTANT"}


def mandatory(o, k, p, m):
    """Does the documentation demand keyword k here?"""
    t = o.get("TYPE")
    parent = [x for x in p[:-1] if isinstance(x, str)]
    up = parent[-1] if parent else None
    if k in ("INSTALLATIONS", "FUEL_TYPES", "END"):
        return not parent
    if k == "NAME":
        return up not in ()  # every named thing needs its name
    if k == "TYPE":
        return up != "RATE"
    if k == "CATEGORY":
        return up in ("FUELCONSUMERS", "CONSUMERS", "GENERATORSETS", "VENTING_EMITTERS")
    if k == "ENERGY_USAGE_MODEL":
        return up in ("FUELCONSUMERS", "CONSUMERS")
    if k in ("ELECTRICITY2FUEL", "CONSUMERS"):
        return up == "GENERATORSETS"
    if k == "FILE":
        return up in ("FACILITY_INPUTS", "TIME_SERIES")
    if k == "ENERGYFUNCTION":
        return True
    if k in ("COMPRESSORS", "PUMPS", "OPERATIONAL_SETTINGS"):
        return t in ("COMPRESSOR_SYSTEM", "PUMP_SYSTEM")
    if k in ("COMPRESSOR_MODEL", "CHART"):
        return up in ("COMPRESSORS", "PUMPS") or k == "COMPRESSOR_MODEL"
    if k in ("LOWER_HEATING_VALUE", "TURBINE_LOADS", "TURBINE_EFFICIENCIES"):
        return t == "TURBINE"
    if k in ("SUCTION_PRESSURE", "DISCHARGE_PRESSURE", "FLUID_DENSITY"):
        return t == "PUMP"
    if k == "RATE":
        return t == "PUMP" or up in ("CURVES", "CURVE") or "VENTING" in "".join(parent)
    if k in ("HEAD", "EFFICIENCY"):
        return up in ("CURVES", "CURVE")
    if k in ("FLUID_MODEL", "COMPRESSOR_TRAIN"):
        return t in ("VARIABLE_SPEED_COMPRESSOR_TRAIN", "SINGLE_SPEED_COMPRESSOR_TRAIN")
    if k in ("STAGES",):
        return True
    if k in ("INLET_TEMPERATURE", "COMPRESSOR_CHART"):
        return up == "STAGES"
    if k in ("CHART_TYPE",):
        return True
    if k in ("CURVES", "CURVE"):
        return t == "COMPRESSOR_CHART"
    if k in ("COMPOSITION", "FLUID_MODEL_TYPE"):
        return t == "FLUID"
    if k == "EXPRESSION":
        return True
    if k == "VALUE":
        return up in ("RATE", "EMISSION_RATE")
    if k == "EMISSIONS":
        return up in ("VOLUME",) or o.get("TYPE") in ("DIRECT_EMISSION",)
    return False


TEXTS = {"CONDITION", "LOAD", "FUELRATE", "FUEL_RATE", "HCEXPORT", "REGULARITY", "RATE", "SUCTION_PRESSURE", "DISCHARGE_PRESSURE", "FLUID_DENSITY", "POWERLOSSFACTOR", "TOTAL_SYSTEM_RATE", "VALUE", "EXPRESSION", "EMISSION_FACTOR", "FACTOR"}


def mistake(rng, m0, files0):
    """-> (kind, model, files, words of which the refusal mentions at least one, tells) or None when this model has no place for it"""
    m, files = copy.deepcopy(m0), dict(files0)
    kind = rng.choice(KINDS)
    if kind in ONLY_IF_USED and any(isinstance(k, DATE) and "VARIABLES" not in p for o, k, p in walk(m)):
        return None  # what a date outside the run would use is never looked at
    r = globals()["_" + kind](rng, m, files)
    if r is None:
        return None
    if isinstance(r, str):
        return kind, r[0], files, r[1]
    words, detail = r
    return kind, m, files, [str(w) for w in words], detail


def names_up(m, p):
    """names of what surrounds a path, innermost last"""
    out, o = [], m
    for k in p:
        o = o[k]
        if isinstance(o, dict) and isinstance(o.get("NAME"), str):
            out.append(o["NAME"])
    return out


def _unknown_key(rng, m, files):
    d, p = rng.choice([x for x in dicts(m) if fixed(*x)])
    key = rng.choice(["NOT_A_KEYWORD", "DESCRIPTIONS", "Name", "RATES2", "CONDITON", "FUELS"])
    items = list(d.items())
    items.insert(rng.randrange(len(items) + 1), (key, rng.choice([1, "x", None, {"A": 1}, [1]])))
    d.clear()
    d.update(items)
    return [key], text_of(p)


def _misspelt_key(rng, m, files):
    """a keyword with a letter too many: an unknown keyword, whether or not the keyword is required"""
    at = [(d, p, k) for d, p in dicts(m) if fixed(d, p) for k in d if isinstance(k, str) and k.isupper() and len(k) > 2]
    d, p, k = rng.choice(at)
    i = rng.randrange(1, len(k))
    new = rng.choice([k[:i] + k[i - 1] + k[i:], k[:i] + k[i + 1:], k.replace("_", " ") if "_" in k else k + "_"])
    if new in d or new == k or new in REQUIRED:
        return None
    items = [(new if a == k else a, b) for a, b in d.items()]
    d.clear()
    d.update(items)
    return [new, k], text_of((*p, k))


def _missing_key(rng, m, files):
    at = [(o, k, p) for o, k, p in walk(m) if isinstance(o, dict) and fixed(o, p[:-1]) and k in REQUIRED and mandatory(o, k, p, m)]
    if not at:
        return None
    o, k, p = rng.choice(at)
    names = names_up(m, p[:-1])
    del o[k]
    return [k, *names], text_of(p)


def references(m):
    """every place that names something; the fuel of an installation is only a default that consumers may make unnecessary"""
    at = [(o, k, p) for o, k, p in walk(m) if isinstance(o, dict) and k in REFERENCES and isinstance(o[k], str)]
    at += [(o, k, p) for o, k, p in walk(m) if isinstance(o, dict) and isinstance(k, DATE) and len(p) > 1 and p[-2] in REFERENCES and isinstance(o[k], str)]
    return [(o, k, p) for o, k, p in at if not ("FUEL" in p and any(isinstance(x, DATE) for x in p)) and not (len(p) >= 3 and p[0] == "INSTALLATIONS" and p[2] == "FUEL")]


def _reference(rng, m, files):
    at = references(m)
    if not at:
        return None
    o, k, p = rng.choice(at)
    old = o[k]
    new = rng.choice([old + "x", "nope", old.upper() + "_", old[:-1] + "~"])
    o[k] = new
    return [new], text_of(p)


def _series_reference(rng, m, files):
    at = [(o, k, p) for o, k, p in walk(m) if isinstance(o, dict) and isinstance(o[k], str) and (("SIM;" in o[k]) or ("$var." in o[k]))]
    at += [(o, k, p) for o, k, p in walk(m) if isinstance(o, list) and isinstance(o[k], str) and (("SIM;" in o[k]) or ("$var." in o[k]))]
    if not at:
        return None
    o, k, p = rng.choice(at)
    if "SIM;" in o[k] and ("$var." not in o[k] or rng.random() < 0.5):
        o[k] = o[k].replace("SIM;", rng.choice(["SIMM;", "sim;", "SIM;NOPE_"]), 1)
    else:
        o[k] = o[k].replace("$var.", rng.choice(["$var.nope_", "$Var.", "$vars."]), 1)
    return [w for w in o[k].replace("{", " ").replace("}", " ").split() if ";" in w or "$" in w] or [o[k]], text_of(p)


def _expression(rng, m, files):
    at = [(o, k, p) for o, k, p in walk(m) if isinstance(o, dict) and k in TEXTS and isinstance(o[k], str | int | float) and not isinstance(o[k], bool) and "TYPE" != k]
    used = {o[k] for o, k, p in references(m) if k == "FUEL" and not any(isinstance(x, DATE) for x in p)}
    at = [(o, k, p) for o, k, p in at if not (k in ("RATE", "HEAD") and "UNITS" in p)
          and not any(isinstance(x, DATE) for x in p)  # the date may be outside the run
          and not (p[0] == "FUEL_TYPES" and m["FUEL_TYPES"][p[1]]["NAME"] not in used)
          and not (k == "FLUID_DENSITY" and o.get("TYPE") == "PUMP_SYSTEM")]
    if not at:
        return None
    o, k, p = rng.choice(at)
    old = str(o[k])
    new = rng.choice(["{bad} {{+}}", "({bad}", "{bad})", "{bad} {{*}} {{*}} 2", "{bad} 2", "two", "{bad} + 2", "{bad} {{^^}} 2", "{{+}}", "{{*}} 3", "2 {{/}}"]).format(bad=old if rng.random() < 0.5 else "1")
    o[k] = new
    return [new, new[:-1] or k, k, *names_up(m, p[:-1])], text_of(p) + "=" + new


ENUMS = {"TYPE": "NO_SUCH_TYPE", "CATEGORY": "NO_SUCH_CATEGORY", "CONSUMPTION_RATE_TYPE": "PER_MONTH", "INTERPOLATION_TYPE": "CUBIC", "EOS_MODEL": "IDEAL", "CHART_TYPE": "ROUND", "PRESSURE_CONTROL": "BY_HAND",
         "FLUID_MODEL_TYPE": "GUESSED", "HEAD": "FURLONGS", "RATE": "BUCKETS_PER_HOUR", "EFFICIENCY": "PERCENT", "CONTROL_MARGIN_UNIT": "PARTS"}


def _choice(rng, m, files):
    at = [(o, k, p) for o, k, p in walk(m) if isinstance(o, dict) and k in ENUMS and isinstance(o[k], str) and (k not in ("HEAD", "RATE", "EFFICIENCY") or "UNITS" in p)]
    if not at:
        return None
    o, k, p = rng.choice(at)
    o[k] = rng.choice([ENUMS[k], o[k].lower() if o[k].lower() != o[k] else ENUMS[k], o[k] + "S"])
    return [k, o[k]], text_of(p)


def _duplicate_component(rng, m, files):
    comps = []
    for i in m["INSTALLATIONS"]:
        comps.append(i)
        for key in ("FUELCONSUMERS", "GENERATORSETS", "VENTING_EMITTERS"):
            for c in i.get(key) or []:
                comps.append(c)
                comps += c.get("CONSUMERS") or []
    if len(comps) < 2 or rng.random() < 0.1:
        c = rng.choice(comps)
        c["NAME"] = "model"  # the model itself
        return ["model"], "the model's own name"
    a, b = rng.sample(comps, 2)
    b["NAME"] = a["NAME"]
    return [a["NAME"]], "components"


def _duplicate_reference(rng, m, files):
    things = [x for key in ("FACILITY_INPUTS", "MODELS", "FUEL_TYPES") for x in m.get(key) or []]
    if len(things) < 2:
        return None
    a, b = rng.sample(things, 2)
    section = next(key for key in ("FACILITY_INPUTS", "MODELS", "FUEL_TYPES") if any(b is x for x in m.get(key) or []))
    m[section].append({**copy.deepcopy(b), "NAME": a["NAME"]})
    return [a["NAME"]], "references"


def _duplicate_series(rng, m, files):
    m["TIME_SERIES"] = [*m["TIME_SERIES"], dict(m["TIME_SERIES"][0])]
    return [m["TIME_SERIES"][0]["NAME"]], "time series"


def _kind_of_reference(rng, m, files):
    """a reference to something that exists but is of another kind"""
    at = references(m)
    kinds = {x["NAME"]: ("FUEL" if key == "FUEL_TYPES" else x.get("TYPE")) for key in ("FACILITY_INPUTS", "MODELS", "FUEL_TYPES") for x in m.get(key) or []}
    if not at:
        return None
    o, k, p = rng.choice(at)
    mine = kinds.get(o[k])
    group = {"COMPRESSOR_TABULAR": "compressor", "COMPRESSOR_WITH_TURBINE": "compressor", "VARIABLE_SPEED_COMPRESSOR_TRAIN": "compressor", "SINGLE_SPEED_COMPRESSOR_TRAIN": "compressor", "SIMPLIFIED_VARIABLE_SPEED_COMPRESSOR_TRAIN": "compressor",
             "VARIABLE_SPEED_COMPRESSOR_TRAIN_MULTIPLE_STREAMS_AND_PRESSURES": "compressor", "PUMP_CHART_SINGLE_SPEED": "pump", "PUMP_CHART_VARIABLE_SPEED": "pump"}
    others = [n for n, t in kinds.items() if group.get(t, t) != group.get(mine, mine)]
    if not others or mine is None:
        return None
    o[k] = rng.choice(others)
    return [o[k]], text_of(p)


def _file_missing(rng, m, files):
    at = [(o, k, p) for o, k, p in walk(m) if isinstance(o, dict) and k == "FILE"]
    if not at:
        return None
    o, k, p = rng.choice(at)
    o[k] = rng.choice(["nowhere.csv", "no/where.csv", o[k].replace(".csv", "")])
    return [o[k]], text_of(p)


def _table(rng, m, files):
    """a resource no one can read"""
    at = [x for x in m.get("FACILITY_INPUTS") or [] if x["FILE"] in files]
    if not at:
        return None
    x = rng.choice(at)
    f = x["FILE"]
    lines = files[f].splitlines()
    how = rng.choice(["empty", "header", "text", "short", "column"])
    if how == "empty":
        files[f] = ""
    elif how == "header":
        lines[0] = ",".join(h + "_X" for h in lines[0].split(","))
        files[f] = "\n".join(lines) + "\n"
    elif how == "text":
        i = rng.randrange(1, len(lines))
        c = lines[i].split(",")
        c[rng.randrange(len(c))] = rng.choice(["n/a", "x", "1.2.3", "--"])
        lines[i] = ",".join(c)
        files[f] = "\n".join(lines) + "\n"
    elif how == "short":
        i = rng.randrange(1, len(lines))
        lines[i] = ",".join(lines[i].split(",")[:-1] or ["x"])
        files[f] = "\n".join(lines) + "\n"
    else:
        n = len(lines[0].split(","))
        if n < 2:
            return None
        j = rng.randrange(n)
        head = [h.strip() for h in lines[0].split(",")]
        if head[j] == "SPEED" or (x["TYPE"] == "COMPRESSOR_TABULAR" and (head[j] in VARIABLES_OF_TABLE or "POWER" in head and "FUEL" in head)):
            return None  # a chart of a single speed, a table of fewer dimensions, a table of fuel without power
        files[f] = "\n".join(",".join(c for q, c in enumerate(ln.split(",")) if q != j) for ln in lines) + "\n"
    return [f, x["NAME"]], f"{f}: {how}"


def _dates(rng, m, files):
    how = rng.choice(["end-before-start", "end-is-start", "end-text", "start-text", "no-end"])
    if how == "end-before-start":
        m["END"] = m["START"] - dt.timedelta(days=rng.choice([1, 400]))
    elif how == "end-is-start":
        m["END"] = m["START"]
    elif how == "end-text":
        m["END"] = rng.choice(["soon", "2025-13-01", "2023-02-29", "01.01.2025"])
    elif how == "start-text":
        m["START"] = rng.choice(["now", "2019-00-01", "2021-02-30", "1.1.2019"])
    else:
        del m["END"]
    return ["START", "END", "start", "end"], how


def _two_conditions(rng, m, files):
    at = [d for d, p in dicts(m) if ("CONDITION" in d) != ("CONDITIONS" in d)]
    if not at:
        return None
    d = rng.choice(at)
    if "CONDITION" in d:
        d["CONDITIONS"] = [d["CONDITION"]]
    else:
        d["CONDITION"] = "1 < 2"
    return ["CONDITION", "CONDITIONS"], "both"


def _illegal_name(rng, m, files):
    comps = []
    for i in m["INSTALLATIONS"]:
        comps.append(i)
        for key in ("FUELCONSUMERS", "GENERATORSETS", "VENTING_EMITTERS"):
            for c in i.get(key) or []:
                comps.append(c)
                comps += c.get("CONSUMERS") or []
    c = rng.choice(comps)
    c["NAME"] = rng.choice(["a.b", "gas; lift", "pump#1", "c'est", "50%", "a{b}", "tab\tname", "x*y", "(old)"])
    return ["NAME", c["NAME"], repr(c["NAME"])], c["NAME"]


def _wrong_type(rng, m, files):
    """a list where a text belongs, a text where a mapping belongs"""
    how = rng.choice(["section", "item", "name", "model", "file", "list", "null"])
    if how == "section":
        k = rng.choice([k for k in m if isinstance(m[k], list)])
        m[k] = rng.choice([{"A": 1}, "text", 5])
        return [k], f"{k} is no list"
    if how == "item":
        k = rng.choice([k for k in m if isinstance(m[k], list) and m[k]])
        m[k][rng.randrange(len(m[k]))] = rng.choice(["text", 5, ["a"], None])
        return [k], f"an item of {k} is no mapping"
    if how == "null":
        at = [(o, k, p) for o, k, p in walk(m) if isinstance(o, dict) and fixed(o, p[:-1]) and k in ("NAME", "TYPE", "ENERGY_USAGE_MODEL", "CATEGORY", "CONSUMERS") and mandatory(o, k, p, m)]
        o, k, p = rng.choice(at)
        names = names_up(m, p[:-1])
        o[k] = None
        return [k, *names], text_of(p) + " empty"
    key = {"name": "NAME", "model": "ENERGY_USAGE_MODEL", "file": "FILE", "list": "CONSUMERS"}[how]
    at = [(o, k, p) for o, k, p in walk(m) if k == key]
    if not at:
        return None
    o, k, p = rng.choice(at)
    o[k] = {"name": [["a"], {"A": 1}, 5], "model": ["DIRECT", ["x"], 5], "file": [5, ["a.csv"], {"A": 1}, True], "list": ["x", 5, {"A": 1}]}[how][rng.randrange(3)]
    return [k, text_of(p), str(o[k])], text_of(p)


def systems(m):
    return [d for d, p in dicts(m) if d.get("TYPE") in ("COMPRESSOR_SYSTEM", "PUMP_SYSTEM") and isinstance(d.get("OPERATIONAL_SETTINGS"), list)]


def _system(rng, m, files):
    """operational settings that do not fit the system"""
    at = systems(m)
    if not at:
        return None
    d = rng.choice(at)
    who = d.get("COMPRESSORS") or d.get("PUMPS")
    s = rng.choice(d["OPERATIONAL_SETTINGS"])
    how = rng.choice(["length", "length", "no-rates", "both-rates", "no-total", "crossover-length", "crossover-range", "no-pressure", "both-pressures", "twice", "none"])
    if how == "length":
        k = rng.choice([k for k in s if k in ("RATES", "RATE_FRACTIONS", "SUCTION_PRESSURES", "DISCHARGE_PRESSURES", "FLUID_DENSITIES")])
        s[k] = s[k][:-1] if rng.random() < 0.5 and len(s[k]) > 1 else [*s[k], s[k][-1]]
        return [k], f"{how} {k}"
    if how == "no-rates":
        s.pop("RATES", None)
        s.pop("RATE_FRACTIONS", None)
        return ["RATES", "RATE_FRACTIONS"], how
    if how == "both-rates":
        s.setdefault("RATES", [1] * len(who))
        s.setdefault("RATE_FRACTIONS", [0] * len(who))
        return ["RATES", "RATE_FRACTIONS"], how
    if how == "no-total":
        if "RATE_FRACTIONS" not in s:
            return None
        d.pop("TOTAL_SYSTEM_RATE")
        return ["TOTAL_SYSTEM_RATE"], how
    if how == "crossover-length":
        s["CROSSOVER"] = [0] * (len(who) + rng.choice([-1, 1])) or [0, 0, 0]
        return ["CROSSOVER"], how
    if how == "crossover-range":
        s["CROSSOVER"] = [0] * len(who)
        s["CROSSOVER"][rng.randrange(len(who))] = rng.choice([len(who) + 1, -1, 99])
        return ["CROSSOVER"], how
    if how == "no-pressure":
        k = rng.choice(["SUCTION_PRESSURE", "DISCHARGE_PRESSURE"])
        s.pop(k, None)
        s.pop(k + "S", None)
        return [k], how
    if how == "both-pressures":
        k = rng.choice(["SUCTION_PRESSURE", "DISCHARGE_PRESSURE"])
        s.setdefault(k, 10)
        s.setdefault(k + "S", [10] * len(who))
        return [k], how
    if how == "twice":
        if len(who) < 2:
            return None
        who[1]["NAME"] = who[0]["NAME"]
        return ["unique", who[0]["NAME"]], how
    d["OPERATIONAL_SETTINGS"] = []
    return ["OPERATIONAL_SETTINGS"], how


def _streams(rng, m, files):
    """streams of a train that enter nowhere or twice"""
    at = [d for d, p in dicts(m) if isinstance(d.get("STREAMS"), list) and isinstance(d.get("STAGES"), list)]
    if not at:
        return None
    d = rng.choice(at)
    stages = [s for s in d["STAGES"] if s.get("STREAM")]
    how = rng.choice(["unknown", "unused", "twice", "same-name", "rates", "first"])
    if how == "unknown":
        s = rng.choice(stages)
        s["STREAM"] = [*s["STREAM"], "nowhere"]
        return ["nowhere"], how
    if how == "unused":
        d["STREAMS"].append({**d["STREAMS"][0], "NAME": "idle"})
        return ["idle", "RATE_PER_STREAM"], how
    if how == "twice":
        a = rng.choice(stages)["STREAM"][0]
        s = rng.choice([s for s in d["STAGES"]])
        s["STREAM"] = [*(s.get("STREAM") or []), a]
        return [a], how
    if how == "same-name":
        d["STREAMS"].append(dict(d["STREAMS"][0]))
        return [d["STREAMS"][0]["NAME"]], how
    if how == "first":
        if len(d["STAGES"]) < 2:
            return None
        d["STAGES"][1]["STREAM"] = [*(d["STAGES"][1].get("STREAM") or []), *d["STAGES"][0].pop("STREAM")]
        return ["INGOING", "STREAM", "first"], how
    u = [x for x, p in dicts(m) if isinstance(x.get("RATE_PER_STREAM"), list)]
    if not u:
        return None
    x = rng.choice(u)
    x["RATE_PER_STREAM"] = x["RATE_PER_STREAM"][:-1] if rng.random() < 0.5 and len(x["RATE_PER_STREAM"]) > 1 else [*x["RATE_PER_STREAM"], 5]
    return ["RATE_PER_STREAM"], how


def _variables_of_table(rng, m, files):
    at = [d for d, p in dicts(m) if d.get("TYPE") == "TABULATED" and isinstance(d.get("VARIABLES"), list) and d["VARIABLES"]]
    if not at:
        return None
    d = rng.choice(at)
    how = rng.choice(["name", "extra", "missing", "twice"])
    v = rng.choice(d["VARIABLES"])
    if how == "name":
        v["NAME"] = v["NAME"] + "_X"
        return [v["NAME"], "VARIABLES"], how
    if how == "extra":
        d["VARIABLES"].append({"NAME": "MORE", "EXPRESSION": 1})
        return ["MORE", "VARIABLES"], how
    if how == "twice":
        d["VARIABLES"].append(dict(v))
        return [v["NAME"], "VARIABLES"], how
    d["VARIABLES"].remove(v)
    return [v["NAME"], "VARIABLES"], how


def _empty_variable(rng, m, files):
    m.setdefault("VARIABLES", {})
    n = rng.choice(["v_new", *m["VARIABLES"]])
    m["VARIABLES"][n] = rng.choice([{}, None, {"VALU": 1}, 5, {"VALUE": None}])
    return [n, "VARIABLES"], f"{n} = {m['VARIABLES'][n]}"


def _unordered_dates(rng, m, files):
    """dated values that are not in order"""
    at = [(d, p) for d, p in dicts(m) if len(d) > 1 and all(isinstance(k, DATE) for k in d) and "VARIABLES" not in p]
    if not at:
        return None
    d, p = rng.choice(at)
    items = list(d.items())
    items[0], items[-1] = items[-1], items[0]
    d.clear()
    d.update(items)
    return [*(str(x) for x in p if isinstance(x, str)), *names_up(m, p), "order", "sorted"], text_of(p)


def _impossible_variable(rng, m, files):
    """variables that need each other"""
    n = rng.choice([1, 2, 3])
    m.setdefault("VARIABLES", {})
    for i in range(n):
        m["VARIABLES"][f"loop{i}"] = {"VALUE": f"$var.loop{(i + 1) % n} {{+}} 1"}
    return ["loop", "circular", "Circular"], f"{n} variables in a loop"


VARIABLES_OF_TABLE = ("RATE", "SUCTION_PRESSURE", "DISCHARGE_PRESSURE")

def _series(rng, m, files):
    """a file of time series no one can read"""
    at = [x for x in m.get("TIME_SERIES") or [] if x["FILE"] in files]
    if not at:
        return None
    x = rng.choice(at)
    f = x["FILE"]
    lines = files[f].splitlines()
    rows = [ln.split(",") for ln in lines]
    how = rng.choice(["empty", "header-only", "text", "date", "same-date", "long", "no-header", "same-column"])
    if how == "empty":
        files[f] = ""
        return [f, x["NAME"]], how
    if how == "header-only":
        rows = rows[:1]
    elif how == "text":
        r = rng.choice(rows[1:])
        r[rng.randrange(1, len(r))] = rng.choice(["none at all", "x", "1.2.3", "--"])
    elif how == "date":
        rng.choice(rows[1:])[0] = rng.choice(["someday", "2020-13-01", "2019-02-30", "32.01.2020"])
    elif how == "same-date":
        if len(rows) < 3:
            return None
        rows[2][0] = rows[1][0]
    elif how == "long":
        i = rng.randrange(1, len(rows))
        rows[i] = [*rows[i], "5"]
    elif how == "no-header":
        rows = rows[1:]
    else:
        if len(rows[0]) < 3:
            return None
        rows[0][2] = rows[0][1]
    files[f] = "\n".join(",".join(r) for r in rows) + "\n"
    return [f, x["NAME"]], how


TEMPORAL = {"FUEL", "ENERGY_USAGE_MODEL", "ELECTRICITY2FUEL", "CATEGORY", "HCEXPORT", "REGULARITY", "CABLE_LOSS", "MAX_USAGE_FROM_SHORE"}


def later(rng, m0, files0):
    """something that only begins after the run, or in the middle of it: not wrong by itself"""
    m, files = copy.deepcopy(m0), dict(files0)
    at = [(o, k, p) for o, k, p in walk(m) if isinstance(o, dict) and k in TEMPORAL and p[0] == "INSTALLATIONS" and not any(isinstance(x, DATE) for x in p)]
    if not at:
        return None
    out = []
    for o, k, p in rng.sample(at, min(len(at), rng.choice([1, 1, 2, 3]))):
        d = rng.choice([m["END"] + dt.timedelta(days=rng.choice([0, 1, 400])), m["START"] + (m["END"] - m["START"]) / 2, m["END"] - dt.timedelta(days=1)])
        v = o[k]
        if isinstance(v, dict) and v and all(isinstance(x, DATE) for x in v):
            v = list(v.values())[-1]
        o[k] = {d: v}
        out.append(f"{text_of(p)} from {d}")
    return m, files, out


ONLY_IF_USED = {"table", "kind_of_reference", "variables_of_table", "streams"}
KINDS = [k[1:] for k, v in list(globals().items()) if k.startswith("_") and callable(v) and not k.startswith("__")]


def broken_text(rng, text):
    """YAML that is none -> (text, how)"""
    lines = text.splitlines()
    how = rng.choice(["tab", "bracket", "quote", "indent", "same-key", "colon", "brace"])
    i = rng.choice([j for j, ln in enumerate(lines) if ":" in ln and ln.strip()[0] not in "'\"?" and not ln.strip().startswith("- - ")])
    ln = lines[i]
    pad = len(ln) - len(ln.lstrip())
    if how == "tab":
        lines[i] = ln[:pad] + "\t" + ln[pad:]
        lines.insert(i, "\tX: 1")
    elif how == "bracket":
        lines.insert(i, " " * pad + "XX: [1, 2")
    elif how == "brace":
        lines.insert(i, " " * pad + "XX: {A: 1")
    elif how == "quote":
        lines.insert(i, " " * pad + 'XX: "open')
    elif how == "indent":
        lines.insert(i + 1, " " * (pad + 1) + "XX: 1")
        lines.insert(i + 2, " " * max(pad - 1, 0) + "- ]")
    elif how == "colon":
        lines.insert(i, " " * pad + "XX: a: b")
    else:
        tops = [j for j, x in enumerate(lines) if x and x[0].isalpha() and ":" in x]
        j = rng.choice(tops)
        lines.append(lines[j] if lines[j].split(":")[1].strip() else lines[j].split(":")[0] + ": []")
        i = len(lines) - 1
    return "\n".join(lines) + "\n", how
