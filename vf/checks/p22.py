"""P22 a model with a mistake in it is refused before anything is computed, in words that say where; a correct one is not."""

from __future__ import annotations

import datetime as dt

from libecalc.common.errors.exceptions import EcalcError, EcalcErrorType
from libecalc.presentation.yaml.model_validation_exception import ModelValidationException
from vf import fakeneqsim as fn
from vf import lab, mutate
from vf import legacy as L
from vf.refmodel import Model

CASES = {"quick": 4000, "thorough": 90000}
RULE = "random valid models (whole assets; compressor trains with charts and fluids) with one mistake of a user put in at a random place; distinct by kind and place"
MIN_OBS = {"correct model runs": 70, "refused": 1800, "with location": 1700, "syntax": 150, "streams": 3, "system": 35, "series": 80, "table": 55, "kind_of_reference": 60, "reference": 80, "series_reference": 80, "expression": 80,
           "unknown_key": 80, "misspelt_key": 80, "missing_key": 80, "choice": 80, "dates": 80, "duplicate_component": 80, "duplicate_reference": 80, "wrong_type": 80, "unordered_dates": 15, "later: ran": 40, "later: refused": 30, "variables_of_table": 10}
ASSUMPTIONS = ["the thermodynamic package is replaced by an analytic stand-in with NeqSim's interface"]


def setup(tier):
    fn.install()


def train_model(rng):
    multi = rng.random() < 0.3
    t = L.random_train(rng, multi=multi)
    extra = dict(multi=True, first="DOWNSTREAM_CHOKE", last="DOWNSTREAM_CHOKE") if multi else {}
    models, _ = L.yaml_models(rng, t, "train", "DOWNSTREAM_CHOKE", extra, order=list(range(len(t.streams))))
    usage = {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": "train", "SUCTION_PRESSURE": "SIM;ps", "DISCHARGE_PRESSURE": "SIM;pd"}
    if multi:
        usage["TYPE"] = "VARIABLE_SPEED_COMPRESSOR_TRAIN_MULTIPLE_STREAMS_AND_PRESSURES"
        usage["COMPRESSOR_TRAIN_MODEL"] = usage.pop("ENERGYFUNCTION")
        usage["RATE_PER_STREAM"] = [f"SIM;r{j}" for j in range(len(t.streams))]
        if t.inter is not None:
            usage["INTERSTAGE_CONTROL_PRESSURE"] = "SIM;pi"
    else:
        usage["RATE"] = "SIM;r0"
    if rng.random() < 0.3:
        usage["CONDITION"] = "SIM;ps > 0"
    data = {f"r{j}": [0.0, 0.0] for j in range(len(t.streams))}
    data.update(ps=[t.P] * 2, pd=[t.P * 2] * 2, pi=[t.P * 1.5] * 2)
    return L.model_of(models, usage, [dt.datetime(2020, 1, 1), dt.datetime(2021, 1, 1)], data, 1.0)


def attempt(m, files):
    """-> (verdict, text, error)"""
    with lab.scratch() as d:
        path = lab.write_files(d, m, files)
        try:
            model = lab.load(path).validate_for_run()
        except EcalcError as e:
            return "refused" if e.error_type == EcalcErrorType.CLIENT_ERROR else "internal", str(e), e
        try:
            model.evaluate_energy_usage()
            from libecalc.presentation.json_result.mapper import get_asset_result

            get_asset_result(model)
        except EcalcError as e:
            return "late" if e.error_type == EcalcErrorType.CLIENT_ERROR else "internal", str(e), e
        return "ran", "", None


def case(ctx):
    rng = ctx.rng
    fn.fresh(None)
    if rng.random() < 0.25:
        m, files = train_model(rng)
    else:
        m, files = Model(rng, dated=rng.choice([0.0, 0.3])).compose(n_inst=rng.choice([1, 1, 2])).build(shuffle=False)
    if rng.random() < 0.04:
        ctx.note(yaml=lab.dump(m), files=files)
        v, text, _ = attempt(m, files)
        ctx.require(v == "ran", "correct-model", f"a correct model was refused: {text[:300]}")
        ctx.obs("correct model runs")
        return
    if rng.random() < 0.08:
        text, how = mutate.broken_text(rng, lab.dump(m))
        ctx.note(yaml=text, how=how)
        v, msg, _ = attempt(text, files)
        ctx.obs("syntax")
        ctx.require(v == "refused", f"syntax:{v}", f"YAML with a mistake in its syntax ({how}): {v} {msg[:300]}")
        ctx.require("line" in msg.lower() or "key" in msg.lower(), "syntax:mentions", f"{how}: the refusal does not say where: {msg[:300]}")
        ctx.distinct(("syntax", how, len(text)))
        return
    if rng.random() < 0.08:
        y = mutate.later(rng, m, files)
        if y is not None:
            m2, files2, detail = y
            ctx.note(yaml=lab.dump(m2), files=files2, detail=detail)
            v, msg, _ = attempt(m2, files2)
            ctx.obs(f"later: {v}")
            ctx.require(v in ("refused", "ran", "late"), f"later:{v}", f"{detail}: {v} {msg[:300]}")
            ctx.distinct(("later", tuple(detail)))
            return
    x = None
    while x is None:
        x = mutate.mistake(rng, m, files)
    kind, m2, files2, words, detail = x
    ctx.note(yaml=lab.dump(m2), files=files2, kind=kind, detail=detail)
    ctx.obs(kind)
    v, text, err = attempt(m2, files2)
    ctx.obs(f"{v}")
    ctx.require(v == "refused" or (v == "late" and kind == "expression"), f"{kind}:{v}", f"{kind} ({detail}): {v} {text[:300]}")
    if v == "refused":
        ctx.require(any(w and w in text for w in words), f"{kind}:mentions", f"{kind} ({detail}): the refusal mentions none of {words}: {text[:500]}")
        if isinstance(err, ModelValidationException):
            ctx.obs("with location")
            ctx.require(err.error_count() == len(err.errors()) > 0, f"{kind}:count", "a refusal without an error")
    ctx.distinct((kind, detail, m2.get("START") if isinstance(m2, dict) else 0))
    ctx.sample({"kind": kind, "detail": detail, "message": text[:200]})
