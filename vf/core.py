"""Monitor framework: cases drive the real code, monitors observe and judge, the runner gives a three-valued verdict.

Verdicts: 0 = held on everything observed; 1 = violation (with replay file); 2 = the check itself failed;
3 = inconclusive (the monitors did not see enough to decide).
"""

from __future__ import annotations

import hashlib
import json
import math
import os
import random
import signal
import sys
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO_SRC = os.environ.get("VF_REPO_SRC", "/repo/src")


class CaseTimeout(BaseException):
    pass


class Violation(BaseException):
    """Raised by ctx.violation to abandon the current case."""


def _jsonable(o, depth=0):
    if depth > 8:
        return repr(o)[:200]
    if isinstance(o, (str, int, bool)) or o is None:
        return o
    if isinstance(o, float):
        return o if math.isfinite(o) else repr(o)
    if isinstance(o, dict):
        return {str(k): _jsonable(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [_jsonable(v, depth + 1) for v in list(o)[:400]]
    try:
        import numpy as np

        if isinstance(o, np.generic):
            return _jsonable(o.item(), depth + 1)
        if isinstance(o, np.ndarray):
            return _jsonable(o.tolist(), depth + 1)
    except ImportError:
        pass
    return repr(o)[:400]


class Ctx:
    """One case: a deterministic random source plus the monitor's log."""

    def __init__(self, prop: str, seed: int, index, tier: str):
        self.prop, self.seed, self.index, self.tier = prop, seed, index, tier
        digest = hashlib.sha256(f"{prop}|{seed}|{index}".encode()).digest()
        self.rng = random.Random(int.from_bytes(digest[:8], "big"))
        self.counts: dict[str, int] = {}
        self.keys: set[int] = set()
        self.samples: list = []
        self.data: dict = {}
        self.violations: list[dict] = []

    @property
    def thorough(self) -> bool:
        return self.tier == "thorough"

    def obs(self, name: str, n: int = 1):
        """Count n events seen by monitor `name`."""
        self.counts[name] = self.counts.get(name, 0) + n

    def distinct(self, key):
        self.keys.add(int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "big"))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(_jsonable(obj))

    def note(self, **kw):
        """Remember the inputs of the case for the replay file."""
        self.data.update(kw)

    def violation(self, mechanism: str, message: str, abandon: bool = True, **data):
        self.violations.append({"mechanism": mechanism, "message": message, "data": _jsonable({**self.data, **data})})
        if abandon:
            raise Violation()

    def require(self, cond, mechanism: str, message: str, **data):
        self.obs(mechanism)
        if not cond:
            self.violation(mechanism, message, **data)
        return bool(cond)

    def close(self, got, want, mechanism: str, message: str, rel=1e-9, abs_=1e-9, **data):
        """Numeric agreement; NaN agrees with NaN, inf with inf."""
        self.obs(mechanism)
        if not is_close(got, want, rel, abs_):
            self.violation(mechanism, f"{message}: got {got!r}, expected {want!r}", **data)

    def close_list(self, got, want, mechanism: str, message: str, rel=1e-9, abs_=1e-9, **data):
        got, want = list(got), list(want)
        self.obs(mechanism, max(1, len(want)))
        if len(got) != len(want):
            self.violation(mechanism, f"{message}: {len(got)} values, expected {len(want)}", got=got, want=want, **data)
        for i, (g, w) in enumerate(zip(got, want)):
            if not is_close(g, w, rel, abs_):
                self.violation(
                    mechanism, f"{message}: at {i} got {g!r}, expected {w!r}", got=got, want=want, **data
                )


def is_close(got, want, rel=1e-9, abs_=1e-9) -> bool:
    try:
        g, w = float(got), float(want)
    except (TypeError, ValueError):
        return got is None and want is None
    if math.isnan(g) or math.isnan(w):
        return math.isnan(g) and math.isnan(w)
    if math.isinf(g) or math.isinf(w):
        return g == w
    return abs(g - w) <= max(abs_, rel * max(abs(g), abs(w)))


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(module, prop, seed, index, tier, case_timeout) -> Ctx:
    ctx = Ctx(prop, seed, index, tier)
    ctx.error = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(case_timeout)
    try:
        if isinstance(index, str):
            module.FIXED[index](ctx)
        else:
            module.case(ctx)
    except Violation:
        pass
    except CaseTimeout:
        ctx.violation(
            "no-termination", f"case did not finish within {case_timeout} s: {traceback.format_exc()[-1500:]}", abandon=False
        )
    except Exception as e:  # an exception nobody asked for
        tb = e.__traceback__
        frames = traceback.extract_tb(tb)
        repo_frames = [f for f in frames if f.filename.startswith(REPO_SRC)]
        text = traceback.format_exc()
        if repo_frames:
            last = repo_frames[-1]
            ctx.violation(
                f"exception:{type(e).__name__}:{last.name}",
                f"the code raised {type(e).__name__}: {str(e)[:300]}",
                abandon=False,
                traceback=text[-4000:],
            )
        else:
            ctx.error = text
    finally:
        signal.alarm(0)
    return ctx


def known_findings(prop: str) -> dict[str, str]:
    """known: property=<id> key=<mechanism> <text>  -> suppressed with a KNOWN-FINDING line; fixed: lines suppress nothing."""
    out = {}
    path = VERIF / "known_findings.txt"
    if not path.exists():
        return out
    for line in path.read_text().splitlines():
        if line.startswith("known: "):
            parts = line.split(None, 3)
            if parts[1] == f"property={prop}" and parts[2].startswith("key="):
                out[parts[2][4:]] = parts[3] if len(parts) > 3 else ""
    return out


def _worker(module_name, prop, seed, tier, indices, deadline, case_timeout, max_viol, conn):
    import importlib

    module = importlib.import_module(module_name)
    known = set(known_findings(prop))
    res = {"counts": {}, "keys": set(), "samples": [], "violations": [], "known": {}, "errors": [], "done": 0, "left": 0}
    try:
        if hasattr(module, "setup"):
            module.setup(tier)
    except Exception:
        res["errors"].append(traceback.format_exc())
        conn.send(res)
        return
    for n, index in enumerate(indices):
        if time.time() > deadline:
            res["left"] = len(indices) - n
            break
        ctx = run_case(module, prop, seed, index, tier, case_timeout)
        res["done"] += 1
        for k, v in ctx.counts.items():
            res["counts"][k] = res["counts"].get(k, 0) + v
        res["keys"] |= ctx.keys
        if len(res["samples"]) < 3:
            res["samples"] += ctx.samples[:1]
        if ctx.error:
            res["errors"].append(f"case {index}: {ctx.error}")
            if len(res["errors"]) > 3:
                break
        for v in ctx.violations:
            if v["mechanism"] in known:
                res["known"][v["mechanism"]] = res["known"].get(v["mechanism"], 0) + 1
            else:
                res["violations"].append({**v, "case": index})
        if len(res["violations"]) >= max_viol:
            break
    conn.send(res)


def run_check(module_name: str, prop: str, argv: list[str]) -> int:
    import importlib
    import multiprocessing as mp

    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.path.insert(0, REPO_SRC)
    import libecalc

    assert os.path.realpath(libecalc.__file__).startswith(os.path.realpath(REPO_SRC)), libecalc.__file__
    module = importlib.import_module(module_name)
    case_timeout = getattr(module, "CASE_TIMEOUT", {"quick": 120, "thorough": 300})[tier]

    if "--case" in argv:
        raw = argv[argv.index("--case") + 1]
        index = int(raw) if raw.lstrip("-").isdigit() else raw
        if hasattr(module, "setup"):
            module.setup(tier)
        ctx = run_case(module, prop, seed, index, tier, case_timeout)
        print(json.dumps({"counts": ctx.counts, "violations": ctx.violations, "samples": ctx.samples}, indent=1))
        if ctx.error:
            print(ctx.error)
            return 2
        return 1 if ctx.violations else 0

    n = int(os.environ.get("VF_CASES", 0)) or module.CASES[tier]
    budget = {"quick": getattr(module, "BUDGET", 240), "thorough": getattr(module, "BUDGET_THOROUGH", 780)}[tier]
    deadline = t0 + budget
    indices: list = list(getattr(module, "FIXED", {})) + list(range(n))
    nproc = max(1, min(getattr(module, "PROCS", 8), int(os.environ.get("VF_PROCS", "8")), len(indices)))
    ctxmp = mp.get_context("fork")
    procs = []
    for w in range(nproc):
        r, s = ctxmp.Pipe(duplex=False)
        p = ctxmp.Process(
            target=_worker,
            args=(module_name, prop, seed, tier, indices[w::nproc], deadline, case_timeout, 3, s),
        )
        p.start()
        s.close()
        procs.append((p, r))
    agg = {"counts": {}, "keys": set(), "samples": [], "violations": [], "known": {}, "errors": [], "done": 0, "left": 0}
    for p, r in procs:
        try:
            res = r.recv()
        except EOFError:
            p.join()
            agg["errors"].append(f"worker died with exit code {p.exitcode}")
            continue
        p.join()
        for k, v in res["counts"].items():
            agg["counts"][k] = agg["counts"].get(k, 0) + v
        for k, v in res["known"].items():
            agg["known"][k] = agg["known"].get(k, 0) + v
        agg["keys"] |= res["keys"]
        for f in ("samples", "violations", "errors"):
            agg[f] += res[f]
        agg["done"] += res["done"]
        agg["left"] += res["left"]

    wall = time.time() - t0
    missing = {k: v for k, v in getattr(module, "MIN_OBS", {}).items() if agg["counts"].get(k, 0) < v}
    if tier == "quick" and "VF_CASES" in os.environ:
        missing = {}
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": agg["done"],
            "distinct_nontrivial": len(agg["keys"]),
            "rule": module.RULE,
            "samples": agg["samples"][:6],
            "monitor_observations": dict(sorted(agg["counts"].items())),
            "cases_not_reached_in_time": agg["left"],
            "exhaustive": False,
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(agg["violations"]),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(evidence, indent=1) + "\n")

    texts = known_findings(prop)
    for k, v in sorted(agg["known"].items()):
        print(f"KNOWN-FINDING: property={prop} {k}: {texts[k]} (seen {v} times)")
    print(
        f"{prop} tier={tier} seed={seed}: {agg['done']} cases, {len(agg['keys'])} distinct non-trivial, "
        f"{sum(agg['counts'].values())} monitor observations over {len(agg['counts'])} monitors, {wall:.1f} s"
    )
    for k, v in sorted(agg["counts"].items()):
        print(f"   observed {v:>9}  {k}")
    if agg["violations"]:
        agg["violations"].sort(key=lambda v: (isinstance(v["case"], int), str(v["case"])))
        rdir = VERIF / "evidence" / "replay"
        rdir.mkdir(exist_ok=True)
        first = agg["violations"][0]
        path = rdir / f"{prop}_{tier}_{seed}_{first['case']}.json"
        path.write_text(
            json.dumps(
                {
                    "property": prop,
                    "replay": f"cd {VERIF} && VERIF_SEED={seed} ./check {prop} {tier} --case {first['case']}",
                    "violations": agg["violations"][:10],
                },
                indent=1,
            )
            + "\n"
        )
        for v in agg["violations"][:8]:
            print(f"   case {v['case']} [{v['mechanism']}] {v['message'][:500]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if agg["errors"]:
        print("CHECK ERROR")
        for e in agg["errors"][:4]:
            print(e)
        return 2
    if missing:
        print(f"INCONCLUSIVE: monitors saw too little: {missing}")
        return 3
    return 0
