"""P01 expressions: values follow the documented grammar for every expression; ill-formed ones are rejected."""

from __future__ import annotations

import math

from libecalc.expression.expression import Expression, InvalidExpressionError
from vf import lab

CASES = {"quick": 6000, "thorough": 120000}
RULE = (
    "random expression trees over the documented operators, rendered with minimal/random parentheses and spacing, "
    "numeric literals (plain, decimal, scientific), simulator-style references and $var references; plus VARIABLES "
    "sections whose definitions refer to each other in random order, run through the model loader; plus ill-formed "
    "mutations. Non-trivial: at least two operators; distinct by operator/operand shape."
)
MIN_OBS = {"value": 5000, "rejects": 500, "variables-section": 200, "roundtrip": 1000, "missing-reference": 100}
ASSUMPTIONS = ["values compared with relative tolerance 1e-9 against an independent evaluator in python floats"]

OPS = {
    "{^}": (5, "R"),
    "{*}": (4, "L"),
    "{/}": (4, "L"),
    "{+}": (3, "L"),
    "{-}": (3, "L"),
    "==": (2, "L"),
    "!=": (2, "L"),
    "<": (2, "L"),
    ">": (2, "L"),
    "<=": (2, "L"),
    ">=": (2, "L"),
}


def apply(op, a, b):
    """Reference semantics on python floats; None = outside the domain the property speaks about (overflow)."""
    try:
        if op == "{+}":
            r = a + b
        elif op == "{-}":
            r = a - b
        elif op == "{*}":
            r = a * b
        elif op == "{/}":
            r = 0.0 if b == 0 else a / b
        elif op == "{^}":
            if a == 0 and b < 0:
                return None
            r = a**b
            if isinstance(r, complex):
                r = 0.0  # not a number
        else:
            r = float({"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op])
    except OverflowError:
        return None
    if math.isinf(r) or abs(r) > 1e200:
        return None
    if math.isnan(r):
        return 0.0
    return r


REFS = ["SIM1;OIL_PROD", "SIM2;GAS-INJ:A", "X", "S.1;a+b", "T/2;c*d", "$var.v_1", "$var.other", "INF;nan", "e3"]


def literal(rng):
    k = rng.randrange(8)
    if k == 7:
        return f"{rng.uniform(1, 9):.2f}e{rng.choice(['-', '-', '+', ''])}{rng.randrange(6, 12)}"
    if k == 0:
        return str(rng.randrange(0, 10))
    if k == 1:
        return str(rng.randrange(0, 5000))
    if k == 2:
        return f"{rng.uniform(0, 10):.3f}"
    if k == 3:
        return f"{rng.uniform(0, 9):.2f}e{rng.choice(['', '+', '-'])}{rng.randrange(0, 5)}"
    if k == 4:
        return f"{rng.randrange(1, 10)}e{rng.choice(['', '+', '-'])}{rng.randrange(0, 6)}"
    if k == 5:
        return f"{rng.uniform(10, 5000):.1f}e{rng.choice(['', '+', '-'])}{rng.randrange(0, 4)}"
    return rng.choice(["0", "0.5", "1", "2", "1.0"])


def tree(rng, depth):
    if depth == 0 or rng.random() < 0.2:
        return ("lit", literal(rng)) if rng.random() < 0.55 else ("ref", rng.choice(REFS))
    op = rng.choice(["{+}", "{-}", "{*}", "{/}", "{^}"] * 3 + ["==", "!=", "<", ">", "<=", ">="] * 2)
    return ("op", op, tree(rng, depth - 1), tree(rng, depth - 1))


def render(t, rng, extra):
    """Text whose documented parse is t. extra = probability of redundant parentheses."""

    def sp():
        return rng.choice(["", " ", "  "])

    def wrap(s):
        return f"({sp()}{s}{sp()})"

    if t[0] != "op":
        s = t[1]
        return wrap(s) if rng.random() < extra else s
    op, prec, assoc = t[1], *OPS[t[1]]
    ls, rs = render(t[2], rng, extra), render(t[3], rng, extra)
    if t[2][0] == "op":
        lp = OPS[t[2][1]][0]
        if lp < prec or (lp == prec and assoc == "R"):
            ls = wrap(ls)
    if t[3][0] == "op":
        rp = OPS[t[3][1]][0]
        if rp < prec or (rp == prec and assoc == "L"):
            rs = wrap(rs)
    # Reference names may contain + - * / : ; . so separate them from following text when needed
    s = f"{ls}{rng.choice([' ', '  ', '' if not ls[-1:].isalnum() else ' '])}{op}{sp()}{rs}"
    return wrap(s) if rng.random() < extra else s


def evaluate(t, env, i):
    if t[0] == "lit":
        return float(t[1])
    if t[0] == "ref":
        return float(env[t[1]][i])
    a, b = evaluate(t[2], env, i), evaluate(t[3], env, i)
    if a is None or b is None:
        return None
    return apply(t[1], a, b)


def shape(t):
    return t[0] if t[0] != "op" else (t[1], shape(t[2]), shape(t[3]))


def n_ops(t):
    return 0 if t[0] != "op" else 1 + n_ops(t[2]) + n_ops(t[3])


def make_env(rng, n):
    env = {}
    for r in REFS:
        env[r] = [rng.choice([0.0, 1.0, -1.0, 2.0, rng.uniform(-50, 50), rng.uniform(0, 3), 1e4, 10 ** rng.uniform(-11, 9)]) for _ in range(n)]
    return env


def close_to(g, w):
    return abs(g - w) <= 1e-9 * max(1.0, abs(g), abs(w))


def fragile(t, env, i):
    """A comparison or a discontinuous power fed by nearly equal floats may legitimately differ by rounding."""
    if t[0] != "op":
        return False
    if fragile(t[2], env, i) or fragile(t[3], env, i):
        return True
    a, b = evaluate(t[2], env, i), evaluate(t[3], env, i)
    if a is None or b is None:
        return True
    if t[1] in ("==", "!=", "<", ">", "<=", ">="):
        return a != b and close_to(a, b)
    if t[1] == "{/}":
        return 0 < abs(b) < 1e-30
    if t[1] == "{^}":
        return (a < 0 and abs(b - round(b)) < 1e-9 and b != round(b)) or 0 < abs(a) < 1e-12
    return False


def case_value(ctx):
    rng = ctx.rng
    t = tree(rng, rng.choice([1, 2, 3, 3, 4, 5]))
    text = render(t, rng, rng.choice([0, 0, 0.2, 0.5]))
    n = rng.choice([1, 2, 5])
    env = make_env(rng, n)
    ctx.note(expression=text, env=env)
    e = Expression.setup_from_expression(text)
    got = list(e.evaluate(variables={k: list(v) for k, v in env.items()}, fill_length=n))
    ctx.require(len(got) == n, "length", f"{len(got)} values for {n} periods of {text!r}")
    again = list(Expression.setup_from_expression(str(e)).evaluate(variables=env, fill_length=n))
    ctx.close_list(again, got, "roundtrip", f"text form of {text!r} evaluates differently", rel=0, abs_=0)
    for i in range(n):
        want = evaluate(t, env, i)
        if want is None or fragile(t, env, i):
            ctx.obs("skipped-overflow-or-tie")
            continue
        ctx.obs("value")
        if not close_to(float(got[i]), want) and not (abs(want) > 1e12 and abs(got[i] / want - 1) < 1e-6):
            ctx.violation("value", f"{text!r} gives {got[i]!r}, expected {want!r}", period=i)
    # substituting the value of a reference must be the same as the reference
    if n_ops(t) >= 2:
        ctx.distinct(shape(t))
    ctx.sample({"expression": text, "values": got})


def case_numbers(ctx):
    rng = ctx.rng
    v = rng.choice([rng.uniform(-1e6, 1e6), rng.randrange(-100, 100), 0, -0.5, 1e-7, 3.2e-9, 1.5e12])
    n = rng.choice([1, 3])
    for form in (v, str(v), f" {v} "):
        got = Expression.setup_from_expression(form).evaluate(variables={}, fill_length=n)
        ctx.close_list(got, [float(v)] * n, "number", f"number {form!r}", rel=1e-12, abs_=0)
    # product of two expressions
    a, b = tree(rng, 2), tree(rng, 2)
    env = make_env(rng, 1)
    ta, tb = render(a, rng, 0), render(b, rng, 0)
    ea, eb = Expression.setup_from_expression(ta), Expression.setup_from_expression(tb)
    got = Expression.multiply(ea, eb).evaluate(variables=env, fill_length=1)[0]
    va, vb = ea.evaluate(variables=env, fill_length=1)[0], eb.evaluate(variables=env, fill_length=1)[0]
    if abs(va) < 1e100 and abs(vb) < 1e100:
        ctx.close(got, va * vb, "multiply", f"product of {ta!r} and {tb!r}")


def tokens_of(t, rng):
    s = render(t, rng, 0.3)
    out, word = [], ""
    i = 0
    while i < len(s):
        for op in sorted([*OPS, "(", ")"], key=len, reverse=True):
            if s.startswith(op, i) and not (op in ("(", ")") and False):
                if word.strip():
                    out.append(word.strip())
                word = ""
                out.append(op)
                i += len(op)
                break
        else:
            word += s[i]
            i += 1
    if word.strip():
        out.append(word.strip())
    return out


def case_reject(ctx):
    rng = ctx.rng
    t = tree(rng, rng.choice([1, 2, 3]))
    toks = tokens_of(t, rng)
    kind = rng.choice(["paren", "drop-operand", "extra-operand", "illegal", "bare-op", "empty"])
    if kind == "paren":
        toks.insert(rng.randrange(len(toks) + 1), rng.choice("()"))
    elif kind == "drop-operand":
        idx = [i for i, x in enumerate(toks) if x not in OPS and x not in "()"]
        del toks[rng.choice(idx)]
    elif kind == "extra-operand":
        toks.insert(rng.randrange(len(toks) + 1), rng.choice(["3", "4.5", "X"]))
    elif kind == "illegal":
        toks.insert(rng.randrange(len(toks) + 1), rng.choice(["+", "=", "^", "&", "%", "[", "!", "-", "{", "@"]))
    elif kind == "bare-op":
        toks.insert(rng.randrange(len(toks) + 1), rng.choice(list(OPS)))
    else:
        toks = rng.choice([[], ["(", ")"], ["{+}"], ["(", ")", "(", ")"]])
    text = " ".join(toks)
    ctx.note(expression=text, kind=kind)
    env = make_env(rng, 2)
    try:
        got = Expression.setup_from_expression(text).evaluate(variables=env, fill_length=2)
    except InvalidExpressionError:
        ctx.obs("rejects")
        ctx.obs(f"rejects-{kind}")
        return
    ctx.violation("rejects", f"ill-formed expression {text!r} ({kind}) was accepted and gave {list(got)}")


def case_missing(ctx):
    rng = ctx.rng
    t = ("op", rng.choice(["{+}", "{*}", "{-}"]), tree(rng, 2), ("ref", "NOT;DEFINED"))
    if rng.random() < 0.5:
        t = ("op", "{*}", ("lit", "0"), t)
    text = render(t, rng, 0.2)
    try:
        got = Expression.setup_from_expression(text).evaluate(variables=make_env(rng, 1), fill_length=1)
    except InvalidExpressionError:
        ctx.obs("missing-reference")
        return
    ctx.violation("missing-reference", f"{text!r} with an undefined reference gave {list(got)}")


def case_variables(ctx):
    """VARIABLES through the loader: order of definition is irrelevant, cycles and unknown names are rejected."""
    from libecalc.presentation.yaml.model_validation_exception import ModelValidationException

    rng = ctx.rng
    years = list(range(2020, 2020 + rng.choice([2, 3, 5])))
    cols = ["OIL", "GAS-1", "W_I"]
    rows = [[lab.D(y, 1, 1)] + [rng.choice([0.0, rng.uniform(-5, 50)]) for _ in cols] for y in years]
    files = {"sim.csv": lab.csv_text(["DATE"] + cols, rows)}
    ts = [{"NAME": "SIM", "TYPE": "DEFAULT", "FILE": "sim.csv"}]
    env = {f"SIM;{c}": [r[1 + k] for r in rows] for k, c in enumerate(cols)}
    n_var = rng.randrange(2, 6)
    names = [f"v{i}" for i in range(n_var)]
    trees, exact = {}, dict(env)
    ok = True
    for i, name in enumerate(names):
        pool = list(env) + [f"$var.{x}" for x in names[:i]]

        def rt(depth):
            if depth == 0 or rng.random() < 0.15:
                return ("lit", literal(rng)) if rng.random() < 0.35 else ("ref", rng.choice(pool))
            return ("op", rng.choice(["{+}", "{-}", "{*}", "{/}", ">", "<="]), rt(depth - 1), rt(depth - 1))

        t = rt(rng.choice([1, 2]))
        trees[name] = t
        vals = [evaluate(t, exact, k) for k in range(len(years))]
        if any(v is None for v in vals) or any(fragile(t, exact, k) for k in range(len(years))):
            ok = False
            break
        exact[f"$var.{name}"] = vals
    if not ok:
        ctx.obs("skipped-overflow-or-tie")
        return
    order = names[:]
    rng.shuffle(order)
    variables = {name: {"VALUE": render(trees[name], rng, 0.2)} for name in order}
    kind = rng.choice(["ok", "ok", "ok", "cycle", "unknown"])
    if kind == "cycle":
        a, b = names[0], names[-1]
        variables[a] = {"VALUE": f"$var.{b} {{+}} 1"}
        variables[b] = {"VALUE": f"$var.{a} {{*}} 2"}
    if kind == "unknown":
        variables[names[0]] = {"VALUE": rng.choice(["$var.nope {+} 1", "SIM;NOPE {*} 2", "OTHER;OIL"])}
    model = lab.minimal_model(variables=variables, time_series=ts, start=None, end=lab.D(years[-1] + 1, 1, 1))
    ctx.note(variables=variables, rows=rows, kind=kind)
    try:
        m = lab.validated(model, files)
    except ModelValidationException as e:
        if kind == "ok":
            ctx.violation("variables-section", f"valid VARIABLES rejected: {str(e)[:300]}")
        ctx.obs("variables-rejected")
        return
    if kind != "ok":
        ctx.violation("variables-rejected", f"VARIABLES with {kind} reference accepted: {variables}")
    got = m.variables.variables
    for name in names:
        ctx.close_list(got[f"$var.{name}"], exact[f"$var.{name}"], "variables-section", f"variable {name}", rel=1e-9, abs_=1e-9)
    ctx.distinct(("vars", tuple(order), tuple(shape(trees[n]) for n in names)))
    ctx.sample({"variables": variables})


def case(ctx):
    k = ctx.index % 12
    if k < 6:
        case_value(ctx)
    elif k == 6:
        case_numbers(ctx)
    elif k in (7, 8):
        case_reject(ctx)
    elif k == 9:
        case_missing(ctx)
    else:
        case_variables(ctx)
