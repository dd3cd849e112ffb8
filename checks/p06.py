"""P06: validation verdicts."""
import os
from .common import *

BOUNDS = {"all": "2-3 rows per column, 1-2 schema columns with symbolic limits; every shipped tabular schema with "
                 "all of its columns symbolic"}
OUTSIDE = "more rows; NaN cells; column-name case other than lower/Title"
ASSUMPTIONS = []


def validator(schema):
    from beep.structure.validate import SimpleValidator
    v = SimpleValidator()
    v.schema = schema
    return v


def expected(schema, data):
    """violated rule per column, from the schema documentation."""
    bad = []
    for k, s in schema.items():
        s = s["schema"]
        if k not in data:
            continue
        x = data[k]
        if s.get("max") is not None:
            bad.append(any_of([a > s["max"] for a in x]))
        if s.get("min") is not None:
            bad.append(any_of([a < s["min"] for a in x]))
        if s.get("max_at_least") is not None:
            bad.append(smax(x) < s["max_at_least"])
        if s.get("min_is_below") is not None:
            bad.append(smin(x) > s["min_is_below"])
        if s.get("monotonic") == "increasing":
            bad.append(any_of([b < a for a, b in zip(x, x[1:])]) if len(x) > 1 else False)
    return any_of(bad)


def one_rule(c):
    rule = c.params["rule"]
    n = c.params["n"]
    x = [c.real(f"x{i}", -100, 100) for i in range(n)]
    y = [c.real(f"y{i}", -100, 100) for i in range(n)]
    lim = "increasing" if rule == "monotonic" else c.real("lim", -50, 50)
    schema = {"voltage": {"schema": {rule: lim}, "type": "list"}}
    name = c.choice("case", ["voltage", "Voltage"])
    df = frame(c, {"other": y, name: x})
    snap = snapshot(df)
    ok, reason = validator(schema).validate(df)
    for l, t in same_frame(df, snap):
        c.require("validated frame: " + l, t)
    exp = expected(schema, {"voltage": x})
    ok = bool(ok)
    c.cover("valid" if ok else "invalid")
    c.require("verdict", not_(exp) if ok else exp)
    c.require("reason given exactly on failure", (len(reason) == 0) == ok)
    if not ok:
        c.require("the reason names the column", "voltage" in reason.lower())


def two_rules(c):
    n = 2
    x = [c.real(f"x{i}", -100, 100) for i in range(n)]
    y = [c.real(f"y{i}", -100, 100) for i in range(n)]
    lo, hi, at = c.real("lo", -50, 50), c.real("hi", -50, 50), c.real("at", -50, 50)
    schema = {"voltage": {"schema": {"max": hi, "min_is_below": at}, "type": "list"},
              "current": {"schema": {"min": lo, "monotonic": "increasing"}, "type": "list"}}
    df = frame(c, {"current": y, "voltage": x})
    ok, reason = validator(schema).validate(df)
    exp = expected(schema, {"voltage": x, "current": y})
    ok = bool(ok)
    c.cover("valid" if ok else "invalid")
    c.require("verdict", not_(exp) if ok else exp)
    c.require("reason given exactly on failure", (len(reason) == 0) == ok)


def integer(c):
    n = c.params["n"]
    x = [c.real(f"x{i}", -5, 5) for i in range(n)]
    df = frame(c, {"cycle_index": x})
    ok, reason = validator({"cycle_index": {"schema": {"type": "integer"}, "type": "list"}}).validate(df)
    ok = bool(ok)
    c.cover("valid" if ok else "invalid")
    near = [abs(v - core.floor(v + 0.5)) for v in x]
    c.require("integer rule accepts exactly whole numbers",
              all_of([d == 0 for d in near]) if ok else any_of([d > 0 for d in near]))
    c.require("reason given exactly on failure", (len(reason) == 0) == ok)


def dtypes(c):
    rule = c.choice("rule", ["float", "numeric", "string", "integer"])
    kind = c.choice("kind", ["float", "int", "whole_float", "str"])
    vals = {"float": [1.5, 2.25], "int": [1, 2], "whole_float": [1.0, 2.0], "str": ["a", "b"]}[kind]
    if rule == "integer" and kind == "str":
        return
    df = pd.DataFrame({"col": vals})
    want = {"float": kind in ("float", "whole_float"), "numeric": kind != "str", "string": kind == "str",
            "integer": kind in ("int", "whole_float")}[rule]
    ok, reason = validator({"col": {"schema": {"type": rule}, "type": "list"}}).validate(df)
    c.cover(f"{rule}")
    c.require(f"type rule {rule} on {kind} data", bool(ok) == want)
    c.require("reason given exactly on failure", (len(reason) == 0) == bool(ok))
    bad, _ = raises((ValueError,), lambda: validator({"col": {"schema": {"type": "blob"}}}).validate(df))
    c.require("an unknown type rule is refused", bad)


def shipped(c):
    """every column of a shipped schema, through BEEPDatapath.validate."""
    from monty.serialization import loadfn
    from beep import VALIDATION_SCHEMA_DIR
    path = os.path.join(VALIDATION_SCHEMA_DIR, c.params["file"])
    schema = loadfn(path)
    n = c.params["n"]
    data = {}
    focus = c.choice("focus", sorted(k for k in schema if schema[k]["schema"].get("type") != "string"))
    for k, s in schema.items():
        ty = s["schema"].get("type")
        if ty == "string":
            data[k] = ["x"] * n
            continue
        if k == focus:
            data[k] = [(c.int if ty == "integer" else c.real)(f"{k}{i}", -100000, 100000) for i in range(n)]
        else:                               # a value every rule of the column accepts
            lo = s["schema"].get("min", s["schema"].get("max_at_least"))
            hi = s["schema"].get("max", s["schema"].get("min_is_below"))
            a, b = s["schema"].get("min_is_below"), s["schema"].get("max_at_least")
            vals = [x for x in (lo, hi, a, b) if x is not None] or [1]
            first = min([a if a is not None else (lo if lo is not None else vals[0])])
            last = b if b is not None else first
            seq = [first] + [last] * (n - 1)
            if s["schema"].get("monotonic") and last < first:
                seq = [last] * n
            data[k] = [int(x) if ty == "integer" else float(x) for x in seq]
    dp = make_datapath(frame(c, data), schema=c.params["file"])
    ok, reason = dp.validate()
    exp = expected(schema, {k: v for k, v in data.items() if not isinstance(v[0], str)})
    ok = bool(ok)
    c.cover("valid" if ok else "invalid")
    c.require("verdict", not_(exp) if ok else exp)
    c.require("reason given exactly on failure", (len(reason) == 0) == ok)


def sub_patches():
    """numpy dtype questions about proxy columns: they are float columns."""
    orig = np.issubdtype

    def issubdtype(a, b):
        if a == np.dtype(object) and b in (np.floating, np.number, np.inexact):
            return True
        return orig(a, b)
    return [(np, "issubdtype", issubdtype)]


def harnesses(tier):
    hs = []
    for rule in ("max", "min", "max_at_least", "min_is_below", "monotonic"):
        for n in ((2, 3) if tier == "quick" else (1, 2, 3, 4)):
            hs.append(dict(name=f"{rule}_n{n}", fn=one_rule, params=dict(rule=rule, n=n)))
    hs.append(dict(name="two_rules", fn=two_rules, weight=2))
    for n in (1, 2):
        hs.append(dict(name=f"integer_n{n}", fn=integer, params=dict(n=n)))
    hs.append(dict(name="dtypes", fn=dtypes))
    from beep import VALIDATION_SCHEMA_DIR
    for f in sorted(os.listdir(VALIDATION_SCHEMA_DIR)):
        if f in ("schema-projects.yaml", "schema-arbin-cerberus.yaml", "schema-maccor-eis.yaml"):
            continue
        hs.append(dict(name=f"shipped_{f}", fn=shipped, params=dict(file=f, n=2), patches=sub_patches, weight=2))
    return hs
