"""P07: diagnostic cycle configuration."""
from .common import *

BOUNDS = {"all": "2-3 cycle types with 0-2 symbolic cycle numbers each; 2-3 raw cycles of 1-3 rows with symbolic "
                 "step numbers, patterns of 1-2 symbolic step numbers"}
OUTSIDE = "more types, cycles or patterns"
ASSUMPTIONS = []
NAMES = ["hppc", "rpt_0.2C", "RPT_1C", "reset", "my_Hppc_rpt", "custom"]


def cfg():
    from beep.structure.diagnostic import DiagnosticConfig
    return DiagnosticConfig


def conc_ints(c, names, hi):
    """symbolic integers resolved to values by case split (they become set members)."""
    return [c.choice(n, list(range(hi))) for n in names]


def construction(c):
    C = cfg()
    shape = c.params["shape"]
    names = c.choice("names", c.params["names"])
    spec = {}
    for n, k in zip(names, shape):
        spec[n] = conc_ints(c, [f"{n}_{j}" for j in range(k)], 3)
    sets = {n: set(v) for n, v in spec.items()}
    overlap = any(sets[a] & sets[b] for a in sets for b in sets if a < b)
    bad, d = raises((ValueError,), lambda: C({k: list(v) for k, v in spec.items()}, parameter_set="Tesla21700", rate=0.5, n=3))
    c.cover("overlap" if overlap else "disjoint")
    c.require("a cycle with two types is refused", bad == overlap)
    if bad:
        return
    alln = set().union(*sets.values())
    c.require("all cycles", set(d.all_ix) == alln)
    for i in range(4):
        t = [n for n in sets if i in sets[n]]
        c.require("type of a cycle", (d.type_by_ix.get(i) == t[0]) if t else i not in d.type_by_ix)
    for n in sets:
        c.require("cycles of a type", set(d.cycles[n]) == sets[n])
    for key in ("hppc", "rpt", "reset"):
        want = set().union(*[sets[n] for n in sets if key in n.lower()] + [set()])
        c.require(f"{key} cycles", set(getattr(d, key + "_ix")) == want)
    import json
    back = C.from_dict(json.loads(json.dumps(d.as_dict())))
    c.require("round trip: cycles", {k: set(v) for k, v in back.cycles.items()} == sets)
    c.require("round trip: derived", set(back.hppc_ix) == set(d.hppc_ix) and set(back.rpt_ix) == set(d.rpt_ix)
              and set(back.reset_ix) == set(d.reset_ix) and set(back.all_ix) == alln
              and back.type_by_ix == d.type_by_ix)
    c.require("round trip: parameters", back.params == dict(parameter_set="Tesla21700", rate=0.5, n=3))


def refusals(c):
    C = cfg()
    bad, _ = raises((ValueError,), lambda: C({}))
    c.require("an empty configuration is refused", bad)
    v = c.choice("v", [[1], {"a": 1}, None, (1,)])
    bad, _ = raises((TypeError,), lambda: C({"rpt": [1]}, extra=v))
    c.require("non-primitive parameters are refused", bad)
    c.cover("reached")


def steps(c):
    """from_step_numbers: 'contains' and 'exact' matching."""
    C = cfg()
    rows = c.params["rows"]
    cyc, st = [], []
    per = {}
    for a, n in enumerate(rows):
        per[a + 2] = []
        for r in range(n):
            s = c.int(f"s{a}_{r}", 1, c.params.get("hi", 4))
            cyc.append(a + 2)
            st.append(s)
            per[a + 2].append(s)
    rule = c.choice("rule", ["contains", "exact"])
    pats = c.params["patterns"]
    df = frame(c, {"cycle_index": cyc, "step_index": st})
    snap = snapshot(df)
    d = C.from_step_numbers(df, {"rpt": (rule, pats)}, parameter_set="x")
    for l, t in same_frame(df, snap):
        c.require("raw data: " + l, t)
    c.require("parameters kept", d.params == {"parameter_set": "x"})
    for cy, ss in per.items():
        conds = []
        for p in pats:
            has = all_of([any_of([s == q for s in ss]) for q in p])
            only = all_of([any_of([s == q for q in p]) for s in ss])
            conds.append(has if rule == "contains" else all_of(has, only))
        got = cy in d.cycles["rpt"]
        c.cover("match" if got else "no match")
        c.require(f"cycle {cy} matched exactly when the rule says so", any_of(conds) if got else not_(any_of(conds)))


def step_types(c):
    """two criteria on the same data: each cycle listed under the criterion it satisfies, or refused."""
    C = cfg()
    st = [c.int(f"s{i}", 1, 4) for i in range(3)]
    df = frame(c, {"cycle_index": [1, 1, 3], "step_index": st})
    crit = {"hppc": ("contains", [(1, 2)]), "rpt": ("exact", [(3,), (4,)])}
    d = C.from_step_numbers(df, crit)
    A = any_of(all_of(st[0] == 1, st[1] == 2), all_of(st[0] == 2, st[1] == 1))
    c.require("hppc cycle", A if 1 in d.hppc_ix else not_(A))
    B1 = all_of(st[0] == st[1], any_of(st[0] == 3, st[0] == 4))
    c.require("rpt cycle 1", B1 if 1 in d.rpt_ix else not_(B1))
    B3 = any_of(st[2] == 3, st[2] == 4)
    c.require("rpt cycle 3", B3 if 3 in d.rpt_ix else not_(B3))
    c.cover("reached")
    bad, _ = raises((ValueError,), lambda: C.from_step_numbers(df, {"hppc": ("like", [(1,)])}))
    c.require("an unknown rule is refused", bad)
    bad, _ = raises((ValueError,), lambda: C.from_step_numbers(df[["cycle_index"]], crit))
    c.require("missing step numbers are refused", bad)


def harnesses(tier):
    nm2 = [["hppc", "rpt_0.2C"], ["reset", "RPT_1C"], ["my_Hppc_rpt", "custom"]]
    hs = [dict(name="construction2", fn=construction, params=dict(shape=[2, 2], names=nm2), weight=3),
          dict(name="construction3", fn=construction,
               params=dict(shape=[1, 2, 1], names=[["hppc", "hppc_slow", "reset"], ["rpt_a", "RPT_b", "custom"]]), weight=3),
          dict(name="refusals", fn=refusals),
          dict(name="steps_a", fn=steps, params=dict(rows=[2, 1], patterns=[(1, 2)])),
          dict(name="steps_b", fn=steps, params=dict(rows=[3], patterns=[(1,), (2, 3)])),
          dict(name="steps_c", fn=steps, params=dict(rows=[1, 2], patterns=[(1, 1), (3,)])),
          dict(name="step_types", fn=step_types)]
    if tier == "thorough":
        hs.append(dict(name="steps_d", fn=steps, params=dict(rows=[3, 2], patterns=[(1, 2, 3), (4,)])))
        hs.append(dict(name="construction4", fn=construction,
                       params=dict(shape=[2, 2, 2], names=[["hppc", "rpt", "reset"]])))
    return hs
