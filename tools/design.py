"""/opt/venv/bin/python tools/design.py: writes DESIGN.md from design_head.md, the properties, the checks' own bounds, known findings, planted bugs and design_tail.md"""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, '/repo']
rd = lambda *p: open(os.path.join(V, *p)).read()


def consts(pid):
    m = importlib.import_module("checks." + pid.lower())
    return {k: getattr(m, k) for k in ("BOUNDS", "OUTSIDE", "ASSUMPTIONS") if hasattr(m, k)}


def main():
    props = [json.loads(l) for l in rd("properties.jsonl").splitlines()]
    na = {x["property"]: x["reason"] for x in json.loads(rd("MANIFEST.json"))["not_applicable"]}
    bugs = {}
    for b in sorted(os.listdir(os.path.join(V, "seeded"))):
        m = json.loads(rd("seeded", b, "meta.json"))
        bugs.setdefault(m["property"], []).append((b, m))
    caught = dict(l.split() for l in rd("tools", "caught.txt").splitlines())
    known, fixed = {}, {}
    for l in rd("known_findings.txt").splitlines():
        if l.startswith("{"):
            k = json.loads(l)
            known.setdefault(k["property"], []).append(k["what"])
        elif l.startswith("fixed:"):
            _, p, h, t = l.split(" ", 3)
            fixed.setdefault(p.split("=")[1], []).append((h, t))
    o = [rd("tools", "design_head.md"), "## Properties\n"]
    for p in props:
        i = p["id"]
        o.append(f"### {i} {p['title']}\n{p['statement']}\n")
        if i in na:
            o.append(f"* **Not applicable**: {na[i]}\n")
            continue
        c = consts(i)
        o.append(f"* Quantified over: {p['quantifier']['text']}.")
        o.append(f"* Why tests cannot settle it: {p['why_tests_cant']}")
        o.append("* Anchors: " + ", ".join(f"`{m['where']}` ({m['name']})" for m in p["anchors"]["mechanism"]) + ".")
        o.append(f"* Decided by: symbolic execution of these functions from `checks/{i.lower()}.py`, whose oracle is written from the statement, "
                 "independently of the code; z3 per path.")
        for k, v in c.get("BOUNDS", {}).items():
            o.append(f"* Bounds{'' if k == 'all' else ' (' + k + ')'}: {v}.")
        if c.get("OUTSIDE"):
            o.append(f"* Outside: {c['OUTSIDE']}.")
        for a in c.get("ASSUMPTIONS", []):
            o.append(f"* Assumes: {a}.")
        for k in known.get(i, []):
            o.append(f"* Known finding: {k}")
        for h, t in fixed.get(i, []):
            o.append(f"* Repaired ({h}): {t}.")
        o.append("")
    o.append("## Planted bugs and the checks that catch them\nEach was confirmed to build, pass the stable tests and fail its demonstration "
             "(`tools/plant.py`).\n\n| bug | property | needs | breaks | caught |\n|---|---|---|---|---|")
    for i in sorted(bugs):
        for b, m in bugs[i]:
            t = lambda s: " ".join(str(s).split()).replace("|", "/")
            o.append(f"| {b} | {i} | {t(m['needs'])} | {t(m['what_it_breaks'])} | {caught.get(b, 'not run')} |")
    o += ["", rd("tools", "design_tail.md")]
    open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o))


main()
