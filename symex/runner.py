"""python -m symex.runner PXX  -- run the check of one property; exit 0 / 1."""
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
KNOWN = os.path.join(VERIF, "known_findings.txt")

COMMON_ASSUMPTIONS = [
    "floating point is modelled by real arithmetic; obligations carry a tolerance and every "
    "counterexample is replayed with IEEE doubles on the unpatched code before it is reported",
    "numpy/pandas/scipy primitives are executed on object columns of proxies; the reductions, "
    "rounding, interpolation and casts listed in symex/patches.py are replaced by equivalent terms",
]


def load(pid):
    return importlib.import_module(f"checks.{pid.lower()}")


def _task(arg):
    pid, idx, tier, budget = arg
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    from symex import explore
    mod = load(pid)
    h = mod.harnesses(tier)[idx]
    try:
        st, cex = explore.explore(h["fn"], h.get("params", {}), tier,
                                  max_paths=h.get("max_paths", 3000),
                                  max_s=min(h.get("max_s", budget), budget),
                                  query_ms=h.get("query_ms", 30000),
                                  validate=h.get("validate", 12),
                                  extra_patches=h.get("patches"))
        return idx, st, cex, None
    except BaseException as e:                  # an error of the machinery itself
        import traceback
        return idx, None, [], traceback.format_exc()


def replay_file(pid, name, cx, n):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{pid}_{name}_{n}.json".replace("/", "_"))
    with open(p, "w") as f:
        json.dump({"property": pid, "harness": name, "params": cx["params"], "values": cx["values"],
                   "failed": cx["failed"], "predicted": cx["predicted"]}, f, indent=1, default=str)
    return p


def confirm(path, timeout=240):
    """Replay in a fresh interpreter, on the unpatched code."""
    r = subprocess.run([sys.executable, "-m", "symex.replay", path], cwd=VERIF,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    return r.returncode == 1, r.stdout + r.stderr


def known_for(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


class Crew:
    """worker processes, each with a pipe of its own; every fork happens in this thread, so that no worker can inherit
    the pipes of a replay being started"""
    TASKS = 4                                   # then the worker is replaced

    def __init__(self, n, tasks):
        self.ctx = mp.get_context("fork")
        self.tasks = list(tasks)
        self.work = {}                          # connection -> [process, tasks taken, current task]
        for _ in range(n):
            self.start()

    @staticmethod
    def serve(conn):
        while True:
            try:
                t = conn.recv()
            except EOFError:
                return
            conn.send(_task(t))

    def start(self):
        if not self.tasks:
            return
        here, there = self.ctx.Pipe()
        p = self.ctx.Process(target=self.serve, args=(there,), daemon=True)
        p.start()
        there.close()
        self.work[here] = [p, 0, None]
        self.give(here)

    def give(self, conn):
        w = self.work[conn]
        w[1] += 1
        w[2] = self.tasks.pop(0)
        try:
            conn.send(w[2])
        except OSError:                         # it has died: next() sees that
            pass

    def drop(self, conn):
        p = self.work.pop(conn)[0]
        p.kill()
        p.join()
        conn.close()

    def next(self, deadline):
        from multiprocessing.connection import wait
        if not self.work:
            return None
        for conn in wait(list(self.work), timeout=max(0.1, deadline - time.time())):
            w = self.work[conn]
            try:
                r = conn.recv()
            except (EOFError, OSError) as e:
                r = (w[2][1], None, [], f"the worker ended: {e!r}")
                w[1] = self.TASKS
            if w[1] < self.TASKS and self.tasks:
                self.give(conn)
            else:
                self.drop(conn)
                self.start()
            return r
        return None

    def stop(self):
        for conn in list(self.work):
            self.drop(conn)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or (sys.argv[2] if len(sys.argv) > 2 else "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from symex import explore
    from symex.core import z3
    z3.set_param("smt.random_seed", seed)
    mod = load(pid)
    hs = mod.harnesses(tier)
    only = os.environ.get("VERIF_ONLY")
    idxs = [i for i, h in enumerate(hs) if not only or only in h["name"]]
    total = 600.0 if tier == "quick" else 7200.0
    budget = getattr(mod, "BUDGET", {}).get(tier, 240.0 if tier == "quick" else 1500.0)
    order = sorted(idxs, key=lambda i: -hs[i].get("weight", 1))
    results = {}
    errors = []
    nproc = min(8, max(1, len(idxs)))
    tasks = [(pid, i, tier, budget) for i in order]
    if os.environ.get("VERIF_SERIAL"):
        crew = None
        it = map(_task, tasks)
    else:
        crew = Crew(nproc, tasks)
    violations = []
    deadline = t0 + total
    n = 0
    while True:
        if crew:
            r = crew.next(deadline)
        else:
            r = next(it, None)
        if r is None:                           # all done, or out of time: what has not finished is reported as not exhausted
            break
        idx, st, cex, err = r
        if err:
            errors.append((hs[idx]["name"], err))
            continue
        results[idx] = st
        if os.environ.get("VERIF_VERBOSE"):
            d = {k: v for k, v in st.items() if k not in ("functions", "degraded") and v not in (0, [], 0.0)}
            print(hs[idx]["name"], str(d)[:1500], flush=True)
            seen = {}
            for x in st.get("degraded", []):
                seen[x] = seen.get(x, 0) + 1
            for x, k in list(seen.items())[:3]:
                print(f"   degraded x{k}:", x.strip()[-700:], flush=True)
        for c in cex:
            name = hs[idx]["name"]
            p = replay_file(pid, name, c, n)
            n += 1
            try:
                ok, out = confirm(p)
            except subprocess.TimeoutExpired:
                ok, out = False, "replay timed out"
            if not ok:
                st["unreproduced"].append({"labels": c["failed"], "values": c["values"],
                                           "params": c["params"], "replay": out[-500:]})
                continue
            violations.append((name, p, c, out))
            if tier == "quick":                 # decided: do not wait long for the other harnesses
                deadline = min(deadline, time.time() + 20)
    if crew:
        crew.stop()
    known = known_for(pid)
    unfinished = [hs[i]["name"] for i in idxs if i not in results and hs[i]["name"] not in [e[0] for e in errors]]
    # known findings are demonstrated by their own fixed inputs
    for k in known:
        rp = os.path.join(VERIF, k["replay"])
        ok, out = confirm(rp)
        if ok:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    agg = aggregate(hs, results)
    agg["exhausted"] = agg["exhausted"] and not unfinished
    agg["unfinished"] = unfinished
    wall = time.time() - t0
    write_evidence(pid, tier, seed, mod, hs, results, agg, violations, errors, wall)
    for name, p, c, out in violations[:5]:
        print(f"VIOLATION property={pid} replay={os.path.relpath(p, VERIF)}")
        print(f"  harness={name} failed={c['failed'][:4]} values={json.dumps(c['values'], default=str)[:900]}")
    print(f"{pid} {tier}: harnesses={len(results)} paths={agg['paths']} queries={agg['queries']} "
          f"unsat={agg['unsat']} sat={agg['sat']} unknown={agg['unknown']} degraded={agg['degraded']} "
          f"unreproduced={agg['unreproduced']} mismatch={agg['validation_mismatch']} "
          f"exhausted={agg['exhausted']} uncovered={agg['uncovered']} solver_s={agg['solver_s']:.1f} wall_s={wall:.1f}")
    if agg["unknown"] or agg["degraded"] or agg["unreproduced"] or agg["validation_mismatch"] \
            or not agg["exhausted"]:
        print(f"INCONCLUSIVE-PART property={pid}: part of the bounded space was not decided by the "
              "solver in this run; see the evidence file")
    for n, e in errors:
        print(f"ERROR in harness {n}:\n{e}", file=sys.stderr)
    if violations:
        sys.exit(1)
    if errors and not results:
        sys.exit(2)
    sys.exit(0)


def aggregate(hs, results):
    keys = ("paths", "completed", "infeasible", "queries", "unsat", "sat", "unknown",
            "feasibility_checks", "unknown_branches", "divergences", "validated", "requirements")
    a = {k: sum(st[k] for st in results.values()) for k in keys}
    a["solver_s"] = sum(st["solver_s"] for st in results.values())
    for k in ("degraded", "unreproduced", "validation_mismatch", "concretized"):
        a[k] = sum(len(st[k]) for st in results.values())
    a["exhausted"] = all(st["exhausted"] for st in results.values())
    cov = {}
    for i, st in results.items():
        for l, v in st["covers"].items():
            n = hs[i]["name"].split("[")[0] + ":" + l
            cov[n] = cov.get(n, False) or v
    a["covers"] = cov
    a["uncovered"] = sorted(k for k, v in cov.items() if not v)
    return a


def write_evidence(pid, tier, seed, mod, hs, results, agg, violations, errors, wall):
    funcs = sorted({f for st in results.values() for f in st["functions"]})
    samples = []
    for i, st in sorted(results.items())[:40]:
        samples.append({"harness": hs[i]["name"], "params": hs[i].get("params", {}), "paths": st["paths"],
                        "queries": st["queries"], "unsat": st["unsat"], "solver_s": round(st["solver_s"], 3),
                        "covers": st["covers"], "exhausted": st["exhausted"],
                        "concretized": st["concretized"][:5], "degraded": st["degraded"][:2],
                        "unreproduced": st["unreproduced"][:2],
                        "validation_mismatch": st["validation_mismatch"][:2]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Solver-based checking of the real code: the functions listed were executed "
                           "symbolically from /repo's current source on z3 terms, one execution per "
                           "feasible path; for each completed path z3 decided path_condition and not(property).",
            "functions_encoded": funcs,
            "bounds": getattr(mod, "BOUNDS", {}).get(tier) or getattr(mod, "BOUNDS", {}).get("all", ""),
            "outside_bounds": getattr(mod, "OUTSIDE", ""),
            "harness_instances": len(results),
            "paths_explored": agg["paths"], "paths_completed": agg["completed"],
            "paths_infeasible": agg["infeasible"],
            "obligations_stated": agg["requirements"],
            "property_queries": agg["queries"], "unsat": agg["unsat"], "sat": agg["sat"],
            "unknown": agg["unknown"], "feasibility_queries": agg["feasibility_checks"],
            "solver_s": round(agg["solver_s"], 3),
            "path_space_exhausted_within_bounds": agg["exhausted"],
            "paths_replayed_on_real_code_and_agreeing": agg["validated"],
            "degraded_paths": agg["degraded"], "unreproduced_counterexamples": agg["unreproduced"],
            "validation_mismatches": agg["validation_mismatch"],
            "concretisation_sites": agg["concretized"],
            "reachability_witnesses": agg["covers"], "unreached_witnesses": agg["uncovered"],
            "unfinished_harnesses": agg["unfinished"],
            "machinery_errors": [n for n, _ in errors],
            "samples": samples,
        },
        "assumptions": COMMON_ASSUMPTIONS + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    main()
