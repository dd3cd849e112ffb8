"""Path exploration, solver queries, replay."""
import contextlib
import importlib
import json
import os
import subprocess
import sys
import time
import traceback
from fractions import Fraction

from . import core, patches
from .core import z3, SymCtx, ConcCtx, PathAbort, btrue, value_of

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Stats(dict):
    def __init__(self):
        super().__init__(paths=0, completed=0, infeasible=0, queries=0, unsat=0, sat=0, unknown=0,
                         feasibility_checks=0, solver_s=0.0, concretized=[], degraded=[],
                         unknown_branches=0, divergences=0, validated=0, validation_mismatch=[],
                         unreproduced=[], covers={}, requirements=0, exhausted=True, functions=set())


@contextlib.contextmanager
def quiet():
    """what the code under test prints is not part of the report"""
    with open(os.devnull, "w") as f, contextlib.redirect_stdout(f):
        yield


def run_concrete(fn, values, params, tier):
    """The harness on concrete values, unpatched code, in this process.
    Returns (status, failures): status ok | violated | void."""
    core.CTX = ctx = ConcCtx(dict(values), params, tier)
    try:
        with quiet():
            fn(ctx)
    except PathAbort:
        return "void", []
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:                 # some of beep's errors derive from BaseException
        tb = traceback.extract_tb(sys.exc_info()[2])
        loc = next((f"{f.filename}:{f.lineno}" for f in reversed(tb)), "?")
        return "violated", [f"unexpected {type(e).__name__}: {str(e)[:300]} at {loc}"]
    finally:
        core.CTX = None
    if getattr(ctx, "aborted", False):
        return "void", []
    bad = [lbl for lbl, c in ctx.requirements if not bool(c)]
    return ("violated", bad) if bad else ("ok", [])


def robust(fn, values, params, tier, tries=8):
    """A violation seen on a path for which the solver's verdict was not 'violated' (the engine had
    no verdict, or disagreed) is believed only if it survives small perturbations of the real
    inputs: a floating-point tie does not."""
    import random
    rnd = random.Random(12345)
    nonvoid = bad = 0
    for k in range(tries):
        v = {}
        for n, x in values.items():
            if isinstance(x, float):
                x = x + (rnd.random() - 0.5) * (2e-3 if k % 2 else 2e-5) * max(1.0, abs(x))
            v[n] = x
        st, _ = run_concrete(fn, v, params, tier)
        if st != "void":
            nonvoid += 1
            bad += st == "violated"
    return (bad * 2 >= nonvoid and bad > 0) or not any(isinstance(x, float) for x in values.values())


def model_values(ctx, m):
    out = {}
    for name, t in ctx.inputs.items():
        v = value_of(m.eval(t, model_completion=True))
        if isinstance(v, Fraction):
            out[name] = float(v)
        else:
            out[name] = v
    return out


def grid_constraints(ctx, den=64):
    cs = []
    for name, t in ctx.inputs.items():
        if z3.is_real(t):
            k = z3.Int("!grid_" + name)
            cs.append(t * den == z3.ToReal(k))
    return cs


RECORDED = 24      # paths whose called functions are recorded


def collect_functions(stats):
    def prof(frame, event, arg):
        if event == "call":
            fn = frame.f_code.co_filename
            if "/repo/beep/" in fn:
                stats["functions"].add(f"{fn.split('/repo/')[1]}:{frame.f_code.co_qualname}")
    return prof


def explore(fn, params, tier, max_paths=4000, max_s=300.0, query_ms=30000, validate=6, stop_on=1,
            extra_patches=None, grid_first=True):
    """Explore every feasible path of harness `fn`; returns (stats, counterexamples)."""
    t_start = time.time()
    stats = Stats()
    cex = []
    work = [[]]
    n_valid = 0
    while work:
        if stats["paths"] >= max_paths or time.time() - t_start > max_s:
            stats["exhausted"] = False
            break
        prefix = work.pop()
        ctx = SymCtx(prefix, params, tier, timeout_ms=min(query_ms, 20000))
        core.CTX = ctx
        exc = None
        aborted = False
        stats["paths"] += 1
        try:
            with patches.installed(extra_patches() if extra_patches else ()):
                if stats["paths"] <= RECORDED or stats["paths"] % 50 == 0:
                    sys.setprofile(collect_functions(stats))
                try:
                    with quiet():
                        fn(ctx)
                finally:
                    sys.setprofile(None)
        except PathAbort:
            aborted = True
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:             # some of beep's errors derive from BaseException
            exc = (e, core.fmt_exc())
        aborted = aborted or getattr(ctx, "aborted", False)
        if aborted:
            exc = None
        work.extend(ctx.pending)
        stats["unknown_branches"] += ctx.unknown_branches
        stats["divergences"] += int(ctx.diverged)
        for c in ctx.concretized:
            if c not in stats["concretized"]:
                stats["concretized"].append(c)
        candidates = []       # (values, reason)
        path_model = None
        if aborted:
            stats["infeasible"] += 1
        else:
            if exc is None:
                stats["completed"] += 1
                reqs = ctx.requirements
                stats["requirements"] += len(reqs)
                terms = [(l, z3.simplify(btrue(c))) for l, c in reqs]
                bad = [z3.Not(t) for l, t in terms if not z3.is_true(t)]
                stats["queries"] += 1
                if not bad:
                    stats["unsat"] += 1
                else:
                    ctx.solver.set("timeout", query_ms)
                    goal = z3.Or(bad)
                    r = z3.unknown
                    ctx.solver.push()
                    ctx.solver.add(goal)
                    r = ctx.check()
                    if r == z3.unsat:
                        stats["unsat"] += 1
                    elif r == z3.unknown:
                        # one more try on each obligation alone
                        ctx.solver.pop()
                        ctx.solver.push()
                        rs = []
                        for b in bad:
                            rr = ctx.check(b)
                            rs.append(rr)
                            if rr == z3.sat:
                                r = rr
                                ctx.solver.add(b)
                                break
                        if r != z3.sat and all(x == z3.unsat for x in rs):
                            r = z3.unsat
                            stats["unsat"] += 1
                        elif r != z3.sat:
                            stats["unknown"] += 1
                    if r == z3.sat:
                        stats["sat"] += 1
                        m = ctx._last
                        labels = [l for l, t in terms
                                  if not z3.is_true(m.eval(t, model_completion=True))]
                        candidates.append((model_values(ctx, m), labels, "model"))
                        # alternative models, more likely to survive floating point
                        for den in (8, 64, 1000):
                            ctx.solver.push()
                            ctx.solver.set("timeout", 5000)
                            ctx.solver.add(grid_constraints(ctx, den))
                            if ctx.check() == z3.sat:
                                candidates.append((model_values(ctx, ctx._last), labels, f"grid{den}"))
                            ctx.solver.pop()
                    ctx.solver.pop()
                for lbl, c in ctx.covers:
                    if stats["covers"].get(lbl):
                        continue
                    t = z3.simplify(btrue(c))
                    stats["covers"][lbl] = bool(
                        z3.is_true(t) or (not z3.is_false(t) and ctx.check(t) == z3.sat))
            else:
                # the engine (or the code) raised: decide on the real code with this path's inputs
                if ctx.check() == z3.sat:
                    path_model = model_values(ctx, ctx._last)
                    candidates.append((path_model, [f"exception {type(exc[0]).__name__}: {exc[0]}"], "exception"))
                else:
                    stats["infeasible"] += 1
        stats["feasibility_checks"] += ctx.nchecks
        stats["solver_s"] += ctx.solver_s
        core.CTX = None
        hit = False
        for values, labels, origin in candidates:
            st, bad = run_concrete(fn, values, params, tier)
            if st == "violated" and origin == "exception" \
                    and not any(f"unexpected {type(exc[0]).__name__}:" in b for b in bad) \
                    and not robust(fn, values, params, tier):
                continue
            if st == "violated":
                cex.append({"params": params, "values": values, "failed": bad, "predicted": labels,
                            "origin": origin})
                hit = True
                break
        if candidates and not hit:
            if candidates[0][2] == "exception":
                if len(stats["degraded"]) < 20:
                    stats["degraded"].append(exc[1][-700:])
            else:
                stats["unreproduced"].append({"labels": candidates[0][1], "values": candidates[0][0],
                                              "params": params})
        # translation validation of the path: same inputs, real code, ordinary floats
        if not aborted and exc is None and not hit and n_valid < validate:
            core.CTX = ctx
            ok = ctx.check() == z3.sat
            vals = model_values(ctx, ctx._last) if ok else None
            core.CTX = None
            if ok:
                n_valid += 1
                st, bad = run_concrete(fn, vals, params, tier)
                if st == "ok":
                    stats["validated"] += 1
                elif st == "violated":
                    core.CTX = ctx
                    ctx.solver.set("timeout", 5000)
                    ctx.solver.push()
                    ctx.solver.add(grid_constraints(ctx, 8))
                    g = ctx.check() == z3.sat
                    gv = model_values(ctx, ctx._last) if g else None
                    ctx.solver.pop()
                    core.CTX = None
                    st2, bad2 = run_concrete(fn, gv, params, tier) if g else ("void", [])
                    if st2 != "violated":
                        gv, bad2 = vals, bad
                    if robust(fn, gv, params, tier):
                        cex.append({"params": params, "values": gv, "failed": bad2,
                                    "predicted": ["(path validation)"], "origin": "validation"})
                        hit = True
                    else:
                        stats["validation_mismatch"].append({"values": vals, "failed": bad, "params": params})
        if hit and len(cex) >= stop_on:
            stats["exhausted"] = False
            break
    core.CTX = None
    stats["wall_s"] = time.time() - t_start
    stats["functions"] = sorted(stats["functions"])
    return stats, cex
