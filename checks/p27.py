"""P27: `beep train` and `beep predict` use the options and files they are given and report what they wrote."""
import numbers
from .cli import *
from .p24 import table, model_patches, CSS, TFC, scale_of, FILES as ROWS
from symex.patches import l_mean, l_median

BOUNDS = {"all": "every option of train given or not, its value symbolic (thresholds, alphas, tolerance, iterations, folds, fractions; zero "
                 "included), three models, one or two targets; training that fails, is interrupted, or cannot read its files; predictions "
                 "of 1-3 samples of 2 features with missing values, a symbolic sample threshold (given, zero or left to the model) and "
                 "symbolic fitted coefficients; with and without --halt-on-error"}
OUTSIDE = ("the training itself (P24) and what is in the log; which of its folds scikit-learn uses; failures of the file system while "
           "the model or the status is written")
ASSUMPTIONS = ["for train, the experiment's train and train_and_score return or raise as the schedule says (stubs); the experiment, its "
               "file, the status and click's option parsing are the real code",
               "for predict, scikit-learn's scaling and linear prediction are their formulas"]
FEATS = {"f0": [1.0, 2.0, 4.0, 3.0], "f1": [5.0, 1.0, 0.0, 2.0]}


def matrices(c, w, targets=("t0", "t1")):
    fm = table(c, FEATS, ROWS[:4], CSS)
    tm = table(c, {t: [1.0, 2.0, 3.0, 5.0 + i] for i, t in enumerate(targets)}, ROWS[:4], TFC)
    fp, tp = w.path("features.json"), w.path("targets.json.gz")
    fm.to_json_file(fp)
    tm.to_json_file(tp)
    return fm, tm, fp, tp


def trainer(c, plan, log):
    """stubs of the training"""
    from beep.model import BEEPLinearModelExperiment as E
    from sklearn.linear_model import Lasso

    def fit(self):
        self.model = Lasso()
        n = len(self.targets)
        self.model.coef_ = np.array([[0.5] * len(self.feature_labels)] * n if n > 1 else [0.5] * len(self.feature_labels))
        self.model.intercept_ = np.array([0.25] * n) if n > 1 else np.float64(0.25)
        self.optimal_hyperparameters = {"alpha": 0.125}
        return self.model

    def outcome(self):
        if plan["outcome"] == "fails":
            raise plan["error"]("planned failure of the training")
        if plan["outcome"] == "interrupt":
            raise KeyboardInterrupt()

    def train(self, *a, **k):
        log.append(("train", self, a, k))
        outcome(self)
        return fit(self), {"rmse": plan["train"]}

    def train_and_score(self, *a, **k):
        log.append(("score", self, dict(zip(["train_and_val_frac"], a), **k)))
        outcome(self)
        return fit(self), {"rmse": plan["train"]}, {"rmse": plan["test"]}
    return [(E, "train", train), (E, "train_and_score", train_and_score)]


def base_args(fp, tp, targets, model):
    a = ["train", "--feature-matrix-file", fp, "--target-matrix-file", tp, "--model-name", model]
    for t in targets:
        a += ["--targets", t]
    return a


GROUPS = ["none", "thresholds", "alphas", "search", "names", "flags", "score"]


def train_options(c):
    from beep.model import BEEPLinearModelExperiment
    with world(c) as w:
        fm, tm, fp, tp = matrices(c, w)
        group = c.choice("group", GROUPS)
        model = c.choice("model", ["elasticnet", "lasso", "ridge"])
        two = c.choice("two targets", [False, True]) if model == "elasticnet" else False
        targets = ["t0" + TFC, "t1" + TFC][:2 if two else 1]
        want = dict(train_feature_drop_thresh=0.95, train_sample_drop_thresh=0.5, predict_sample_nan_thresh=0.75,
                    drop_nan_training_targets=True, impute_strategy="median", kfold=5, max_iter=1e6, tol=1e-4,
                    l1_ratio=[0.001, 0.1, 0.5, 0.7, 0.9, 0.95, 1], homogenize_features=True, alphas=None)
        args, frac = [], None
        if group == "thresholds":
            for o, k in (("--train-feature-nan-thresh", "train_feature_drop_thresh"), ("--train-sample-nan-thresh", "train_sample_drop_thresh"),
                         ("--predict-sample-nan-thresh", "predict_sample_nan_thresh")):
                if c.choice(o, [True, False]):
                    want[k] = c.real(k, 0, 1)
                    args += [o, txt(want[k])]
        if group == "alphas":
            n = c.choice("n", [1, 2, 3, 5])
            lo, hi = c.real("lo", 0, 2), c.real("hi", 0, 2)
            want["alphas"] = [lo + (hi - lo) * i / (n - 1) if n > 1 else lo for i in range(n)]
            args += ["--alpha-lower", txt(lo), "--alpha-upper", txt(hi), "--n-alphas", str(n)]
        if group == "search":
            if c.choice("has kfold", [True, False]):
                want["kfold"] = c.int("kfold", 2, 9)
                args += ["--kfold", txt(want["kfold"])]
            if c.choice("has max_iter", [True, False]):
                want["max_iter"] = c.int("max_iter", 1, 100000)
                args += ["--max-iter", txt(want["max_iter"])]
            if c.choice("has tol", [True, False]):
                want["tol"] = c.real("tol", 0, 1)
                args += ["--tol", txt(want["tol"])]
            l1 = c.choice("l1", [None, [0.5], [0.1, 0.5, 1.0], [0.0]])
            if l1:
                want["l1_ratio"] = l1
                args += ["--l1-ratios", ",".join(map(str, l1))]
        if group == "names":
            h = c.choice("homogenize", ["True", "False", "true", "no"])
            want["homogenize_features"] = h.lower() == "true"
            args += ["--homogenize-features", h]
            if not want["homogenize_features"]:
                targets = [[x for x in tm.matrix.columns if x.startswith(t)][0] for t in targets]
            want["impute_strategy"] = c.choice("impute", ["mean", "none", "median"])
            args += ["--impute-strategy", want["impute_strategy"]]
        if group == "flags":
            f = c.choice("flag", ["--drop-nan-training-targets", "--no-drop-nan-training-targets"])
            want["drop_nan_training_targets"] = not f.startswith("--no")
            args.append(f)
        if group == "score":
            frac = c.real("frac", 0, 1)
            args += ["--train-on-frac-and-score", txt(frac)]
        named = c.choice("output named", [True, False])
        out = w.path("model.json")
        if named:
            args += ["--output-filename", out]
        plan = dict(outcome="ok", train=c.real("train_error", 0, 1), test=c.real("test_error", 0, 1))
        log = []
        before = w.files()
        with stubs(trainer(c, plan, log)):
            code, exc = run(w, base_args(fp, tp, targets, model) + args, tags=["t"])
        c.require("succeeds", code == 0)
        c.require("trained once, as asked", [x[0] for x in log] == (["train"] if frac is None else ["score"]))
        st = w.status_json()
        c.require("status written", st is not None)
        if st is None or len(log) != 1:
            return
        if frac is not None:
            c.require("training fraction", all_of("train_and_val_frac" in log[0][2], log[0][2].get("train_and_val_frac") == frac))
            r = st["model_results"]
            c.require("errors reported", all_of(r.get("training_error", {}).get("rmse") == plan["train"], r.get("test_error", {}).get("rmse") == plan["test"],
                                                r.get("test_fraction") == frac, r.get("optimal_hyperparameters") == {"alpha": 0.125}))
        else:
            c.require("training on everything", not log[0][2] and not log[0][3])
        t = st["trained_model"]
        c.require("no traceback", st["traceback"] is None)
        c.require("model reported", t["created"] is True and isinstance(t["output"], str) and (t["output"] == out if named else os.path.dirname(t["output"]) == w.cwd))
        c.require("files written", w.files() - before == {w.status, t["output"]})
        f = st["files"]
        c.require("inputs reported", f["features"] == fp and f["targets"] == tp and f["features_md5_chksum"] == md5(fp) and f["targets_md5_chksum"] == md5(tp))
        c.require("metadata", list(st["metadata"]["tags"]) == ["t"] and st["op_type"] == "train")
        if t["created"] is not True or not os.path.isfile(str(t["output"])):
            return
        e = BEEPLinearModelExperiment.from_json_file(t["output"])
        c.require("targets and model", e.targets == targets and e.model_name == model)
        c.require("the matrices", sorted(e.feature_matrix.matrix.columns) == sorted(fm.matrix.columns)
                  and sorted(e.target_matrix.matrix.columns) == sorted(tm.matrix.columns))
        for k, x in want.items():
            g = getattr(e, k)
            if isinstance(x, list):
                g = list(g) if g is not None else []
                c.require(k, len(g) == len(x) and all_of([close(p, q, 1e-9) for p, q in zip(g, x)]))
            elif x is None:
                c.require(k, g is None)
            else:
                c.require(k, g == x)
        c.cover(group)


PARTIAL = [["--alpha-lower", "0.1"], ["--alpha-upper", "1"], ["--n-alphas", "3"], ["--alpha-lower", "0", "--alpha-upper", "1"],
           ["--alpha-upper", "1", "--n-alphas", "3"], ["--n-alphas", "2.5", "--alpha-lower", "0", "--alpha-upper", "1"]]


def partial_alphas(c):
    """a grid of alphas that is not fully given is an error of the command"""
    with world(c) as w:
        fm, tm, fp, tp = matrices(c, w)
        log = []
        before = w.files()
        with stubs(trainer(c, dict(outcome="ok", train=c.real("e", 0, 1), test=0.5), log)):
            code, exc = run(w, base_args(fp, tp, ["t0" + TFC], "lasso") + c.choice("args", PARTIAL))
        c.require("not a success", code != 0)
        c.require("nothing is done", not log and w.files() == before)
        c.cover("reached")


def train_faults(c):
    from beep.model import BEEPMLExperimentError
    with world(c) as w:
        fm, tm, fp, tp = matrices(c, w)
        what = c.choice("fault", ["none", "fails", "interrupt", "features unreadable", "targets unreadable", "no such target", "no such model",
                                  "not the matrix"])
        halt = c.choice("halt", [False, True])
        score = c.choice("score", [False, True])
        old = c.choice("output exists", [False, True])
        if what == "features unreadable":
            w.write("features.json", "not a matrix")
        if what == "targets unreadable":
            tp = w.write("targets2.json", "not a matrix")
        if what == "not the matrix":
            tp = fp
        out = w.path("model.json")
        if old:
            w.write("model.json", "an earlier model")
        plan = dict(outcome=what if what in ("fails", "interrupt") else "ok", error=c.choice("error", [ValueError, BEEPMLExperimentError, SystemExit]),
                    train=c.real("train_error", 0, 1), test=c.real("test_error", 0, 1))
        log = []
        before = w.files()
        with stubs(trainer(c, plan, log)):
            code, exc = run(w, base_args(fp, tp, ["nope" + TFC if what == "no such target" else "t0" + TFC], "forest" if what == "no such model" else "lasso")
                            + ["-o", out] + (["-s", "0.75"] if score else []), halt=halt)
        st = w.status_json()
        if what == "none":
            c.require("succeeds", code == 0 and st["trained_model"]["created"] is True and st["trained_model"]["output"] == out)
            c.cover("fine")
            return
        c.require("an earlier model is left alone, none is written",
                  w.files() - before <= {w.status} and (not old or memfs._open(out).read() == "an earlier model"))
        if what == "interrupt":
            c.require("an interrupted run is not a success", code != 0)
            c.cover("interrupted")
            return
        if halt:
            c.require("halts with an error", code != 0 and exc is not None)
            c.cover("halted")
            return
        c.require("the failure is reported, not raised", code == 0 and st is not None)
        if st:
            c.require("no model claimed", st["trained_model"]["created"] is False and st["trained_model"]["output"] is None and not st["model_results"])
            c.require("traceback", tb_ok(st["traceback"], "planned failure" if what == "fails" else "Traceback"))
        c.cover("reported")


def predict_(c):
    """predictions of the model in the file for the samples of the matrix"""
    from beep.model import BEEPLinearModelExperiment as E
    p = c.params
    with world(c) as w:
        fm, tm, fp, tp = matrices(c, w)
        targets = ["t0" + TFC, "t1" + TFC][:p["targets"]]
        own = c.choice("model's threshold", [0.75, 0.25])
        e = E(fm, tm, targets, "elasticnet", predict_sample_nan_thresh=own)
        co = [[c.real(f"w{i}_{q}", -2, 2) for q in range(2)] for i in range(len(targets))]
        b = [c.real(f"b{i}", -2, 2) for i in range(len(targets))]
        with stubs(trainer(c, dict(outcome="ok", train=0.5, test=0.5), [])):
            e.train()
        dt = object if c.symbolic else float
        e.model.coef_ = np.array(co if len(targets) > 1 else co[0], dtype=dt)
        e.model.intercept_ = np.array(b, dtype=dt) if len(targets) > 1 else np.array(b[0], dtype=dt) if c.symbolic else np.float64(b[0])
        mp = w.path("model.json")
        e.to_json_file(mp)
        k = p["rows"]
        new = {f"f{i}": [float("nan") if i == 0 and j in p["may"] and c.choice(f"missing{j}", [False, True]) else c.real(f"v{i}_{j}", -5, 5)
                         for j in range(k)] for i in range(2)}
        idx = ROWS[2:2 + k]
        m = table(c, new, idx, CSS)
        np_ = w.path("new.json.gz")
        m.to_json_file(np_)
        given = c.choice("threshold", ["no", "zero", "some"])
        args = []
        t = own
        if given != "no":
            t = c.real("t", 0, 1) if given == "some" else 0.0
            args = ["--predict-sample-nan-thresh", txt(t)]
        named = c.choice("named", [True, False])
        out = w.path("predictions.json")
        before = w.files()
        code, exc = run(w, ["predict", mp, "--feature-matrix-file", np_] + args + (["--output-filename", out] if named else []), run_id=7)
        kept = [j for j in range(k) if bool(sum(is_nan(new[f][j]) is not True for f in new) >= t * 2)]
        if not kept or any(all(is_nan(new[f][j]) is True for j in kept) for f in new):
            c.cover("nothing to predict")
            return
        c.require("succeeds", code == 0)
        st = w.status_json()
        c.require("status written", st is not None)
        if st is None:
            return
        q = st["predictions"]
        c.require("reported", q["created"] is True and isinstance(q["output"], str) and (q["output"] == out if named else os.path.dirname(q["output"]) == w.cwd)
                  and st["traceback"] is None and st["op_type"] == "predict" and st["metadata"]["run_id"] == 7)
        c.require("inputs reported", st["files"]["model"] == mp and st["files"]["predict_on_features"] == np_
                  and st["files"]["model_md5_chksum"] == md5(mp) and st["files"]["predict_on_features_md5_chksum"] == md5(np_))
        c.require("files written", w.files() - before == {w.status, q["output"]})
        if not os.path.isfile(str(q["output"])):
            return
        with memfs._open(q["output"], encoding="utf-8") as f:
            got = json.loads(f.read())
        c.require("targets", sorted(got) == sorted(targets))
        fill = {f: l_median([v[j] for j in kept if is_nan(v[j]) is not True]) for f, v in new.items()}
        for i, tn in enumerate(targets):
            g = got.get(tn, {})
            c.require("samples: those with enough features", sorted(g) == sorted(idx[j] for j in kept))
            for j in kept:
                want = sum((((fill[f] if is_nan(new[f][j]) is True else new[f][j]) - l_mean(FEATS[f])) / scale_of(FEATS[f])) * co[i][z]
                           for z, f in enumerate(new)) + b[i]
                if idx[j] in g:
                    c.require(f"prediction {i} {j}", close(g[idx[j]], want, 1e-6))
        c.cover("predicted")


def predict_faults(c):
    from beep.model import BEEPLinearModelExperiment as E
    with world(c) as w:
        fm, tm, fp, tp = matrices(c, w)
        e = E(fm, tm, ["t0" + TFC], "lasso")
        with stubs(trainer(c, dict(outcome="ok", train=0.5, test=0.5), [])):
            e.train()
        mp = w.path("model.json")
        e.to_json_file(mp)
        what = c.choice("fault", ["none", "model unreadable", "features unreadable", "feature missing", "fails", "interrupt", "name"])
        halt = c.choice("halt", [False, True])
        if what == "model unreadable":
            w.write("model.json", "not a model")
        if what == "features unreadable":
            w.write("features.json", "not a matrix")
        if what == "feature missing":
            table(c, {"f1": [c.real("v", 0, 1)] * 2}, ROWS[:2], CSS).to_json_file(fp)
        extra = []
        if what in ("fails", "interrupt"):
            def bad(self, *a, **k):
                raise (KeyboardInterrupt() if what == "interrupt" else SystemExit("planned failure"))
            extra = [(E, "predict", bad)]
        out = w.path("p.csv" if what == "name" else "p.json")
        before = w.files()
        with stubs(extra):
            code, exc = run(w, ["predict", mp, "-fm", fp, "-o", out], halt=halt)
        st = w.status_json()
        if what == "none":
            c.require("succeeds", code == 0 and st["predictions"] == {"created": True, "output": out})
            c.cover("fine")
            return
        c.require("nothing is written", w.files() - before <= {w.status})
        if what in ("interrupt", "name"):
            c.require("not a success", code != 0)
        elif halt:
            c.require("halts with an error", code != 0 and exc is not None)
        else:
            c.require("the failure is reported, not raised", code == 0 and st is not None)
            if st:
                c.require("no predictions claimed", st["predictions"]["created"] is False and st["predictions"]["output"] is None)
                c.require("traceback", tb_ok(st["traceback"], "Traceback"))
        c.cover("faulty")


def harnesses(tier):
    deep = tier == "thorough"

    def P():
        return cli_patches() + memfs.to_json_patches()

    def PP():
        return P() + model_patches()
    h = lambda name, fn, pt, w=3, **p: dict(name=name, fn=fn, params=p, patches=pt, weight=w, max_paths=20000, max_s=700)
    hs = [h("train_options", train_options, P, 8), h("partial_alphas", partial_alphas, P, 1), h("train_faults", train_faults, P, 4),
          h("predict_2", predict_, PP, 4, rows=2, may=[1], targets=1), h("predict_multi", predict_, PP, 4, rows=2, may=[0], targets=2),
          h("predict_3", predict_, PP, 6, rows=3, may=[0, 2] if deep else [1], targets=1),
          h("predict_faults", predict_faults, P, 2)]
    return hs
