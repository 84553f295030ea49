"""Python BART models against their own forests, settings and data (C21)."""
import numpy as np
import mon
from mon import suite, refused
import modeling as M
from stochtree import BARTModel


def near(a, b, scale):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.isfinite(a))) and bool(np.all(np.abs(a - b) <= 1e-9 * scale))


def check_trace(cx, prop, R, sampler, model_int, ytypes, n, sigma2, scale, dim, gfr, total, gvals, lvals, ystd, kw, label="", weights=None, exact=True):
    """Sampler calls follow the settings: order, algorithm, variances in use, prior settings."""
    calls = R.of("sample", sampler)
    if not calls:
        cx.count("untraced_fits")
        return True
    bad = None
    if len(calls) != total or [bool(c[2]["gfr"]) for c in calls] != [True] * gfr + [False] * (total - gfr):
        bad = "%d sampler calls with algorithms %s, expected %d grow-from-root then %d others" % (len(calls), [c[2]["gfr"] for c in calls], gfr, total - gfr)
    for k, c in enumerate(calls):
        a = c[2]
        if bad:
            break
        if a["leaf_model_int"] != model_int:
            bad = "call %d used leaf model %s instead of %d" % (k, a["leaf_model_int"], model_int)
        elif [int(t) for t in a["feature_types"]] != ytypes:
            bad = "call %d used feature types %s instead of %s" % (k, a["feature_types"], ytypes)
        elif a["cutpoint_grid_size"] != kw["cutpoint_grid_size"]:
            bad = "call %d used grid size %s" % (k, a["cutpoint_grid_size"])
        elif weights is not None:      # relative weights of the variables; with exact=False only zero or not beyond the first len(weights)
            got, want_w = np.asarray(a["variable_weights"], float).ravel(), np.asarray(weights, float)
            k_ = len(want_w) if exact is True else exact
            if got.shape != want_w.shape or not np.all(np.isfinite(got)) or not np.array_equal(got > 0, want_w > 0) or not np.allclose(got[:k_] * want_w[:k_].sum(), want_w[:k_] * got[:k_].sum(), rtol=1e-9, atol=1e-12):
                bad = "call %d used variable weights %s where %s (relative) were asked for" % (k, got.tolist(), want_w.tolist())
        # variances in use: the value given, or the last one drawn
        g = [e for e in kw["_events"] if e[4] < c[4]]
        v = g[-1][3] if g else sigma2
        if not bad and v is not None and not np.isclose(float(np.squeeze(a["global_variance"])), float(v), rtol=1e-12, atol=0):
            bad = "call %d used error variance %.10g, current value is %.10g" % (k, a["global_variance"], v)
        L = np.atleast_2d(np.asarray(a["leaf_model_scale_input"], float))
        want = lvals[k - 1] if lvals is not None and k > 0 else scale
        if not bad and want is not None:
            W = np.atleast_2d(want) if np.ndim(want) == 2 else np.eye(dim) * float(want)
            if L.shape != W.shape or not np.allclose(L, W, rtol=1e-12, atol=0):
                bad = "call %d used leaf scale %s, current value is %s" % (k, L.tolist(), W.tolist())
    cx.count("sampler_calls", len(calls))
    if bad:
        cx.fail(prop, "settings", "%s%s" % (label, bad))
        return False
    return True


@suite
def bart(cx, rng):
    big = str(rng.choice(["rows", "wide", "trees", "samples"])) if cx.case % 40 == 20 else ""
    if big:
        cx.count("large_cases")
    n, m = int(rng.integers(300, 900)) if big == "rows" else int(rng.integers(8, 50)), int(rng.integers(1, 8))
    D = M.Design(rng, n, m, missing=rng.random() < 0.5, big=big)
    nb = int(rng.choice([0, 0, 1, 2, 3]))
    B, Bt = (rng.normal(size=(n, nb)), rng.normal(size=(m, nb))) if nb else (None, None)
    ysc, yof = float(rng.choice([1e-3, 1, 1, 1e3])), float(rng.choice([0, 0, 10, -1e4]))
    sig = D.signal * 2
    y = yof + ysc * (rng.normal(size=n) + (sig if not nb else sig * B[:, 0]))
    g, b, k = [(int(rng.integers(0, 4)), int(rng.integers(0, 3)), int(rng.integers(0, 5))) for _ in range(1)][0]
    if g + b + k == 0:
        k = 2
    if big == "samples":
        g, b, k = int(rng.integers(0, 15)), int(rng.integers(0, 15)), int(rng.integers(10, 110))
    test = rng.random() < 0.6
    kw = dict(cutpoint_grid_size=int(rng.choice([1, 5, 100])), alpha=float(rng.uniform(0.5, 0.99)), beta=float(rng.uniform(0.2, 2)), min_samples_leaf=int(rng.integers(1, 6)),
              num_trees=int(rng.integers(20, 120)) if big == "trees" else int(rng.integers(1, 9)), num_gfr=g, num_burnin=b, num_mcmc=k, sample_sigma_global=bool(rng.random() < 0.6), sample_sigma_leaf=bool(rng.random() < 0.6),
              random_seed=int(rng.integers(0, 2**31 - 1)), keep_burnin=bool(rng.random() < 0.5), keep_gfr=bool(rng.random() < 0.5))
    opt = dict(sigma2=float(rng.uniform(0.1, 2)), sigma_leaf=float(rng.uniform(0.05, 1)), nu=float(rng.uniform(1, 9)), lamb=float(rng.uniform(0.1, 2)), a_leaf=float(rng.uniform(1, 5)), b_leaf=float(rng.uniform(0.05, 1)), q=float(rng.uniform(0.1, 0.95)))
    must = ("sigma2", "lamb") if D.missing else ()     # the default calibration needs complete covariates
    kw.update({s: v for s, v in opt.items() if rng.random() < 0.5 or s in must})
    if D.missing:
        cx.count("fits_with_missing_values")
    yy = M.lay(rng, y if rng.random() < 0.5 else y[:, None])
    bb, bt = (None, None) if not nb else (lambda one: (M.lay(rng, B[:, 0] if one else B), M.lay(rng, Bt[:, 0] if one else Bt)))(nb == 1 and rng.random() < 0.5)
    args = dict(X_train=D.X, y_train=yy)
    if nb:
        args["basis_train"] = bb
    if test:
        args["X_test"] = D.Xt
        if nb:
            args["basis_test"] = bt
    note = "n=%d %s basis=%d gfr=%d burnin=%d mcmc=%d keep_gfr=%s keep_burnin=%s trees=%d" % (n, "table" if D.frame else "array with missing values" if D.missing else "array", nb, g, b, k, kw["keep_gfr"], kw["keep_burnin"], kw["num_trees"])
    U = M.Untouched(X=D.X, Xt=D.Xt, y=yy, basis=bb, basis_test=bt)
    mod = BARTModel()
    if not refused(lambda: mod.predict(D.X)):
        cx.fail("C28", "unfitted", "an unfitted model predicted")
        return
    with M.Record() as R:
        mod.sample(**args, **kw)
    if U.changed():
        cx.fail("C21", "caller", "fitting changed the caller's %s (%s)" % (U.changed(), note))
        return
    keep = M.retained(g, b, k, kw["keep_gfr"], kw["keep_burnin"])
    ybar, ystd = y.mean(), y.std()
    raw, d = M.raws(mod.forest_container, D.E)
    if d["num_samples"] != g + b + k:
        cx.fail("C21", "sample-count", "%d stored forests (%s)" % (d["num_samples"], note))
        return
    fit = lambda r, basis: r[:, :, 0] if not nb else np.einsum("ijk,ik->ij", r, basis)
    F = fit(raw, B)
    scale = abs(ybar) + np.abs(y).max() + ystd * (np.abs(F).max() + 1)
    want = ybar + ystd * F[:, keep]
    if np.shape(mod.y_hat_train) != (n, len(keep)):
        cx.fail("C21", "columns", "stored fitted values have shape %s, %d rows and %d retained samples (%s)" % (np.shape(mod.y_hat_train), n, len(keep), note))
        return
    if not near(mod.y_hat_train, want, scale):
        cx.fail("C21", "stored", "stored fitted values differ from the retained forests on the outcome scale (%s)" % note)
        return
    P = mod.predict(D.X, bb) if nb else mod.predict(D.X)
    if not near(P, mod.y_hat_train, scale):
        cx.fail("C21", "predict-train", "predictions for the training rows differ from the stored fitted values, shapes %s and %s (%s)" % (np.shape(P), np.shape(mod.y_hat_train), note))
        return
    rt, _ = M.raws(mod.forest_container, D.Et)
    wt = ybar + ystd * fit(rt, Bt)[:, keep]
    Pt = mod.predict(D.Xt, bt) if nb else mod.predict(D.Xt)
    st = scale + ystd * np.abs(wt).max()
    if not near(Pt, wt, st):
        cx.fail("C21", "predict-new", "predictions for new rows differ from the retained forests (%s)" % note)
        return
    if test and not near(mod.y_hat_test, Pt, st):
        cx.fail("C21", "stored-test", "stored test predictions differ from predictions for the same rows (%s)" % note)
        return
    i = int(rng.integers(0, m))    # a row's prediction does not depend on its company
    Xi = D.Xt.iloc[[i]] if D.frame else D.Xt[[i]]
    Pi = mod.predict(Xi, Bt[[i]]) if nb else mod.predict(Xi)
    if not near(Pi, wt[[i]], st):
        cx.fail("C21", "predict-one", "the prediction of a single row differs from that of the same row among others (%s)" % note)
        return
    cx.count("fitted_values", mod.y_hat_train.size)
    cx.count("predictions", Pt.size + P.size)
    e = M.rules_ok(d, D.E, kw["min_samples_leaf"], set(range(D.E.shape[1])))
    if e:
        cx.fail("C21", "leaf-floor", "%s (%s)" % (e, note))
        return
    # variances: sampled ones are stored on the outcome scale for every sample, fixed ones are used as given
    total = g + b + k
    gv, lv = getattr(mod, "global_var_samples", None), getattr(mod, "leaf_scale_samples", None)
    sl = kw["sample_sigma_leaf"] and nb <= 1
    if kw["sample_sigma_global"]:
        if gv is None or np.shape(gv) != (total,) or not np.all(gv > 0) or len(set(gv.tolist())) != total:
            cx.fail("C21", "variance-samples", "sampled error variances: %s (%s)" % (gv, note))
            return
        draws = [e[3] for e in R.of("global")]
        if draws and not near(gv, np.array(draws, float) * ystd**2, np.max(gv)):
            cx.fail("C21", "variance-samples", "stored error variances %s are not the draws on the outcome scale (%s)" % (gv, note))
            return
    if sl and (lv is None or np.shape(lv) != (total,) or not np.all(lv > 0) or len(set(lv.tolist())) != total):
        cx.fail("C21", "variance-samples", "sampled leaf scales: %s (%s)" % (lv, note))
        return
    if (not kw["sample_sigma_global"] and R.of("global")) or (not sl and R.of("leaf")):
        cx.fail("C21", "fixed-variance", "a variance to be held fixed was sampled (%s)" % note)
        return
    smp = R.of("sampler")
    if smp:
        a = smp[-1][2]
        got = (a["num_trees"], a["alpha"], a["beta"], a["min_samples_leaf"], [int(t) for t in a["feature_types"]])
        exp = (kw["num_trees"], kw["alpha"], kw["beta"], kw["min_samples_leaf"], D.types)
        if got != exp:
            cx.fail("C21", "settings", "the sampler got (trees, alpha, beta, leaf size, types) %s, asked for %s (%s)" % (got, exp, note))
            return
        for e in R.of("global"):
            if ("nu" in kw and e[2]["nu"] != kw["nu"]) or ("lamb" in kw and e[2]["lamb"] != kw["lamb"]):
                cx.fail("C21", "settings", "error variance drawn with nu=%s lambda=%s (%s)" % (e[2]["nu"], e[2]["lamb"], note))
                return
        for q, e in enumerate(R.of("leaf")):
            if ("a_leaf" in kw and e[2]["a"] != kw["a_leaf"]) or ("b_leaf" in kw and e[2]["b"] != kw["b_leaf"]) or e[2]["sample_num"] != q:
                cx.fail("C21", "settings", "leaf scale drawn with a=%s b=%s from sample %s, number %d (%s)" % (e[2]["a"], e[2]["b"], e[2]["sample_num"], q, note))
                return
        kk = dict(kw, _events=R.of("global"))
        if not check_trace(cx, "C21", R, smp[-1][1], 0 if not nb else 1 if nb == 1 else 2, D.types, n, kw.get("sigma2"), kw.get("sigma_leaf"), max(nb, 1), g, total, gv, lv if sl else None, ystd, kk, weights=np.ones(len(D.types))):
            return
    # the last residual is what the last forest leaves over
    res = R.of("residual")
    if res:
        got = M.probe_ssr(res[-1][1], n)
        r = (y - ybar) / ystd - F[:, -1]
        if abs(got - (r**2).sum()) > 1e-7 * n * (1 + np.abs(F).max() ** 2):
            cx.fail("C21", "residual", "after fitting the residual has sum of squares %.10g, outcome minus fit has %.10g (%s)" % (got, (r**2).sum(), note))
            return
        cx.count("residual_checks")
    # the same call again is the same fit, whatever happened before
    if rng.random() < 0.5:
        np.random.seed(int(rng.integers(0, 1000)))
        m2 = BARTModel() if rng.random() < 0.5 else mod
        old = np.array(mod.y_hat_train)
        if m2 is mod and rng.random() < 0.5:
            m2.sample(X_train=rng.normal(size=(12, 2)), y_train=rng.normal(size=12), num_trees=2, num_gfr=1, num_mcmc=1, min_samples_leaf=1)
        m2.sample(**args, **kw)
        same = np.array_equal(m2.y_hat_train, old) and (not kw["sample_sigma_global"] or np.array_equal(m2.global_var_samples, gv)) and (not test or np.array_equal(m2.y_hat_test, Pt) or near(m2.y_hat_test, Pt, st))
        if not same or (M.doc(m2.forest_container) != d):
            cx.fail("C21", "seed", "fitting again with the same seed gave other samples (%s)" % note)
            return
        cx.count("refits")
        mod = m2
    if rng.random() < 0.06:        # without a seed every fit is a fresh one
        k2 = {s: v for s, v in kw.items() if s != "random_seed"}
        if rng.random() < 0.4:
            k2["random_seed"] = [None, -1][int(rng.integers(0, 2))]
        fits = [BARTModel() for _ in range(2)]
        for f in fits:
            f.sample(**args, **k2)
        if np.array_equal(fits[0].y_hat_train, fits[1].y_hat_train):
            cx.fail("C21", "unseeded", "two fits without a seed are the same (%s)" % note)
            return
        cx.count("unseeded_fits", 2)
    # refusals leave the fitted model as it was
    before = M.doc(mod.forest_container)
    bad = {"predict-rows": (lambda: mod.predict(D.Xt, np.zeros((m + 1, nb)))) if nb else None,
           "predict-no-basis": (lambda: mod.predict(D.Xt)) if nb else None,
           "predict-basis-width": (lambda: mod.predict(D.Xt, np.zeros((m, nb + 1)))) if nb else None,
           "predict-columns": lambda: mod.predict(np.zeros((m, D.p + 1))),
           "sample-rows": lambda: BARTModel().sample(X_train=D.X, y_train=y[:-1]),
           "sample-test-columns": lambda: BARTModel().sample(X_train=D.X, y_train=y, X_test=np.zeros((m, D.p + 1))),
           "sample-basis-rows": lambda: BARTModel().sample(X_train=D.X, y_train=y, basis_train=np.zeros((n + 1, 1))),
           "sample-basis-test-only": lambda: BARTModel().sample(X_train=D.X, y_train=y, X_test=D.Xt, basis_test=np.zeros((m, 1))),
           "sample-no-samples": lambda: BARTModel().sample(X_train=D.X, y_train=y, num_gfr=0, num_burnin=0, num_mcmc=0)}
    for what in [str(s) for s in rng.permutation([s for s, f in bad.items() if f])[:3]]:
        if not refused(bad[what]):
            cx.fail("C28", "bart-%s" % what, "accepted: %s (%s)" % (what, note))
            return
        cx.dist("refused", ("bart", what, nb, D.frame))
        cx.count("refusals")
    if M.doc(mod.forest_container) != before or not near(mod.predict(D.X, bb) if nb else mod.predict(D.X), P, scale) or U.changed():
        cx.fail("C28", "bart-state", "refused calls changed the model or the data (%s)" % note)
        return
    cx.count("splits", M.num_splits(d))
    cx.dist("fits", (note, sorted(kw), M.num_splits(d)))
    cx.sample(note)


if __name__ == "__main__":
    mon.main()
