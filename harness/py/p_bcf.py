"""Python causal forests against their own forests, settings and data (C22)."""
import numpy as np
import mon
from mon import suite, refused
import modeling as M
from p_bart import near, check_trace
from stochtree import BCFModel, Dataset


def subset(rng, D, cols):
    """A set of original columns in one of the accepted forms."""
    cols = [int(c) for c in rng.permutation(cols)]
    if D.frame and rng.random() < 0.5 and len(set(D.names)) == len(D.names):
        names = [D.names[c] for c in cols]
        k = rng.integers(0, 3)
        return names if k == 0 else np.array(names) if k == 1 else np.array(names, dtype=object)
    return cols if rng.random() < 0.5 else np.array(cols)


@suite
def bcf(cx, rng):
    coding_run = rng.random() < 0.04
    big = str(rng.choice(["rows", "wide", "trees", "samples"])) if cx.case % 40 == 20 else ""
    if big:
        cx.count("large_cases")
    n, m = int(rng.integers(300, 900)) if big == "rows" else int(rng.integers(12, 50)), int(rng.integers(1, 8))
    D = M.Design(rng, n, m, missing=rng.random() < 0.5, big=big)
    zk = int(rng.choice([0, 0, 0, 1, 2, 3])) if not coding_run else 0    # binary, continuous, two and three treatments
    zd = max(zk, 1)
    if zk == 0:
        Z, Zt = rng.integers(0, 2, (n, 1)).astype(float), rng.integers(0, 2, (m, 1)).astype(float)
        Z[:2, 0] = [0, 1]
    else:
        Z, Zt = rng.normal(size=(n, zd)), rng.normal(size=(m, zd))
        if zk >= 2 and rng.random() < 0.3:
            Z, Zt = (Z > 0).astype(float), (Zt > 0).astype(float)
    ysc, yof = float(rng.choice([1e-3, 1, 1, 1e3])), float(rng.choice([0, 0, 10, -1e4]))
    sig = D.signal
    y = yof + ysc * (rng.normal(size=n) + sig + Z.sum(1) * (1 + 0.5 * sig))
    g, b, k = int(rng.integers(0, 4)), int(rng.integers(0, 3)), int(rng.integers(0, 5))
    if g + b + k == 0:
        k = 2
    if big == "samples":
        g, b, k = int(rng.integers(0, 15)), int(rng.integers(0, 15)), int(rng.integers(10, 60))
    if coding_run:
        g, b, k = 5, 0, 200
    pc = str(rng.choice(["mu", "tau", "both", "none"]))
    given = pc != "none" and (zd > 1 or rng.random() < 0.6) or (pc == "none" and rng.random() < 0.2) or (pc != "none" and D.missing)
    pd_ = int(rng.integers(1, 3)) if zd > 1 else 1
    pi, pit = (rng.uniform(0.1, 0.9, (n, pd_)), rng.uniform(0.1, 0.9, (m, pd_))) if given else (None, None)
    test = rng.random() < 0.6
    binary = len(np.unique(Z)) == 2
    kw = dict(cutpoint_grid_size=int(rng.choice([1, 5, 100])), alpha_mu=float(rng.uniform(0.5, 0.99)), alpha_tau=float(rng.uniform(0.3, 0.99)), beta_mu=float(rng.uniform(1, 2)), beta_tau=float(rng.uniform(1, 2)),
              min_samples_leaf_mu=int(rng.integers(1, 6)), min_samples_leaf_tau=int(rng.integers(1, 6)), num_trees_mu=int(rng.integers(20, 80)) if big == "trees" else int(rng.integers(1, 9)), num_trees_tau=int(rng.integers(12, 50)) if big == "trees" else int(rng.integers(1, 7)),
              num_gfr=g, num_burnin=b, num_mcmc=k, sample_sigma_global=bool(rng.random() < 0.6), sample_sigma_leaf_mu=bool(rng.random() < 0.6), sample_sigma_leaf_tau=bool(rng.random() < 0.5),
              propensity_covariate=pc, adaptive_coding=bool(rng.random() < 0.7) or coding_run, random_seed=int(rng.integers(0, 2**31 - 1)), keep_burnin=bool(rng.random() < 0.5), keep_gfr=bool(rng.random() < 0.5))
    opt = dict(sigma2=float(rng.uniform(0.1, 2)), sigma_leaf_mu=float(rng.uniform(0.05, 1)), sigma_leaf_tau=float(rng.uniform(0.05, 1)), nu=float(rng.uniform(1, 9)), lamb=float(rng.uniform(0.1, 2)), a_leaf_mu=float(rng.uniform(1, 5)), b_leaf_mu=float(rng.uniform(0.05, 1)),
               a_leaf_tau=float(rng.uniform(1, 5)), b_leaf_tau=float(rng.uniform(0.05, 1)), q=float(rng.uniform(0.1, 0.95)), b_0=float(rng.normal()), b_1=float(rng.normal()))
    must = ("sigma2", "lamb") if D.missing else ()     # the default calibration needs complete covariates
    kw.update({s: v for s, v in opt.items() if rng.random() < 0.5 or s in must})
    if D.missing:
        cx.count("fits_with_missing_values")
    if zd > 1 and "sigma_leaf_tau" in kw and rng.random() < 0.5:
        A = rng.normal(size=(zd, zd))
        kw["sigma_leaf_tau"] = A @ A.T + 0.2 * np.eye(zd)
    adaptive = kw["adaptive_coding"] and binary and zd == 1
    # variable restrictions and weights (some variable of each forest stays allowed)
    w = np.ones(D.p)
    if rng.random() < 0.3 and D.p > 1:
        w = rng.uniform(0.2, 3, D.p)
        w[rng.integers(0, D.p)] = 0
        kw["variable_weights"] = w.copy()
    encoded = sorted(set(D.orig))              # original columns that have an encoding
    allowed, note_vars = {}, []
    for f in ("mu", "tau"):
        ok = set(range(D.p))
        if rng.random() < 0.4 and D.p > 1:
            cols = [int(c) for c in rng.permutation(D.p)[:int(rng.integers(1, D.p))]]
            how = int(rng.integers(0, 3))
            keep = set(cols) if how != 1 else set(range(D.p)) - set(cols)
            if any(c in keep and w[c] > 0 for c in encoded):
                if how != 1:
                    kw["keep_vars_" + f] = subset(rng, D, cols)
                    if how == 2:                # both given: the kept ones decide
                        kw["drop_vars_" + f] = subset(rng, D, cols[:1])
                else:
                    kw["drop_vars_" + f] = subset(rng, D, cols)
                ok = keep
                note_vars.append("%s:%s" % (f, sorted(keep)))
        allowed[f] = {j for j, o in enumerate(D.orig) if o in ok and w[o] > 0}
    if not any(w[c] > 0 for c in encoded):
        kw.pop("variable_weights")
        w = np.ones(D.p)
        allowed = {f: {j for j, o in enumerate(D.orig)} for f in allowed}
        for s in list(kw):
            if s.startswith(("keep_vars", "drop_vars")):
                kw.pop(s)
    one = lambda a: M.lay(rng, a[:, 0]) if a.shape[1] == 1 and rng.random() < 0.5 else M.lay(rng, a)
    yy, zz, zt = M.lay(rng, y if rng.random() < 0.5 else y[:, None]), one(Z), one(Zt)
    pp, pt = (one(pi), one(pit)) if given else (None, None)
    args = dict(X_train=D.X, Z_train=zz, y_train=yy)
    if given:
        args["pi_train"] = pp
    if test:
        args.update(X_test=D.Xt, Z_test=zt)
        if given:
            args["pi_test"] = pt
    note = "n=%d %s treatment=%s(%d) gfr=%d burnin=%d mcmc=%d keep_gfr=%s keep_burnin=%s propensity=%s%s coding=%s vars %s" % (
        n, "table" if D.frame else "array with missing values" if D.missing else "array", "binary" if binary else "continuous", zd, g, b, k, kw["keep_gfr"], kw["keep_burnin"], pc, "(given)" if given else "", adaptive, note_vars)
    U = M.Untouched(X=D.X, Xt=D.Xt, Z=zz, Zt=zt, y=yy, pi=pp, pit=pt, **{s: kw[s] for s in kw if isinstance(kw[s], (np.ndarray, list))})
    mod = BCFModel()
    if not refused(lambda: mod.predict(D.X, zz)) or not refused(lambda: mod.predict_tau(D.X, zz)):
        cx.fail("C28", "unfitted", "an unfitted model predicted")
        return
    with M.Record() as R:
        mod.sample(**args, **kw)
    if U.changed():
        cx.fail("C22", "caller", "fitting changed the caller's %s (%s)" % (U.changed(), note))
        return
    keep = M.retained(g, b, k, kw["keep_gfr"], kw["keep_burnin"])
    ybar, ystd, total = y.mean(), y.std(), g + b + k
    K = len(keep)
    shape_tau = (n, K) if zd == 1 else (n, K, zd)
    for name, s in (("mu_hat_train", (n, K)), ("tau_hat_train", shape_tau), ("y_hat_train", (n, K))):
        if np.shape(getattr(mod, name)) != s:
            cx.fail("C22", "columns", "%s has shape %s, expected %s (%s)" % (name, np.shape(getattr(mod, name)), s, note))
            return

    def decompose(mu, tau, yh, Z):
        t = tau * Z if zd == 1 else np.einsum("ijk,ik->ij", tau, Z)
        return mu + t

    scale = abs(ybar) + np.abs(y).max() + np.abs(mod.mu_hat_train).max() + np.abs(mod.tau_hat_train).max() * (1 + np.abs(Z).max())
    if not near(mod.y_hat_train, decompose(mod.mu_hat_train, mod.tau_hat_train, 0, Z), scale):
        cx.fail("C22", "decomposition", "stored outcome predictions are not prognostic + treatment x effect (%s)" % note)
        return
    pred = lambda X, z, p: mod.predict(X, z, p) if p is not None else mod.predict(X, z)
    ptau = lambda X, z, p: mod.predict_tau(X, z, p) if p is not None else mod.predict_tau(X, z)
    t, mu, yh = pred(D.X, zz, pp)
    for name, got, want in (("effect", t, mod.tau_hat_train), ("prognostic", mu, mod.mu_hat_train), ("outcome", yh, mod.y_hat_train), ("effect (alone)", ptau(D.X, zz, pp), mod.tau_hat_train)):
        if not near(got, want, scale):
            cx.fail("C22", "predict-train", "%s predictions for the training data differ from the stored values, shapes %s and %s (%s)" % (name, np.shape(got), np.shape(want), note))
            return
    t2, mu2, yh2 = pred(D.Xt, zt, pt)
    st = scale + np.abs(mu2).max() + np.abs(t2).max() * (1 + np.abs(Zt).max())
    if np.shape(t2) != (m,) + shape_tau[1:] or not near(yh2, decompose(mu2, t2, 0, Zt), st):
        cx.fail("C22", "decomposition", "outcome predictions for new rows are not prognostic + treatment x effect (%s)" % note)
        return
    if not near(ptau(D.Xt, zt, pt), t2, st):
        cx.fail("C22", "predict-tau", "effects predicted alone differ from those predicted with the outcome (%s)" % note)
        return
    if test:
        for name, got in (("tau_hat_test", t2), ("mu_hat_test", mu2), ("y_hat_test", yh2)):
            if not near(getattr(mod, name), got, st):
                cx.fail("C22", "stored-test", "%s differs from predictions for the same rows (%s)" % (name, note))
                return
    # other treatments for the same rows change the outcome by the effect alone
    Zo = 1 - Z if binary else Z + rng.normal(size=Z.shape)
    to, muo, yo = pred(D.X, Zo if rng.random() < 0.5 or zd > 1 else Zo[:, 0], pp)
    if not near(to, t, scale) or not near(muo, mu, scale) or not near(yo, decompose(mu, t, 0, Zo), scale * (1 + np.abs(Zo).max())):
        cx.fail("C22", "counterfactual", "predictions under another treatment are not prognostic + treatment x effect (%s)" % note)
        return
    i = int(rng.integers(0, m))
    ti, mi, yi = pred(D.Xt.iloc[[i]] if D.frame else D.Xt[[i]], Zt[[i]], pit[[i]] if given else None)
    if not near(ti, t2[[i]], st) or not near(mi, mu2[[i]], st) or not near(yi, yh2[[i]], st):
        cx.fail("C22", "predict-one", "predictions of a single row differ from those of the same row among others (%s)" % note)
        return
    cx.count("outcome_predictions", yh.size + yh2.size + yo.size + yi.size)
    # the forests behind the numbers
    E, Et, types = D.E, D.Et, list(D.types)
    prop = pi
    if not given and pc != "none":      # the estimated propensities, exactly as they were handed to the forests
        used = [np.asarray(v, float) for e in R.of("covariates") for v in e[2].values() if isinstance(v, np.ndarray) and v.ndim == 2 and v.shape == (n, E.shape[1] + 1)]
        if used:
            prop = used[-1][:, -1:]
            if not np.array_equal(used[-1][:, :-1], E, equal_nan=True):
                cx.fail("C22", "covariates", "the forests were given other covariates than the encoded ones (%s)" % note)
                return
            yh_p = getattr(getattr(mod, "bart_propensity_model", None), "y_hat_train", None)
            if yh_p is not None and not near(prop[:, 0], np.asarray(yh_p).mean(1), 1 + np.abs(prop).max()):
                cx.fail("C22", "propensity", "the propensities in use are not the mean fitted values of the propensity model (%s)" % note)
                return
            cx.count("propensities_estimated", n)
    known = pc == "none" or prop is not None
    if pc != "none" and known:
        extra = list(range(E.shape[1], E.shape[1] + prop.shape[1]))
        E, types = np.c_[E, prop], types + [0] * prop.shape[1]
        for f in allowed:
            if pc in (f, "both"):
                allowed[f] |= set(extra)
    b0s, b1s = (np.asarray(mod.b0_samples), np.asarray(mod.b1_samples)) if adaptive else (None, None)
    Rm = Rt = None
    if known:
        Rm, dm = M.raws(mod.forest_container_mu, E)
        Rt, dt = M.raws(mod.forest_container_tau, E)
        if dm["num_samples"] != total or dt["num_samples"] != total:
            cx.fail("C22", "sample-count", "%d and %d stored forests (%s)" % (dm["num_samples"], dt["num_samples"], note))
            return
        wm, wt = ybar + ystd * Rm[:, keep, 0], ystd * (Rt[:, keep, 0] if zd == 1 else Rt[:, keep, :])
        if adaptive:
            wm, wt = wm + wt * b0s[keep], wt * (b1s - b0s)[keep]
        if not near(mod.mu_hat_train, wm, scale) or not near(mod.tau_hat_train, wt, scale):
            cx.fail("C22", "stored", "stored %s differ from the retained forests on the outcome scale (%s)" % ("prognostic values" if not near(mod.mu_hat_train, wm, scale) else "effects", note))
            return
        for f, d in (("mu", dm), ("tau", dt)):
            e = M.rules_ok(d, E, kw["min_samples_leaf_" + f], allowed[f])
            if e:
                cx.fail("C22", "restrictions", "%s forest: %s (%s)" % (f, e, note))
                return
        cx.count("splits", M.num_splits(dm) + M.num_splits(dt))
    # variances and coding
    sl = {"mu": kw["sample_sigma_leaf_mu"], "tau": kw["sample_sigma_leaf_tau"] and zd == 1}
    gv = getattr(mod, "global_var_samples", None)
    if kw["sample_sigma_global"] and (gv is None or np.shape(gv) != (total,) or not np.all(gv > 0) or len(set(gv.tolist())) != total):
        cx.fail("C22", "variance-samples", "sampled error variances: %s (%s)" % (gv, note))
        return
    lvs = {}
    for f in sl:
        lvs[f] = getattr(mod, "leaf_scale_%s_samples" % f, None) if sl[f] else None
        if sl[f] and (lvs[f] is None or np.shape(lvs[f]) != (total,) or not np.all(lvs[f] > 0) or len(set(lvs[f].tolist())) != total):
            cx.fail("C22", "variance-samples", "sampled leaf scales of the %s forest: %s (%s)" % (f, lvs[f], note))
            return
    smp = R.of("sampler")[-2:]
    if len(smp) == 2 and R.of("sample", smp[0][1]) and R.of("sample", smp[1][1]):
        since = smp[0][4]
        glob, leaf = [e for e in R.of("global") if e[4] > since], [e for e in R.of("leaf") if e[4] > since]
        byf = {"mu" if R.of("sample", s[1])[0][2]["leaf_model_int"] == 0 else "tau": s for s in smp}
        if set(byf) != {"mu", "tau"}:
            cx.fail("C22", "settings", "the two samplers use leaf models %s (%s)" % ([R.of("sample", s[1])[0][2]["leaf_model_int"] for s in smp], note))
            return
        for f, s in byf.items():
            a = s[2]
            got = (a["num_trees"], a["alpha"], a["beta"], a["min_samples_leaf"])
            exp = tuple(kw[q + f] for q in ("num_trees_", "alpha_", "beta_", "min_samples_leaf_"))
            if got != exp or (known and [int(q) for q in a["feature_types"]] != types):
                cx.fail("C22", "settings", "the %s sampler got (trees, alpha, beta, leaf size) %s and types %s, asked for %s and %s (%s)" % (f, got, a["feature_types"], exp, types, note))
                return
            # a variable's weight is shared by its columns; the propensity has a weight where it is asked for, by default that of one variable
            wf = [w[o] / D.orig.count(o) if j in allowed[f] else 0.0 for j, o in enumerate(D.orig)] if known else None
            if known and pc != "none":
                wf += [1.0 if pc in (f, "both") else 0.0] * (len(types) - len(D.orig))
            if not check_trace(cx, "C22", R, s[1], 0 if f == "mu" else 1 if zd == 1 else 2, types if known else [int(q) for q in a["feature_types"]], n, kw.get("sigma2"), kw.get("sigma_leaf_" + f), 1 if f == "mu" else zd, g, total, gv, lvs[f], ystd, dict(kw, _events=glob), "%s forest (%s): " % (f, note), weights=wf, exact=True if "variable_weights" not in kw else len(D.orig)):
                return
            for q, e in enumerate([e for e in leaf if e[2]["forest_container"] is getattr(mod, "forest_container_" + f)]):
                if ("a_leaf_" + f in kw and e[2]["a"] != kw["a_leaf_" + f]) or ("b_leaf_" + f in kw and e[2]["b"] != kw["b_leaf_" + f]) or e[2]["sample_num"] != q:
                    cx.fail("C22", "settings", "leaf scale of the %s forest drawn with a=%s b=%s from sample %s, number %d (%s)" % (f, e[2]["a"], e[2]["b"], e[2]["sample_num"], q, note))
                    return
                if not sl[f]:
                    cx.fail("C22", "fixed-variance", "the leaf scale of the %s forest was to be held fixed and was sampled (%s)" % (f, note))
                    return
        # the treatment forest is fitted to the coding in force: the one asked for, then the last one drawn
        bas = R.of("basis")
        for q, c in enumerate(R.of("sample", byf["tau"][1])):
            now = [e for e in bas if e[1] is c[2]["dataset"] and e[4] < c[4]]
            if not now or q >= total:
                break
            want = Z
            if adaptive:
                c0, c1 = (kw.get("b_0", -0.5), kw.get("b_1", 0.5)) if q == 0 else (b0s[q - 1], b1s[q - 1])
                want = (1 - Z) * c0 + Z * c1
            got = np.asarray(now[-1][2]["basis"], float).reshape(n, -1)
            if got.shape != want.shape or not near(got, want, 1 + np.abs(want).max()):
                cx.fail("C22", "coding-in-use", "pass %d fitted the treatment forest to the basis %s..., the coding in force gives %s... (%s)" % (q, got[:4].ravel().tolist(), want[:4].ravel().tolist(), note))
                return
            cx.count("bases_in_use")
        if glob and not kw["sample_sigma_global"]:
            cx.fail("C22", "fixed-variance", "the error variance was to be held fixed and was sampled (%s)" % note)
            return
        for e in glob:
            if ("nu" in kw and e[2]["nu"] != kw["nu"]) or ("lamb" in kw and e[2]["lamb"] != kw["lamb"]):
                cx.fail("C22", "settings", "error variance drawn with nu=%s lambda=%s (%s)" % (e[2]["nu"], e[2]["lamb"], note))
                return
        if kw["sample_sigma_global"] and glob:   # the last draw of each pass is the stored one
            last = {}
            tau_calls = [c[4] for c in R.of("sample", byf["tau"][1])]
            mu_calls = [c[4] for c in R.of("sample", byf["mu"][1])]
            for e in glob:
                last[sum(1 for c in mu_calls if c < e[4]) - 1] = e[3]
            if sorted(last) == list(range(total)) and not near(gv, np.array([float(last[q]) for q in range(total)]) * ystd**2, np.max(gv)):
                cx.fail("C22", "variance-samples", "stored error variances %s are not the draws on the outcome scale (%s)" % (gv, note))
                return
    res = R.of("residual")
    if res and known:
        code = (1 - Z) * b0s[-1] + Z * b1s[-1] if adaptive else Z
        r = (y - ybar) / ystd - Rm[:, -1, 0] - (Rt[:, -1, :] * code).sum(1)
        got = M.probe_ssr(res[-1][1], n)
        if abs(got - (r**2).sum()) > 1e-7 * n * (1 + np.abs(Rm).max() + np.abs(Rt).max() * (1 + np.abs(code).max())) ** 2:
            cx.fail("C22", "residual", "after fitting the residual has sum of squares %.10g, outcome minus fits has %.10g (%s)" % (got, (r**2).sum(), note))
            return
        cx.count("residual_checks")
    if adaptive:
        if np.shape(b0s) != (total,) or np.shape(b1s) != (total,) or len(set(b0s.tolist() + b1s.tolist())) != 2 * total:
            cx.fail("C22", "coding", "coding samples %s and %s (%s)" % (b0s, b1s, note))
            return
        if known and total >= 100 and (kw["sample_sigma_global"] or "sigma2" in kw):
            # given forests and variance, each coding parameter is a draw from its conditional under a N(0, 1/2) prior
            s2 = gv / ystd**2 if kw["sample_sigma_global"] else np.full(total, kw["sigma2"])
            yr = ((y - ybar) / ystd)[:, None] - Rm[:, :, 0]
            T = Rt[:, :, 0]
            for name, bs, grp in (("control", b0s, Z[:, 0] == 0), ("treated", b1s, Z[:, 0] == 1)):
                prec = (T[grp] ** 2).sum(0) + 2 * s2
                z = (bs - (T[grp] * yr[grp]).sum(0) / prec) / np.sqrt(s2 / prec)
                if abs(z.mean()) * np.sqrt(total) > 7 or abs((z**2).mean() - 1) * np.sqrt(total / 2) > 9:
                    cx.fail("C22", "coding", "%s coding draws, standardised by their conditional, have mean %.3f and mean square %.3f over %d samples (%s)" % (name, z.mean(), (z**2).mean(), total, note))
                    return
            cx.count("coding_draws", 2 * total)
    elif hasattr(mod, "b0_samples") and mod.adaptive_coding:
        cx.fail("C22", "coding", "coding parameters were sampled although not asked for or not applicable (%s)" % note)
        return
    if rng.random() < 0.04 and not coding_run:        # without a seed every fit is a fresh one
        k2 = {s: v for s, v in kw.items() if s != "random_seed"}
        if rng.random() < 0.4:
            k2["random_seed"] = [None, -1][int(rng.integers(0, 2))]
        fits = [BCFModel() for _ in range(2)]
        for f in fits:
            f.sample(**args, **k2)
        if np.array_equal(fits[0].mu_hat_train, fits[1].mu_hat_train) or np.array_equal(fits[0].tau_hat_train, fits[1].tau_hat_train) or (adaptive and np.array_equal(fits[0].b0_samples, fits[1].b0_samples)):
            cx.fail("C22", "unseeded", "two fits without a seed share samples (%s)" % note)
            return
        cx.count("unseeded_fits", 2)
    if rng.random() < 0.4 and not coding_run:
        np.random.seed(int(rng.integers(0, 1000)))
        m2 = BCFModel() if rng.random() < 0.6 else mod
        old = [np.array(a) for a in (mod.y_hat_train, mod.tau_hat_train, mod.mu_hat_train)]
        m2.sample(**args, **kw)
        new = (m2.y_hat_train, m2.tau_hat_train, m2.mu_hat_train)
        if not all(np.array_equal(a, c) for a, c in zip(old, new)) or (kw["sample_sigma_global"] and not np.array_equal(m2.global_var_samples, gv)):
            cx.fail("C22", "seed", "fitting again with the same seed gave other samples (%s)" % note)
            return
        cx.count("refits")
        mod = m2
    bad = {"predict-rows": lambda: pred(D.Xt, np.zeros((m + 1, zd)), pt), "predict-columns": lambda: pred(np.zeros((m, D.p + 1)), Zt, pt),
           "predict-tau-rows": lambda: ptau(D.Xt, np.zeros((m + 1, zd)), pt),
           "sample-rows": lambda: BCFModel().sample(X_train=D.X, Z_train=Z[:-1], y_train=y), "sample-y": lambda: BCFModel().sample(X_train=D.X, Z_train=Z, y_train=y[:-1]),
           "sample-pi": lambda: BCFModel().sample(X_train=D.X, Z_train=Z, y_train=y, pi_train=np.full(n + 1, 0.5)), "keep-index": lambda: BCFModel().sample(**args, **dict(kw, keep_vars_mu=[D.p])),
           "negative-weight": lambda: BCFModel().sample(**args, **dict(kw, variable_weights=-np.ones(D.p))), "covariate-name": lambda: BCFModel().sample(**args, **dict(kw, propensity_covariate="all")),
           "no-propensity": (lambda: mod.predict(D.Xt, Zt)) if given and pc != "none" else None, "propensity-rows": (lambda: mod.predict(D.Xt, Zt, np.full(m + 1, 0.5))) if pc != "none" else None,
           "no-samples": lambda: BCFModel().sample(**args, **dict(kw, num_gfr=0, num_burnin=0, num_mcmc=0))}
    if not coding_run:
        for what in [str(s) for s in rng.permutation([s for s, f in bad.items() if f])[:3]]:
            if not refused(bad[what]):
                cx.fail("C28", "bcf-%s" % what, "accepted: %s (%s)" % (what, note))
                return
            cx.dist("refused", ("bcf", what, zd, pc, D.frame))
            cx.count("refusals")
        if not near(pred(D.X, zz, pp)[2], yh, scale) or U.changed():
            cx.fail("C28", "bcf-state", "refused calls changed the model or the data (%s)" % note)
            return
    cx.dist("fits", (note, sorted(kw)))
    cx.sample(note)


@suite
def coding(cx, rng):
    """Long fits on few rows: given the forests and the error variance, each coding parameter is a draw from its conditional under a N(0, 1/2) prior."""
    n, p = int(rng.integers(6, 16)), int(rng.integers(1, 3))
    X, Z = np.round(rng.normal(size=(n, p)), 2), rng.integers(0, 2, (n, 1)).astype(float)
    Z[:2, 0] = [0, 1]
    tau = float(rng.choice([0, 1, 4]))
    y = float(rng.choice([0, 50])) + float(rng.choice([0.01, 1, 100])) * (rng.normal(size=n) + X[:, 0] + Z[:, 0] * tau * (1 + X[:, 0]))
    fixed = bool(rng.random() < 0.6)
    g, k = (1500, 0) if rng.random() < 0.5 else (0, 3000)
    kw = dict(num_trees_mu=int(rng.integers(1, 4)), num_trees_tau=int(rng.integers(1, 4)), num_gfr=g, num_burnin=0, num_mcmc=k, min_samples_leaf_mu=1, min_samples_leaf_tau=1, propensity_covariate="none", adaptive_coding=True,
              sample_sigma_global=not fixed, sample_sigma_leaf_mu=bool(rng.random() < 0.5), sample_sigma_leaf_tau=bool(rng.random() < 0.5), sigma_leaf_tau=float(rng.choice([0.02, 0.3, 1])), sigma2=float(rng.uniform(0.1, 2)), lamb=float(rng.uniform(0.1, 2)), keep_gfr=True, keep_burnin=True, random_seed=int(rng.integers(0, 2**31 - 1)))
    mod = BCFModel()
    with M.Record() as R:
        mod.sample(X_train=X, Z_train=Z if rng.random() < 0.5 else Z[:, 0], y_train=y, **kw)
    total, ys = g + k, (y - np.mean(y)) / np.std(y)
    b = [np.asarray(mod.b0_samples, float).ravel(), np.asarray(mod.b1_samples, float).ravel()]
    note = "n=%d gfr=%d mcmc=%d trees=%d/%d %s variance" % (n, g, k, kw["num_trees_mu"], kw["num_trees_tau"], "fixed" if fixed else "sampled")
    if fixed:
        s2 = np.full(total, kw["sigma2"])
    else:      # the variance in force at a draw: the last one drawn before the basis changes with it
        ev, s2, cur = sorted(R.of("global") + R.of("basis"), key=lambda e: e[4]), [], None
        for e in ev:
            if e[0] == "global":
                cur = float(e[3])
            elif cur is not None and np.asarray(e[2]["basis"]).size == n:
                s2.append(cur)
        s2 = np.array(s2)
        if len(s2) != total:
            cx.count("untraced_fits")
            return
    ds = Dataset()
    ds.add_covariates(X)
    ds.add_basis(np.ones((n, 1)))
    mu, ta = (np.asarray(f.predict_raw(ds)).reshape(n, total) for f in (mod.forest_container_mu, mod.forest_container_tau))
    for name, bs, grp in (("control", b[0], Z[:, 0] == 0), ("treated", b[1], Z[:, 0] == 1)):
        T, r = ta[grp], ys[grp, None] - mu[grp]
        prec = (T**2).sum(0) + 2 * s2
        loc, sd = (T * r).sum(0) / prec, np.sqrt(s2 / prec)
        z, h = (bs - loc) / sd, loc / sd
        if not np.all(np.isfinite(z)) or abs((z * h).sum()) > 7 * np.sqrt((h**2).sum()) or abs(z.mean()) * np.sqrt(total) > 7 or abs((z**2).mean() - 1) * np.sqrt(total / 2) > 7.5:
            cx.fail("C22", "coding", "%s coding draws, standardised by their conditional, have mean %.3f, mean square %.3f and slope %.3f on their location over %d samples (%s)" % (name, z.mean(), (z**2).mean(), (z * h).sum() / (h**2).sum(), total, note))
            return
    cx.count("coding_draws", 2 * total)
    cx.dist("fits", (note, kw["sigma2"]))
    cx.sample(note)


if __name__ == "__main__":
    mon.main()
