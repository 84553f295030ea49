"""Wrong arguments to the Python models: every one raises an error and a fitted model stays as it was (C28)."""
import numpy as np
import pandas as pd
import mon
from mon import suite, refused
import modeling as M
from stochtree import BARTModel, BCFModel
NAN = float("nan")


def off(v):
    """Numbers around a valid size that are not it."""
    return [v - 1, v + 1, 0, 2 * v + 1] if v > 1 else [v + 1, 2 * v + 1]


def scalars(kw, names, prefix=""):
    for n in names:
        t = n.rstrip("_")
        bad = {"num": [0, -1, -3], "count": [-1, -7], "leaf": [-1, 0], "alpha": [-0.1, 1.5, NAN, -1e9], "beta": [-1.0, NAN, -0.01], "pos": [-1.0, NAN, -1e-9, 0.0], "neg": [-1.0, NAN, -1e-9], "quant": [0.0, 1.0, -0.5, 1.5, NAN], "grid": [0, -1]}[names[n]]
        for v in bad:
            yield "%s%s=%s" % (prefix, t, v), {n: v}


def judge(cx, rng, model, calls, args_ok, state, note, kind):
    """calls: (name, function of a model). A refusal on the fitted model or on a new one; afterwards the fitted model is unchanged."""
    want = state()
    for k in rng.permutation(len(calls))[:14]:
        what, f = calls[int(k)]
        if not refused(f):
            cx.fail("C28", "%s-%s" % (kind, what.split("=")[0].split(":")[0]), "accepted: %s (%s)" % (what, note))
            return
        cx.count("refusals")
        cx.dist("refused", (kind, what, note))
        now = state()
        if len(now) != len(want) or not all(a.shape == b.shape and np.array_equal(a, b) for a, b in zip(now, want)):
            cx.fail("C28", "%s-state" % kind, "refusing %s changed the model or its predictions (%s)" % (what, note))
            return


@suite
def bart_refuse(cx, rng):
    n, m = int(rng.integers(10, 30)), int(rng.integers(1, 6))
    D = M.Design(rng, n, m, simple=True)
    if getattr(D.X, "ndim", 2) == 1:
        D.X, D.Xt = D.X[:, None], D.Xt[:, None]
    nb = int(rng.choice([0, 0, 1, 2, 3]))
    B, Bt = (rng.normal(size=(n, nb)), rng.normal(size=(m, nb))) if nb else (None, None)
    y = rng.normal(size=n) + D.E[:, 0] / (np.abs(D.E[:, 0]).max() + 1)
    kw = dict(num_trees=int(rng.integers(1, 4)), num_gfr=1, num_mcmc=2, random_seed=int(rng.integers(0, 1000)), min_samples_leaf=1, sigma2=0.5, lamb=0.5)
    args = dict(X_train=D.X, y_train=y, **({"basis_train": B} if nb else {}))
    U = M.Untouched(X=D.X, y=y, B=B, Xt=D.Xt, Bt=Bt)
    mod = BARTModel()
    mod.sample(**args, **kw)
    state = lambda: [np.array(mod.predict(D.Xt, Bt) if nb else mod.predict(D.Xt)), np.array(mod.y_hat_train)]
    fresh = rng.random() < 0.4
    new = lambda: BARTModel() if fresh else mod
    S = lambda **c: (lambda: new().sample(**{**args, **kw, **c}))
    P = lambda *a: (lambda: mod.predict(*a))
    arr = lambda r, c: rng.normal(size=(r, c))
    C = []
    for what, c in scalars(kw, dict(num_trees="num", num_gfr="count", num_burnin="count", num_mcmc="count", alpha="alpha", beta="beta", min_samples_leaf="leaf", sigma2="pos", sigma_leaf="pos", nu="pos", a_leaf="neg", b_leaf="neg", cutpoint_grid_size="grid")):
        if "leaf=" in what and what[0] in "ab" and nb < 2:
            c["sample_sigma_leaf"] = True
        elif "leaf=" in what and what[0] in "ab":
            continue   # the leaf scale is not sampled for several bases
        C.append((what, S(**c)))
    for v in (-1.0, NAN):
        C.append(("lamb=%s" % v, S(lamb=v, sample_sigma_global=True)))
    for v in (-0.5, 1.5, NAN, 0.0):
        C.append(("q=%s" % v, S(q=v, lamb=None)))
    C += [("no samples", S(num_gfr=0, num_burnin=0, num_mcmc=0)), ("X list", S(X_train=D.E.tolist())), ("X none", S(X_train=None)), ("y list", S(y_train=y.tolist())), ("y none", S(y_train=None)),
          ("X_test list", S(X_test=D.Et.tolist())), ("X 3d", S(X_train=np.zeros((n, 2, 2)))), ("X object", S(X_train=np.array([["a"] * D.p] * n, dtype=object))),
          ("y missing value", S(y_train=np.where(np.arange(n) == n - 1, NAN, y))), ("y infinite", S(y_train=np.where(np.arange(n) == 0, np.inf, y))), ("y text", S(y_train=y.astype(str))),
          ("y two columns", S(y_train=np.c_[y, y])), ("no rows", S(X_train=D.X[:0], y_train=y[:0], **({"basis_train": B[:0]} if nb else {}))), ("random_seed text", S(random_seed="1")), ("num_trees text", S(num_trees="3"))]
    for r in off(n):
        if r > 0:
            C.append(("y rows:%d" % (r - n), S(y_train=rng.normal(size=r))))
            C.append(("basis rows:%d" % (r - n), S(basis_train=arr(r, max(nb, 1)))))
    for c in off(D.p):
        C.append(("X_test columns:%d" % (c - D.p), S(X_test=arr(m, c), **({"basis_test": Bt} if nb else {}))))
        C.append(("predict columns:%d" % (c - D.p), P(arr(m, c), Bt) if nb else P(arr(m, c))))
    if nb:
        C += [("basis_test missing", S(X_test=D.Xt)), ("basis list", S(basis_train=B.tolist())), ("basis_test list", S(X_test=D.Xt, basis_test=Bt.tolist())), ("basis missing value", S(basis_train=np.where(np.arange(n)[:, None] == 0, NAN, B))), ("predict without basis", P(D.Xt))]
        for c in off(nb):
            C.append(("basis_test columns:%d" % (c - nb), S(X_test=D.Xt, basis_test=arr(m, c))))
            C.append(("predict basis columns:%d" % (c - nb), P(D.Xt, arr(m, c))))
        for r in off(m):
            C.append(("basis_test rows:%d" % (r - m), S(X_test=D.Xt, basis_test=arr(r, nb))))
            C.append(("predict basis rows:%d" % (r - m), P(D.Xt, arr(r, nb))))
    else:
        C += [("basis_test only", S(X_test=D.Xt, basis_test=arr(m, 1)))]
    C += [("predict list", P(D.Et.tolist())), ("predict none", P(None)), ("unfitted", lambda: BARTModel().predict(D.Xt))]
    if D.frame:
        C += [("predict array of other width", P(arr(m, D.E.shape[1] + 3)))]
        Y = D.X.copy()
        Y.columns = ["_%d" % i for i in range(D.p)]
        C += [("X_test frame columns", S(X_test=Y.iloc[:, :-1], **({"basis_test": B} if nb else {})))]
    note = "p=%d basis=%d %s %s" % (D.p, nb, "table" if D.frame else "array", "new" if fresh else "fitted")
    judge(cx, rng, mod, C, args, state, note, "bart")
    if U.changed():
        cx.fail("C28", "bart-data", "refused calls changed the caller's data %s (%s)" % (U.changed(), note))
    # the model still works after the refusals
    mod.sample(**args, **kw)
    cx.count("usable")


@suite
def bcf_refuse(cx, rng):
    n, m = int(rng.integers(12, 30)), int(rng.integers(1, 6))
    D = M.Design(rng, n, m, simple=True)
    if getattr(D.X, "ndim", 2) == 1:
        D.X, D.Xt = D.X[:, None], D.Xt[:, None]
    zk = str(rng.choice(["binary", "continuous", "multi"]))
    zd = 1 if zk != "multi" else int(rng.integers(2, 4))
    if zk == "binary":
        Z, Zt = (np.arange(n) % 2).astype(float)[:, None], rng.integers(0, 2, (m, 1)).astype(float)
    else:
        Z, Zt = rng.normal(size=(n, zd)), rng.normal(size=(m, zd))
    pc = str(rng.choice(["none", "mu", "tau", "both"]))
    pi, pit = rng.uniform(0.1, 0.9, (n, 1)), rng.uniform(0.1, 0.9, (m, 1))
    y = rng.normal(size=n)
    kw = dict(num_trees_mu=int(rng.integers(1, 4)), num_trees_tau=int(rng.integers(1, 3)), num_gfr=1, num_mcmc=2, random_seed=int(rng.integers(0, 1000)), min_samples_leaf_mu=1, min_samples_leaf_tau=1, sigma2=0.5, lamb=0.5, propensity_covariate=pc)
    args = dict(X_train=D.X, Z_train=Z, y_train=y, **({"pi_train": pi} if pc != "none" else {}))
    targs = dict(X_test=D.Xt, Z_test=Zt, **({"pi_test": pit} if pc != "none" else {}))
    U = M.Untouched(X=D.X, y=y, Z=Z, pi=pi, Xt=D.Xt, Zt=Zt, pit=pit)
    mod = BCFModel()
    mod.sample(**args, **kw)
    state = lambda: [np.array(a) for a in mod.predict(D.Xt, Zt, pit)] + [np.array(mod.predict_tau(D.Xt, Zt, pit)), np.array(mod.y_hat_train)]
    fresh = rng.random() < 0.4
    new = lambda: BCFModel() if fresh else mod
    S = lambda **c: (lambda: new().sample(**{**args, **kw, **c}))
    ST = lambda **c: (lambda: new().sample(**{**args, **kw, **targs, **c}))
    P = lambda *a: (lambda: mod.predict(*a))
    PT = lambda *a: (lambda: mod.predict_tau(*a))
    arr = lambda r, c: rng.normal(size=(r, c))
    C = []
    for what, c in scalars(kw, dict(num_trees_mu="num", num_trees_tau="num", num_gfr="count", num_burnin="count", num_mcmc="count", alpha_mu="alpha", alpha_tau="alpha", beta_mu="beta", beta_tau="beta", min_samples_leaf_mu="leaf", min_samples_leaf_tau="leaf", sigma2="pos", sigma_leaf_mu="pos", sigma_leaf_tau="neg", nu="pos", lamb="neg", a_leaf_mu="neg", a_leaf_tau="neg", b_leaf_mu="neg", b_leaf_tau="neg", cutpoint_grid_size="grid", q="quant")):
        C.append((what, S(**c)))
    C += [("no samples", S(num_gfr=0, num_burnin=0, num_mcmc=0)), ("X list", S(X_train=D.E.tolist())), ("Z list", S(Z_train=Z.tolist())), ("y list", S(y_train=y.tolist())), ("pi list", S(pi_train=pi.tolist())), ("X_test list", ST(X_test=D.Et.tolist())), ("Z_test list", ST(Z_test=Zt.tolist())), ("pi_test list", ST(pi_test=pit.tolist())),
          ("y missing value", S(y_train=np.where(np.arange(n) == n - 1, NAN, y))), ("Z missing value", S(Z_train=np.where(np.arange(n)[:, None] == 0, NAN, Z))), ("y two columns", S(y_train=np.c_[y, y])), ("X 3d", S(X_train=np.zeros((n, 2, 2)))),
          ("covariate name", S(propensity_covariate="all")), ("covariate none", S(propensity_covariate=None)), ("variable_weights negative", S(variable_weights=np.array([-1.0] + [1.0] * (D.p - 1)))), ("variable_weights missing", S(variable_weights=np.full(D.p, NAN))), ("variable_weights zero", S(variable_weights=np.zeros(D.p), propensity_covariate="none")),
          ("sample_sigma_leaf_mu number", S(sample_sigma_leaf_mu=1)), ("sample_sigma_leaf_tau text", S(sample_sigma_leaf_tau="yes")), ("keep_burnin number", S(keep_burnin=1)), ("keep_gfr text", S(keep_gfr="no")), ("random_seed text", S(random_seed="1")), ("random_seed fraction", S(random_seed=1.5)),
          ("sigma_leaf_tau text", S(sigma_leaf_tau="0.5")), ("Z_test missing", ST(Z_test=None)),
          ("predict Z list", P(D.Xt, Zt.tolist(), pit)), ("predict X list", P(D.Et.tolist(), Zt, pit)), ("unfitted", lambda: BCFModel().predict(D.Xt, Zt, pit)), ("unfitted tau", lambda: BCFModel().predict_tau(D.Xt, Zt, pit))]
    for k in (1, D.p + 1, D.p + 2):
        if k != D.p:
            C.append(("variable_weights length:%d" % (k - D.p), S(variable_weights=np.ones(k))))
    if zk == "binary":
        C += [("b_0 array", S(b_0=np.array([0.1, 0.2]))), ("b_1 array", S(b_1=np.array([0.1, 0.2]))), ("b_0 text", S(b_0="a")), ("b_1 text", S(b_1="a")), ("b missing", S(b_0=NAN)), ("b_1 missing", S(b_1=NAN))]
    if zd > 1:
        C += [("sigma_leaf_tau shape", S(sigma_leaf_tau=np.eye(zd + 1))), ("sigma_leaf_tau narrow", S(sigma_leaf_tau=np.ones((zd, zd - 1)))), ("sigma_leaf_tau vector", S(sigma_leaf_tau=np.ones(zd))), ("sigma_leaf_tau indefinite", S(sigma_leaf_tau=-np.eye(zd))), ("sigma_leaf_tau asymmetric", S(sigma_leaf_tau=np.triu(np.ones((zd, zd)), 0) + np.triu(np.ones((zd, zd)), 1) * 5)), ("propensity needed", lambda: new().sample(X_train=D.X, Z_train=Z, y_train=y, **dict(kw, propensity_covariate="mu")))]
    else:
        C += [("sigma_leaf_tau matrix", S(sigma_leaf_tau=np.eye(2)))]
    for r in off(n):
        if r > 0:
            C += [("y rows:%d" % (r - n), S(y_train=rng.normal(size=r))), ("Z rows:%d" % (r - n), S(Z_train=arr(r, zd)))]
            if r != n:
                C.append(("pi rows:%d" % (r - n), S(pi_train=rng.uniform(size=(r, 1)))))
    for c in off(D.p):
        C += [("X_test columns:%d" % (c - D.p), ST(X_test=arr(m, c))), ("predict columns:%d" % (c - D.p), P(arr(m, c), Zt, pit)), ("predict_tau columns:%d" % (c - D.p), PT(arr(m, c), Zt, pit))]
    for c in off(zd):
        C += [("Z_test columns:%d" % (c - zd), ST(Z_test=arr(m, c))), ("predict Z columns:%d" % (c - zd), P(D.Xt, arr(m, c), pit)), ("predict_tau Z columns:%d" % (c - zd), PT(D.Xt, arr(m, c), pit))]
    for r in off(m):
        C += [("Z_test rows:%d" % (r - m), ST(Z_test=arr(r, zd))), ("predict Z rows:%d" % (r - m), P(D.Xt, arr(r, zd), pit)), ("predict_tau Z rows:%d" % (r - m), PT(D.Xt, arr(r, zd), pit))]
        if pc != "none":
            C += [("pi_test rows:%d" % (r - m), ST(pi_test=rng.uniform(size=(r, 1)))), ("predict pi rows:%d" % (r - m), P(D.Xt, Zt, rng.uniform(size=(r, 1))))]
        if pc in ("tau", "both"):
            C.append(("predict_tau pi rows:%d" % (r - m), PT(D.Xt, Zt, rng.uniform(size=(r, 1)))))
    if pc != "none":
        C += [("pi_test missing", ST(pi_test=None)), ("predict without pi", P(D.Xt, Zt)), ("pi_test columns", ST(pi_test=rng.uniform(size=(m, 2)))), ("predict pi columns", P(D.Xt, Zt, rng.uniform(size=(m, 2))))]
        if pc in ("tau", "both"):
            C += [("predict_tau without pi", PT(D.Xt, Zt)), ("predict_tau pi columns", PT(D.Xt, Zt, rng.uniform(size=(m, 2))))]
    for f in ("keep_vars_mu", "drop_vars_mu", "keep_vars_tau", "drop_vars_tau"):
        C += [("%s %s" % (f, w), S(**{f: v})) for w, v in [("index p", [D.p]), ("index beyond", [0, D.p + 4]), ("index negative", [-1]), ("array p", np.array([0, D.p])), ("array beyond", np.array([D.p + 3])), ("array negative", np.array([-1, 0])), ("text", "x"), ("number", 1), ("fractions", [0.5]), ("mixed", [0, "x"]),
                                                         ("tuple", (0,)), ("unknown name", ["no such column"]), ("unknown name array", np.array(["no such column"])), ("fraction array", np.array([0.5]))]]
        if D.frame:
            C += [("%s one unknown name" % f, S(**{f: [D.names[0], "no such column"]})), ("%s one unknown in array" % f, S(**{f: np.array([str(D.names[0]), "no such column"])}))]
    for f in ("mu", "tau"):
        if pc not in (f, "both"):
            C += [("nothing kept for %s" % f, S(**{"keep_vars_" + f: []})), ("everything dropped for %s" % f, S(**{"drop_vars_" + f: list(range(D.p))}))]
    note = "p=%d Z=%s/%d propensity=%s %s %s" % (D.p, zk, zd, pc, "table" if D.frame else "array", "new" if fresh else "fitted")
    judge(cx, rng, mod, C, args, state, note, "bcf")
    if U.changed():
        cx.fail("C28", "bcf-data", "refused calls changed the caller's data %s (%s)" % (U.changed(), note))
    mod.sample(**args, **kw)
    cx.count("usable")


if __name__ == "__main__":
    mon.main()
