"""Low-level Python objects: forests, samplers, variance models, data hand-over, refusals (C29, and the Python side of C18 and C28)."""
import json
import numpy as np
from scipy.special import polygamma
import mon
from mon import suite, close, refused, forest_raw, tree_leaves
from stochtree import Dataset, Residual, ForestContainer, RNG, ForestSampler, GlobalVarianceModel, LeafVarianceModel, JSONSerializer


def doc(fc):
    j = JSONSerializer()
    j.add_forest(fc)
    return json.loads(j.json_cpp.DumpJson())["forests"]["forest_0"]


def probe_ssr(residual, n, seed=77):
    """Sum of squares of a residual, read through the variance sampler with a fixed seed (three draws that differ only in it)."""
    gv = GlobalVarianceModel()
    d = lambda r: gv.sample_one_iteration(r, RNG(seed), 1.0, 1e-3)
    v0, v1, v = d(Residual(np.zeros(n))), d(Residual(np.ones(n))), d(residual)
    return (v - v0) / (v1 - v0) * n


def layout(rng, a):
    """The same values in another memory layout or type."""
    k = rng.integers(0, 6)
    a = np.asarray(a, float)
    if k == 0:
        return a
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:
        b = np.full(tuple(3 * s + 1 for s in a.shape), 1e9)
        sl = tuple(slice(1, 1 + 3 * s, 3) for s in a.shape)
        b[sl] = a
        return b[sl]
    if k == 3:
        b = a[tuple(slice(None, None, -1) for _ in a.shape)].copy()
        return b[tuple(slice(None, None, -1) for _ in a.shape)]
    if k == 4:
        b = a.copy()
        b.setflags(write=False)
        return b
    return a.astype(np.longdouble) if rng.random() < 0.5 else a.astype(">f8")


class Data:
    def __init__(self, rng, n=None):
        self.n = n or int(rng.integers(1, 40))
        self.p = int(rng.integers(1, 5))
        self.kind = int(rng.integers(0, 3))       # leaf model
        self.nb = 1 if self.kind < 2 else int(rng.integers(2, 4))
        self.types = rng.integers(0, 3, self.p)
        self.X = np.empty((self.n, self.p))
        for j in range(self.p):
            if self.types[j] == 0:
                self.X[:, j] = rng.normal(size=self.n) if rng.random() < 0.6 else rng.integers(-3, 4, self.n)
            else:
                self.X[:, j] = rng.integers(0, rng.integers(1, 5) + 1, self.n)
        self.B = rng.normal(size=(self.n, self.nb))
        if rng.random() < 0.3:
            self.B[:, 0] = rng.integers(0, 2, self.n)
        self.W = rng.uniform(0.3, 3, self.n) if rng.random() < 0.25 else None
        self.scale = float(rng.choice([1e-3, 1, 1, 50]))
        self.y = self.scale * (rng.normal(size=self.n) + self.X[:, 0])
        self.y -= self.y.mean() * (self.kind == 2)

    def dataset(self, rng=None):
        d = Dataset()
        f = (lambda a: layout(rng, a)) if rng is not None else (lambda a: a)
        flat = lambda a: f(a[:, 0]) if a.shape[1] == 1 and rng is not None and rng.random() < 0.5 else f(a)
        d.add_covariates(flat(self.X))
        if self.kind:
            d.add_basis(flat(self.B))
        if self.W is not None:
            d.add_variance_weights(f(self.W))
        return d


class Model:
    """One forest with its sampler on shared data; every action follows from the script of arguments and seeds."""

    def __init__(self, D, T, alpha, beta, msl, seed, rng=None):
        self.D, self.T = D, T
        self.dim = D.nb if D.kind else 1
        self.ds = D.dataset(rng)
        self.fc = ForestContainer(T, self.dim, D.kind == 0)
        self.fs = ForestSampler(self.ds, D.types, T, D.n, alpha, beta, msl)
        self.pre = False

    def root(self, v):
        self.fc.set_root_leaves(0, v)
        self.pre = True

    def step(self, resid, rng_, gfr, grid, scale, w, s2):
        self.fs.sample_one_iteration(self.fc, self.ds, resid, rng_, self.D.types, grid, np.eye(self.dim) * scale, w, s2, self.D.kind, gfr, self.pre)


def fits(m, d, s):
    raw = forest_raw(d, s, m.D.X)
    return raw[:, 0] if m.D.kind == 0 else (raw * m.D.B).sum(1)


@suite
def low(cx, rng):
    D = Data(rng)
    n, two = D.n, rng.random() < 0.3
    args = [(int(rng.integers(1, 5)), float(rng.uniform(0.3, 0.99)), float(rng.uniform(0, 2)), int(rng.integers(1, 4)), int(rng.integers(0, 2**31 - 1))) for _ in range(2)]
    runs = [[Model(D, *args[k], rng=rng) for k in range(1 + two)] for _ in range(2)]      # the same script twice
    resid = [Residual(layout(rng, D.y if rng.random() < 0.5 else D.y[:, None])) for _ in range(2)]
    seeds = [RNG(args[0][4]) for _ in range(2)]
    script = []
    expect_pre = [0.0] * (1 + two)
    for k in range(1 + two):
        if rng.random() < 0.5 or D.kind == 2:
            if D.kind == 2:
                v = rng.normal(size=D.nb) * D.scale * float(rng.random() < 0.8)
                val = v if rng.random() < 0.5 else v[None, :]
            else:
                v = np.array([rng.normal() * D.scale])
                val = float(v[0])
            for r in range(2):
                runs[r][k].root(val)
                runs[r][k].fs.update_residual(runs[r][k].ds, resid[r], runs[r][k].fc, D.kind > 0, 0, False)
            expect_pre[k] = args[k][0] * (v[0] * np.ones(n) if D.kind == 0 else D.B @ v)
            m = runs[0][k]
            if not close(m.fc.predict(m.ds)[:, :1] if m.fc.forest_container_cpp.NumSamples() else expect_pre[k][:, None], expect_pre[k][:, None], 1e-9):
                cx.fail("C29", "root-values", "prediction of a forest with root values %s" % v)
            script.append("root")
    cur = [np.zeros(n) + expect_pre[k] for k in range(1 + two)]
    ymag = float(np.abs(D.y).max() + 1e-12 + max(np.abs(c).max() for c in cur))

    def check_resid(where):
        want = float(((D.y - sum(cur)) ** 2).sum())
        got = probe_ssr(resid[0], n)
        mag = n * max(ymag, max(np.abs(c).max() for c in cur)) ** 2
        cx.count("residual_checks")
        if abs(got - want) > 1e-7 * (mag + 1):
            cx.fail("C29", "residual", "after %s: residual sum of squares %.12g, outcome minus all fits gives %.12g (leaf model %d, %d forests)" % (script, got, want, D.kind, 1 + two))
            return False
        return True

    if not check_resid("start"):
        return
    past = [None, None]
    for step in range(int(rng.integers(1, 7))):
        k = int(rng.integers(0, 1 + two))
        gfr = bool(rng.random() < 0.4)
        grid, scale, s2 = int(rng.choice([1, 3, 10, 100])), float(rng.uniform(0.1, 2)) * D.scale**2, float(rng.uniform(0.2, 2)) * D.scale**2
        w = rng.dirichlet(np.ones(D.p))
        before = runs[0][k].fc.forest_container_cpp.NumSamples()
        first = not runs[0][k].pre and before == 0
        if first and D.kind == 2:
            return
        for r in range(2):
            runs[r][k].step(resid[r], seeds[r], gfr, grid, scale, w if r == 0 else layout(rng, w), s2)
        script.append("%s%d" % ("g" if gfr else "m", k))
        m = runs[0][k]
        S = m.fc.forest_container_cpp.NumSamples()
        if S != before + 1:
            cx.fail("C29", "one-sample-per-call", "%d stored forests after a sampler call, %d before (%s)" % (S, before, script))
            return
        docs = [doc(runs[r][k].fc) for r in range(2)]
        if docs[0] != docs[1]:
            cx.fail("C29", "repeatable", "the same calls with the same seeds on the same values gave other forests (%s)" % script)
            return
        d = docs[0]
        P, R = m.fc.predict(m.ds), m.fc.predict_raw(m.ds)
        if P.shape != (n, S) or R.shape != (n, S, m.dim):
            cx.fail("C29", "shape", "prediction shapes %s and %s for %d rows, %d samples, %d leaf values" % (P.shape, R.shape, n, S, m.dim))
            return
        for s in range(S):
            raw = forest_raw(d, s, D.X)
            f = raw[:, 0] if D.kind == 0 else (raw * D.B).sum(1)
            R1 = m.fc.predict_raw_single_forest(m.ds, s)
            cx.count("prediction_columns")
            if R1.shape != (n, m.dim) or not close(R1, raw) or not close(R[:, s, :], raw) or not close(P[:, s], f):
                cx.fail("C29", "prediction", "sample %d of %d: predictions differ from the sum over trees of routed leaf values (leaf model %d, %d rows)" % (s, S, D.kind, n))
                return
        if past[k] is not None and past[k].shape[1] < S and not np.array_equal(past[k], P[:, :past[k].shape[1]]):
            cx.fail("C29", "earlier-samples", "a sampler call changed predictions of earlier samples (%s)" % script)
            return
        past[k] = P
        cur[k] = fits(m, d, S - 1)
        if not check_resid(script[-1]):
            return
        # leaf variance: the draw depends on the sum of squared leaf values of the named sample
        if D.kind < 2:
            lv, s = LeafVarianceModel(), int(rng.integers(0, S))
            ssl = sum(v * v for j in range(m.T) for t in [d["forest_%d" % s]["tree_%d" % j]] for v in [t["leaf_value"][q] for q in t["leaves"]])
            b1 = float(rng.uniform(0.3, 3)) * max(ssl, 1e-12)
            v1, v2 = (lv.sample_one_iteration(m.fc, RNG(5), 2.0, b, s) for b in (b1, 3 * b1))
            g = 2 * b1 / (v2 - v1)
            if abs(2 * (v1 * g - b1) - ssl) > 1e-6 * (ssl + b1):
                cx.fail("C29", "leaf-variance", "leaf variance draw for sample %d reflects squared leaf values of %.10g, stored leaves give %.10g" % (s, 2 * (v1 * g - b1), ssl))
                return
            cx.count("leaf_variance_checks")
        # adjusting by a stored forest and back
        if rng.random() < 0.5:
            s, add = int(rng.integers(0, S)), bool(rng.random() < 0.5)
            f = fits(m, d, s)
            m.fs.update_residual(m.ds, resid[0], m.fc, D.kind > 0, s, add)
            cur[k] = cur[k] + (-f if add else f)
            ymag = max(ymag, float(np.abs(cur[k]).max()))
            if not check_resid("adjust"):
                return
            m.fs.update_residual(m.ds, resid[0], m.fc, D.kind > 0, s, not add)
            cur[k] = cur[k] + (f if add else -f)
            if s != S - 1:   # the tracker follows the last forest adjusted
                for a in (True, False):
                    m.fs.update_residual(m.ds, resid[0], m.fc, D.kind > 0, S - 1, a)
            if not check_resid("restore"):
                return
            for a in (True, False):
                runs[1][k].fs.update_residual(runs[1][k].ds, resid[1], runs[1][k].fc, D.kind > 0, s, add if a else not add)
            if s != S - 1:
                for a in (True, False):
                    runs[1][k].fs.update_residual(runs[1][k].ds, resid[1], runs[1][k].fc, D.kind > 0, S - 1, a)
            cx.count("adjustments")
        if D.kind and not two and rng.random() < 0.2:   # a new basis: the stored fits are replaced with it
            B2 = rng.normal(size=D.B.shape)
            for a in (True, False):
                for r in range(2):
                    runs[r][0].fs.update_residual(runs[r][0].ds, resid[r], runs[r][0].fc, True, S - 1, a)
                if a:
                    D.B = B2
                    for r in range(2):
                        runs[r][0].ds.update_basis(layout(rng, B2))
            past[0] = None
            cur[0] = fits(m, d, S - 1)
            script.append("b")
            if not check_resid("basis"):
                return
        cx.dist("states", (D.kind, S, gfr, [sum(len(d["forest_%d" % s]["tree_%d" % j]["leaves"]) for j in range(m.T)) for s in range(S)], n))
    # a reloaded container predicts the same on new rows
    m = runs[0][0]
    S = m.fc.forest_container_cpp.NumSamples()
    if S:
        D2 = Data(rng, n=int(rng.integers(1, 6)))
        D2.kind, D2.nb, D2.p = D.kind, D.nb, D.p
        D2.X = D.X[rng.integers(0, n, D2.n)] + (rng.random((D2.n, D.p)) < 0.3) * np.where(D.types == 0, rng.normal(size=(D2.n, D.p)) * 3, 1)
        D2.B, D2.W = rng.normal(size=(D2.n, D.nb)), None
        D2.X[rng.random(D2.X.shape) < 0.05] = np.nan
        j = JSONSerializer()
        j.add_forest(m.fc)
        fc2 = j.get_forest_container("forest_0")
        d, ds2 = doc(m.fc), D2.dataset(rng)
        want = np.stack([(lambda raw: raw[:, 0] if D.kind == 0 else (raw * D2.B).sum(1))(forest_raw(d, s, D2.X)) for s in range(S)], 1)
        for fc in (m.fc, fc2):
            if not close(fc.predict(ds2), want):
                cx.fail("C29", "new-rows", "predictions for new rows differ from routed leaf values (leaf model %d)" % D.kind)
        cx.count("new_row_predictions", D2.n * S)
    cx.sample("n=%d p=%d leaf model %d, %s" % (n, D.p, D.kind, " ".join(script)))



# ---------------------------------------------------------------- hand-over (C18): read back every value through exact probes
def node_tree(left=None, feature=0, threshold=0.0, values=(0.0, 1.0, 2.0)):
    split = feature is not None
    k = 3 if split else 1
    pad = lambda v, f: ([v] + [f] * (k - 1)) if split else [f]
    return dict(num_nodes=k, num_deleted_nodes=0, has_categorical_split=False, output_dimension=1, parent=[-1, 0, 0][:k], left=pad(1, -1), right=pad(2, -1),
                split_index=pad(feature if split else -1, -1), leaf_value=list(values)[:k], threshold=pad(threshold, 0.0), node_type=pad(1, 0), leaf_vector_begin=[0] * k, leaf_vector_end=[0] * k,
                category_list_begin=[0] * k, category_list_end=[0] * k, leaf_vector=[], category_list=[], internal_nodes=[0] if split else [], leaf_parents=[0] if split else [],
                leaves=[1, 2] if split else [0], deleted_nodes=[])


def container(trees, constant=True):
    import os
    d = dict(num_samples=len(trees), num_trees=1, output_dimension=1, is_leaf_constant=constant, initialized=True)
    for s, t in enumerate(trees):
        d["forest_%d" % s] = dict(num_trees=1, output_dimension=1, is_leaf_constant=constant, tree_0=t)
    fn = os.path.join(os.environ.get("STVERIF_TMP", "/tmp"), "probe%d.json" % os.getpid())
    json.dump(d, open(fn, "w"))
    fc = ForestContainer(1, 1, constant)
    fc.load_from_json_file(fn)
    os.unlink(fn)
    return fc


def values(rng, shape):
    v = rng.normal(size=shape) * 10.0 ** rng.integers(-5, 6, shape)
    k = rng.random(shape)
    v = np.where(k < 0.1, rng.choice([0.0, 1e300, -1e300, 5e-324, 1.7e-308, 3.0], shape), v)
    return np.where((k > 0.1) & (k < 0.25), rng.integers(-4, 5, shape), v)


def scribble(a):
    try:
        a.setflags(write=True)
        a[...] = 12345.0
    except ValueError:
        pass


@suite
def data(cx, rng):
    n, p, nb = int(rng.integers(1, 9)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    ints = rng.random() < 0.2
    X = values(rng, (n, p)) if not ints else rng.integers(-5, 6, (n, p)).astype(float)
    B = values(rng, (n, nb))
    ds = Dataset()
    rounds = 1 + int(rng.random() < 0.3)
    for _ in range(rounds):
        a = layout(rng, (X if not (p == 1 and rng.random() < 0.5) else X[:, 0]).copy())
        if ints:
            a = a.astype(str(rng.choice(["int64", "int8", "float32", "uint16" if X.min() >= 0 else "int32"])))
        b = layout(rng, (B if not (nb == 1 and rng.random() < 0.5) else B[:, 0]).copy())
        ca, cb = np.array(a, float), np.array(b, float)
        ds.add_covariates(a)
        (ds.update_basis if _ and rng.random() < 0.7 else ds.add_basis)(b)
        if not (np.array_equal(ca, np.array(a, float)) and np.array_equal(cb, np.array(b, float))):
            cx.fail("C18", "caller", "handing data over changed the caller's array")
        scribble(a), scribble(b)
        if _ == 0 and rounds == 2:
            X, B = (values(rng, (n, p)) if not ints else rng.integers(-5, 6, (n, p)).astype(float)), values(rng, (n, nb))
    if ds.dataset_cpp.NumRows() != n:
        cx.fail("C18", "rows", "%d rows held, %d given" % (ds.dataset_cpp.NumRows(), n))
    trees, want = [], []
    for i in range(n):
        for j in range(p):
            x = float(X[i, j])
            for t in (x, np.nextafter(x, -np.inf)):
                if np.isfinite(t):
                    trees.append(node_tree(feature=j, threshold=float(t)))
                    want.append(np.where(X[:, j] <= t, 1.0, 2.0))
    got = container(trees).predict(ds)
    cx.count("covariate_probes", got.size)
    if not np.array_equal(got, np.stack(want, 1)):
        cx.fail("C18", "covariates", "covariates held by the dataset differ from those given (%d x %d)" % (n, p))
    if nb == 1:
        got = container([node_tree(feature=None, values=(1.0,))], False).predict(ds)[:, 0]
        if not np.array_equal(got, B[:, 0]):
            cx.fail("C18", "basis", "basis held by the dataset differs from the one given")
    else:
        d = dict(num_samples=nb, num_trees=1, output_dimension=nb, is_leaf_constant=False, initialized=True)
        fc = ForestContainer(1, nb, False)
        for k in range(nb):   # one root forest per unit vector, added through a document
            t = node_tree(feature=None, values=(0.0,))
            t.update(output_dimension=nb, leaf_vector=[float(q == k) for q in range(nb)], leaf_vector_end=[nb])
            d["forest_%d" % k] = dict(num_trees=1, output_dimension=nb, is_leaf_constant=False, tree_0=t)
        import os
        fn = os.path.join(os.environ.get("STVERIF_TMP", "/tmp"), "probe%d.json" % os.getpid())
        json.dump(d, open(fn, "w"))
        fc.load_from_json_file(fn)
        os.unlink(fn)
        if not np.array_equal(fc.predict(ds), B):
            cx.fail("C18", "basis", "basis held by the dataset differs from the one given (%d columns)" % nb)
    cx.count("basis_probes", B.size)
    # residual: each element through the change of the sum of squares when a known amount is taken off that row
    y = rng.normal(size=n) * 3
    a = layout(rng, (y if rng.random() < 0.6 else y[:, None]).copy())
    res = Residual(a)
    scribble(a)
    s0 = probe_ssr(res, n)
    one = container([node_tree(feature=None, values=(1.0,))], False)
    for i in range(n):
        e = Dataset()
        e.add_covariates(X)
        e.add_basis((np.arange(n) == i) * 1.0)
        fs = ForestSampler(e, np.zeros(p, int), 1, n, 0.9, 1.0, 1)
        fs.update_residual(e, res, one, True, 0, False)
        s1 = probe_ssr(res, n)
        fs.update_residual(e, res, one, True, 0, True)
        r = (s0 - s1 + 1) / 2
        cx.count("residual_probes")
        if abs(r - y[i]) > 1e-6 * (1 + abs(y).max()) ** 2 * n:
            cx.fail("C18", "residual", "row %d of the residual reads %.9g, given %.9g" % (i, r, y[i]))
            break
    # row weights: the leaf draw moves with row i of the outcome in proportion to 1 / weight
    if n > 1:
        w = rng.uniform(0.2, 5, n)
        a = layout(rng, w.copy())
        d = Dataset()
        d.add_covariates(X)
        d.add_variance_weights(a)
        scribble(a)

        def leaf(y):
            fc = ForestContainer(1, 1, True)
            fc.set_root_leaves(0, 0.0)
            fs = ForestSampler(d, np.zeros(p, int), 1, n, 0.9, 1.0, n)
            fs.sample_one_iteration(fc, d, Residual(y), RNG(3), np.zeros(p, int), 10, np.array([[1.0]]), np.ones(p) / p, 1.0, 0, False, True)
            return fc.predict(d)[0, 0]
        base = leaf(np.zeros(n))
        shift = np.array([leaf((np.arange(n) == i) * 1.0) - base for i in range(n)])
        want = (1 / w) / (1 / w).sum()
        cx.count("weight_probes", n)
        if not np.allclose(shift / shift.sum(), want, rtol=1e-6):
            cx.fail("C18", "weights", "row weights act as %s, given ones imply %s" % (shift / shift.sum(), want))
    cx.dist("shapes", (n, p, nb, ints, rounds))
    cx.sample("%d rows, %d covariates, %d basis columns" % (n, p, nb))


# ---------------------------------------------------------------- every argument of a sampler call takes effect (C29)
def zscores(cx, key, z, what, lim=6.5):
    cx.count("statistics", len(z))
    bad = [float(v) for v in np.atleast_1d(z) if not abs(v) < lim]
    if bad:
        cx.fail("C29", key, "%s: z = %s" % (what, bad[:6]))
    return not bad


@suite
def args(cx, rng):
    what = str(rng.choice(["leaf", "leaf", "leaf", "weights", "grid", "prior", "size", "variance", "leaf variance"]))
    n = int(rng.integers(4, 30))
    s2, seed = float(rng.uniform(0.2, 3)), int(rng.integers(0, 10**6))
    if what == "leaf":         # draws of a root's value follow its posterior, for every leaf model and any scale matrix
        kind = int(rng.integers(0, 3))
        k = 1 if kind < 2 else int(rng.integers(2, 4))
        B = rng.normal(size=(n, k)) if kind else np.ones((n, 1))
        A = rng.normal(size=(k, k))
        Sig = (A @ A.T + 0.05 * np.eye(k)) * float(rng.choice([0.05, 1, 10]))
        y = rng.normal(size=n) * 2 + B @ np.linalg.cholesky(Sig) @ rng.normal(size=k)
        W = rng.uniform(0.3, 3, n) if rng.random() < 0.4 else np.ones(n)
        ds = Dataset()
        ds.add_covariates(layout(rng, rng.normal(size=(n, 2))))
        if kind:
            ds.add_basis(layout(rng, B))
        if not np.all(W == 1):
            ds.add_variance_weights(layout(rng, W))
        fc, fs, g, R = ForestContainer(1, k, kind == 0), ForestSampler(ds, np.zeros(2, int), 1, n, 0.9, 1.0, n), RNG(seed), Residual(y)
        fc.set_root_leaves(0, 0.0 if k == 1 else np.zeros(k))
        K = 300
        for i in range(K):
            fs.sample_one_iteration(fc, ds, R, g, np.zeros(2, int), 5, layout(rng, Sig), np.ones(2) / 2, s2, kind, bool(i % 2), True)
        v = fc.predict_raw(ds)[0]                                   # K x k
        P = np.linalg.inv(Sig) + (B / W[:, None]).T @ B / s2
        mu = np.linalg.solve(P, (B / W[:, None]).T @ y / s2)
        z = (v.reshape(K, k) - mu) @ np.linalg.cholesky(P)          # standard normal if the draws are right
        C = z.T @ z
        if not zscores(cx, "leaf-draws", np.concatenate([z.mean(0) * K**0.5, (np.diag(C) - K) / (2 * K) ** 0.5, C[np.triu_indices(k, 1)] / K**0.5]),
                       "root values (model %d, dimension %d) against their posterior: mean, spread, correlation" % (kind, k), 7):
            return
        cx.dist("arguments", (what, kind, k))
    elif what == "weights":    # variables of weight zero are never split on, the others share the splits by weight
        p = int(rng.integers(2, 5))
        w = rng.dirichlet(np.ones(p)) * (rng.random(p) < 0.6)
        if w.sum() == 0:
            w[int(rng.integers(0, p))] = 1
        w = w / w.sum() * float(rng.choice([1, 1, 7]))
        n = 40
        X = rng.normal(size=(n, p))
        ds = Dataset()
        ds.add_covariates(X)
        gfr = bool(rng.random() < 0.5)
        T = 20
        fc, fs, g, R = ForestContainer(T, 1, True), ForestSampler(ds, np.zeros(p, int), T, n, 0.95, 1.0, 1), RNG(seed), Residual(rng.normal(size=n))
        for i in range(30):
            fs.sample_one_iteration(fc, ds, R, g, np.zeros(p, int), 20, np.array([[1e-6]]), layout(rng, w), 1.0, 0, gfr, False)
        d = doc(fc)
        use = np.zeros(p)
        for i in range(10, 30):
            for j in range(T):
                t = d["forest_%d" % i]["tree_%d" % j]
                if t["left"][0] >= 0:
                    use[t["split_index"][0]] += 1
                for q in t["internal_nodes"]:
                    if w[t["split_index"][q]] == 0:
                        cx.fail("C29", "zero-weight", "split on a variable of weight zero (%s, weights %s)" % ("gfr" if gfr else "mcmc", w))
                        return
        N, pr = use.sum(), w / w.sum()
        if N < 50:
            cx.fail("C29", "no-splits", "only %d root splits in 400 trees under an almost flat likelihood" % N)
        if not gfr and np.any(np.abs(use - N * pr) > 12 * np.sqrt(3 * N * pr * (1 - pr)) + 12):   # growing from the root only excludes weight zero
            cx.fail("C29", "weight-shares", "root splits %s for variable weights %s (%s)" % (use, w, "gfr" if gfr else "mcmc"))
        cx.count("root_splits", N)
        cx.dist("arguments", (what, gfr, tuple(np.round(w, 1))))
    elif what == "grid":       # a coarse grid leaves few thresholds, a fine one reaches every value
        n = int(rng.integers(30, 80))
        ds = Dataset()
        X = rng.permutation(n)[:, None] * 1.0
        ds.add_covariates(X)
        grid = int(rng.choice([2, 3, 5, 10, 200]))
        T = 20
        fc, fs, g, R = ForestContainer(T, 1, True), ForestSampler(ds, np.zeros(1, int), T, n, 1.0, 0.0, 1), RNG(seed), Residual(rng.normal(size=n))
        for i in range(20):
            fs.sample_one_iteration(fc, ds, R, g, np.zeros(1, int), grid, np.array([[1e-6]]), np.ones(1), 1.0, 0, True, False)
        d = doc(fc)
        th = {t["threshold"][0] for i in range(20) for j in range(T) for t in [d["forest_%d" % i]["tree_%d" % j]] if t["left"][0] >= 0}
        want = min(grid, n - 1)
        if len(th) > min(want + 2, n - 1) or len(th) < want * (0.4 if grid > n else 1) - 2 or len(th) < 1:
            cx.fail("C29", "grid", "%d different thresholds at the root for a grid of %d over %d values" % (len(th), grid, n))
        cx.dist("arguments", (what, grid))
    elif what == "prior":      # under an almost flat likelihood the chain visits trees in proportion to their prior
        alpha, beta = float(rng.uniform(0.1, 0.95)), float(rng.choice([1.0, 2.0, 30.0]))
        n = 64
        X = np.arange(n)[:, None] * 1.0
        ds = Dataset()
        ds.add_covariates(X)
        T, K = 20, 400
        fc, fs, g, R = ForestContainer(T, 1, True), ForestSampler(ds, np.zeros(1, int), T, n, alpha, beta, 1), RNG(seed), Residual(rng.normal(size=n))
        for i in range(K):
            fs.sample_one_iteration(fc, ds, R, g, np.zeros(1, int), 10, np.array([[1e-9]]), np.ones(1), 1.0, 0, False, False)
        d = doc(fc)
        split, deeper, kids = 0, 0, 0
        for i in range(100, K):
            for j in range(T):
                t = d["forest_%d" % i]["tree_%d" % j]
                if t["left"][0] >= 0:
                    split += 1
                    kids += 2
                    deeper += sum(t["left"][c] >= 0 for c in (t["left"][0], t["right"][0]))
        N = (K - 100) * T
        cx.count("trees_visited", N)
        if abs(split / N - alpha) > 0.12:
            cx.fail("C29", "alpha", "share of split roots %.3f for alpha %.3f" % (split / N, alpha))
        if kids > 1000 and abs(deeper / kids - alpha * 2.0**-beta) > 0.14:
            cx.fail("C29", "beta", "share of split nodes at depth one %.3f for alpha %.3f, beta %.3f (%.3f expected)" % (deeper / kids, alpha, beta, alpha * 2.0**-beta))
        cx.dist("arguments", (what, beta, round(alpha, 1)))
    elif what == "size":       # leaves hold at least the demanded number of rows, and reach it
        n, m = int(rng.integers(20, 60)), int(rng.integers(1, 8))
        X = rng.permutation(n)[:, None] * 1.0
        ds = Dataset()
        ds.add_covariates(X)
        T = 10
        gfr = bool(rng.random() < 0.5)
        fc, fs, g, R = ForestContainer(T, 1, True), ForestSampler(ds, np.zeros(1, int), T, n, 0.99, 0.1, m), RNG(seed), Residual(rng.normal(size=n))
        low = n
        for i in range(30):
            fs.sample_one_iteration(fc, ds, R, g, np.zeros(1, int), 100, np.array([[1e-6]]), np.ones(1), 1.0, 0, gfr, False)
        d = doc(fc)
        for i in range(30):
            for j in range(T):
                sizes = [len(rows) for _, rows in tree_leaves(d["forest_%d" % i]["tree_%d" % j], X)]
                low = min(low, min(sizes))
                cx.count("leaves_measured", len(sizes))
        if low < m or low > m + 3:
            cx.fail("C29", "leaf-size", "smallest leaf holds %d rows where at least %d are demanded" % (low, m))
        cx.dist("arguments", (what, m, gfr))
    elif what == "variance":   # inverse-gamma with shape nu + n / 2 and scale nu lambda + SSR / 2
        y = rng.normal(size=n) * float(rng.choice([0.1, 1, 20]))
        nu, lam, R, K = float(rng.uniform(0.5, 30)), float(rng.uniform(0.05, 5)), Residual(layout(rng, y)), 400
        gv, g = GlobalVarianceModel(), RNG(seed)
        u = np.array([1 / gv.sample_one_iteration(R, g, nu, lam) for _ in range(K)])
        a, b = nu + n / 2, nu * lam + (y**2).sum() / 2
        zscores(cx, "variance-draws", [(u.mean() - a / b) / (a**0.5 / b) * K**0.5, (np.log(u).var() / polygamma(1, a) - 1) * (K / (2 + polygamma(3, a) / polygamma(1, a)**2)) ** 0.5],
                "variance draws for nu %.3g, lambda %.3g, %d rows" % (nu, lam, n), 8)
        cx.dist("arguments", (what, round(nu), n))
    else:                      # inverse-gamma with shape a + leaves / 2 and scale b + sum of squares / 2
        T = int(rng.integers(1, 12))
        ds = Dataset()
        ds.add_covariates(rng.normal(size=(n, 2)))
        sc = float(rng.choice([0.1, 1, 5]))
        fc, fs, g, R = ForestContainer(T, 1, True), ForestSampler(ds, np.zeros(2, int), T, n, 0.9, 1.0, 1), RNG(seed), Residual(rng.normal(size=n) * sc)
        S = int(rng.integers(1, 5))
        for i in range(S):
            fs.sample_one_iteration(fc, ds, R, g, np.zeros(2, int), 10, np.array([[sc]]), np.ones(2) / 2, sc, 0, bool(i % 2), False)
        d, s, K = doc(fc), int(rng.integers(0, S)), 400
        lv = [t["leaf_value"][q] for j in range(T) for t in [d["forest_%d" % s]["tree_%d" % j]] for q in t["leaves"]]
        a0, b0, m = float(rng.uniform(0.3, 6)), float(rng.uniform(0.1, 4)), LeafVarianceModel()
        u = np.array([1 / m.sample_one_iteration(fc, g, a0, b0, s) for _ in range(K)])
        a, b = a0 + len(lv) / 2, b0 + sum(v * v for v in lv) / 2
        zscores(cx, "leaf-variance-draws", [(u.mean() - a / b) / (a**0.5 / b) * K**0.5, (np.log(u).var() / polygamma(1, a) - 1) * (K / (2 + polygamma(3, a) / polygamma(1, a)**2)) ** 0.5],
                "leaf variance draws for a %.3g, b %.3g, %d leaves" % (a0, b0, len(lv)), 8)
        cx.dist("arguments", (what, len(lv)))
    cx.count("calls_" + what.replace(" ", "_"))
    cx.sample(what)


# ---------------------------------------------------------------- refused calls (C28)
@suite
def refuse(cx, rng):
    D = Data(rng, n=int(rng.integers(2, 20)))
    n, p = D.n, D.p
    T = int(rng.integers(1, 4))
    m = Model(D, T, 0.95, 1.0, 1, 0)
    res = Residual(D.y)
    g = RNG(int(rng.integers(0, 1000)))
    w = np.ones(p) / p
    if D.kind == 2:
        m.root(np.zeros(D.nb))
    for k in range(int(rng.integers(0, 4))):
        m.step(res, g, bool(rng.random() < 0.5), 10, 0.5 * D.scale**2, w, D.scale**2)
    S = m.fc.forest_container_cpp.NumSamples()
    sc = np.eye(m.dim) * 0.5
    one = lambda **k: m.fs.sample_one_iteration(*[k.get(a, v) for a, v in dict(fc=m.fc, ds=m.ds, res=res, rng=RNG(1), ft=D.types, grid=10, scale=sc, w=w, s2=1.0, leaf=D.kind, gfr=bool(rng.random() < 0.5), pre=m.pre).items()])

    def other(X=None, B=None, W=None):
        d = Dataset()
        d.add_covariates(D.X if X is None else X)
        if B is not None:
            d.add_basis(B)
        elif D.kind:
            d.add_basis(D.B)
        if W is not None:
            d.add_variance_weights(W)
        return d
    bad = int(rng.choice([-1, S, S + 1, 10**6, -(2**31)])) if S else int(rng.choice([1, 2, -1, 10**6]))
    j = JSONSerializer()
    j.add_forest(m.fc)
    j.add_scalar("a", 1.0)
    nobasis = Dataset()
    nobasis.add_covariates(D.X)
    calls = {
        "sample number": lambda: m.fc.predict_raw_single_forest(m.ds, bad),
        "residual of another length": lambda: one(res=Residual(np.ones(n + int(rng.choice([-1, 1, 5]))))),
        "feature types of another length": lambda: one(ft=np.zeros(p + int(rng.choice([-1, 1])), int), gfr=True),
        "variable weights of another length": lambda: one(w=np.ones(p + 1) / (p + 1)),
        "unknown leaf model": lambda: one(leaf=int(rng.choice([-1, 3, 100]))),
        "leaf model that does not fit": lambda: one(leaf=(D.kind + 1) % 3 if D.kind != 0 or True else 0, ds=nobasis if D.kind == 0 else m.ds) if D.kind != 1 else one(leaf=2, scale=np.eye(2)),
        "data set with other columns": lambda: one(ds=other(X=np.zeros((n, p + 1)))),
        "data set with other rows": lambda: one(ds=other(X=np.zeros((n + 1, p)), B=np.zeros((n + 1, D.nb)) if D.kind else None)),
        "row weights of another length": lambda: one(ds=other(W=np.ones(n + 2))),
        "grid of zero": lambda: one(grid=0, gfr=True),
        "residual adjusted by an unknown forest": lambda: m.fs.update_residual(m.ds, res, m.fc, D.kind > 0, bad, True),
        "sampler with other feature types": lambda: ForestSampler(m.ds, np.zeros(p + 1, int), T, n, 0.9, 1.0, 1),
        "sampler with other rows": lambda: ForestSampler(m.ds, D.types, T, n + 1, 0.9, 1.0, 1),
        "root value of a wrong type": lambda: m.fc.set_root_leaves(0, "1"),
        "root value of a later forest": lambda: m.fc.set_root_leaves(1, 1.0 if m.dim == 1 else np.ones(m.dim)),
        "missing model file": lambda: m.fc.load_from_json_file("/nonexistent/x.json"),
        "unwritable model file": lambda: m.fc.save_to_json_file("/nonexistent/x.json"),
        "unknown forest label": lambda: j.get_forest_container("forest_7"),
        "unknown field": lambda: [j.get_scalar, j.get_boolean, j.get_string, j.get_numeric_vector, j.get_string_vector][int(rng.integers(0, 5))]("zz", None if rng.random() < 0.5 else "sub"),
        "field of another kind": lambda: [j.get_string, j.get_string_vector][int(rng.integers(0, 2))]("a"),
        "missing json file": lambda: j.json_cpp.LoadFile("/nonexistent/x.json"),
        "three-dimensional covariates": lambda: m.ds.add_covariates(np.zeros((n, p, 1))),
        "text covariates": lambda: m.ds.add_covariates(np.array([["a"] * p] * n)),
        "numeric vector that is a list": lambda: j.add_numeric_vector("v", [1.0, 2.0]),
        "string vector that is an array": lambda: j.add_string_vector("v", np.array(["a"])),
    }
    if S:
        calls["root value after sampling"] = lambda: m.fc.set_root_leaves(0, 1.0 if m.dim == 1 else np.ones(m.dim))
        calls["leaf variance of an unknown sample"] = lambda: LeafVarianceModel().sample_one_iteration(m.fc, RNG(1), 1.0, 1.0, bad)
        d = doc(m.fc)
        mx = max([-1] + [t["split_index"][k] for s in range(S) for q in range(T) for t in [d["forest_%d" % s]["tree_%d" % q]] for k in t["internal_nodes"]])
        if mx >= 1:
            calls["covariates lacking a split variable"] = lambda: m.fc.predict(other(X=D.X[:, :mx]))
        if D.kind:
            calls["prediction without a basis"] = lambda: m.fc.predict(nobasis)
            calls["prediction with another basis"] = lambda: m.fc.predict(other(B=np.zeros((n, D.nb + 1))))
            calls["basis update with other rows"] = lambda: m.ds.update_basis(np.zeros((n + 1, D.nb)))
    else:
        if not m.pre:
            calls["root value of another dimension"] = lambda: m.fc.set_root_leaves(0, np.ones(m.dim + 1)) if m.dim > 1 or True else None
    if D.kind == 2:
        calls["leaf scale of another size"] = lambda: one(scale=np.eye(D.nb + int(rng.choice([-1, 1]))))
        calls["sampling without a basis"] = lambda: one(ds=nobasis)
    state = lambda: (doc(m.fc), m.fc.predict(m.ds).tobytes() if S else b"", probe_ssr(res, n), j.json_cpp.DumpJson(), m.ds.dataset_cpp.NumRows())
    before = state()
    for what in rng.permutation(sorted(calls))[:12]:
        ok = refused(calls[what])
        cx.count("refusals")
        cx.dist("refused", (str(what), D.kind, min(S, 2)))
        if not ok:
            cx.fail("C28", what, "accepted: %s (leaf model %d, %d samples, bad number %d)" % (what, D.kind, S, bad))
            return
        if state() != before:
            cx.fail("C28", "state-%s" % what, "refusing %s changed the model or the data (leaf model %d, %d samples)" % (what, D.kind, S))
            return
    m.step(res, g, bool(rng.random() < 0.5), 10, 0.5, w, 1.0)
    if m.fc.forest_container_cpp.NumSamples() != S + 1:
        cx.fail("C28", "usable", "after refusals a sampler call left %d samples, had %d" % (m.fc.forest_container_cpp.NumSamples(), S))
    cx.sample("leaf model %d, %d samples" % (D.kind, S))


if __name__ == "__main__":
    mon.main()
