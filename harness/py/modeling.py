"""Data generation, call recording and independent evaluation for the Python models (BART, BCF)."""
import inspect, json
import numpy as np
import pandas as pd
import p_prep
from mon import forest_raw, tree_leaves
from p_low import doc, probe_ssr
import stochtree.sampler as S
import stochtree.data as DT


class Record:
    """While active, every call of the public sampler classes is logged with its arguments and result."""

    def __init__(self):
        self.events, self.residuals, self.saved = [], [], []

    def __enter__(self):
        def wrap(cls, name, tag):
            f = cls.__dict__.get(name)
            if f is None:
                return
            sig = inspect.signature(f)

            def g(obj, *a, **k):
                try:
                    b = sig.bind(obj, *a, **k)
                    b.apply_defaults()
                    args = {n: (np.array(v) if isinstance(v, np.ndarray) else v) for n, v in list(b.arguments.items())[1:]}
                except TypeError:
                    args = {}
                r = f(obj, *a, **k)
                self.events.append((tag, obj, args, r, len(self.events)))
                return r
            self.saved.append((cls, name, f))
            setattr(cls, name, g)
        wrap(S.ForestSampler, "__init__", "sampler")
        wrap(S.ForestSampler, "sample_one_iteration", "sample")
        wrap(S.GlobalVarianceModel, "sample_one_iteration", "global")
        wrap(S.LeafVarianceModel, "sample_one_iteration", "leaf")
        wrap(S.RNG, "__init__", "rng")
        wrap(DT.Residual, "__init__", "residual")
        wrap(DT.Dataset, "add_covariates", "covariates")
        wrap(DT.Dataset, "add_basis", "basis")
        wrap(DT.Dataset, "update_basis", "basis")
        return self

    def __exit__(self, *a):
        for cls, name, f in self.saved:
            setattr(cls, name, f)

    def of(self, tag, obj=None):
        return [e for e in self.events if e[0] == tag and (obj is None or e[1] is obj)]


def lay(rng, a):
    """The same array in another memory layout."""
    k = rng.integers(0, 6)
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:
        b = np.full(tuple(2 * s + 1 for s in a.shape), 1e9)
        sl = tuple(slice(1, 1 + 2 * s, 2) for s in a.shape)
        b[sl] = a
        return b[sl]
    if k == 3:
        b = a.copy()
        b.setflags(write=False)
        return b
    return a.copy()


class Design:
    """Covariates for training and test, as a table or an array, with their reference encoding."""

    def __init__(self, rng, n, m, simple=False, missing=False, big=""):
        self.frame = rng.random() < 0.5
        self.n, self.m = n, m
        if self.frame:
            while True:
                self.T = p_prep.Table(rng, ["float", "int", "bool", "ordered", "unordered", "string"] + ([] if simple else ["ignored"]), big=big == "wide")
                for c in self.T.cols:
                    c.nan = False
                if any(c.kind != "ignored" for c in self.T.cols):
                    break
            vals = [c.draw(rng, n) for c in self.T.cols]
            self.orders = [sorted(set(v)) if c.kind == "string" else getattr(c, "cats", None) for c, v in zip(self.T.cols, vals)]
            later = [[o[q] for q in rng.integers(0, len(o), m)] if o is not None else c.draw(rng, m) for c, o in zip(self.T.cols, self.orders)]
            self.X, self.Xt = self.T.frame(rng, vals), self.T.frame(rng, later, other=True)
            self.E, self.Et = self.encode(vals), self.encode(later)
            self.types = sum((c.types(o) for c, o in zip(self.T.cols, self.orders)), [])
            self.orig = sum(([k] * len(c.types(o)) for k, (c, o) in enumerate(zip(self.T.cols, self.orders))), [])
            self.p, self.names = len(self.T.cols), list(self.T.names)
        else:
            p = int(rng.integers(10, 40)) if big == "wide" else int(rng.integers(1, 5))
            cols = [rng.normal(size=n + m) * float(rng.choice([1, 1e-3, 1e3])) if rng.random() < 0.5 else rng.integers(0, int(rng.integers(1, 6)), n + m).astype(float) for _ in range(p)]
            A = np.stack(cols, 1)
            if rng.random() < 0.15:    # two values that need not be categories
                A[:, rng.integers(0, p)] = rng.choice(p_prep.PAIRS[int(rng.integers(0, 6))], n + m)
            if missing:                # the rest of the column keeps more than two values
                for c in range(p):
                    if len(np.unique(A[:n, c])) > 3 and rng.random() < 0.7:
                        A[rng.random(n + m) < rng.choice([0.05, 0.2]), c] = np.nan
            self.E, self.Et = A[:n], A[n:]
            self.X, self.Xt = lay(rng, self.E), lay(rng, self.Et)
            if p == 1 and rng.random() < 0.3:
                self.X, self.Xt = self.X[:, 0], self.Xt[:, 0]
            self.types = [p_prep.two_categories(c[:n]) for c in A.T]
            self.orig, self.p, self.names = list(range(p)), p, None
        self.missing = bool(np.isnan(self.E).any())
        first = np.where(np.isnan(self.E[:, 0]), np.nanmean(self.E[:, 0]) if not np.isnan(self.E[:, 0]).all() else 0, self.E[:, 0])
        self.signal = (first - first.mean()) / (first.std() + 1e-12)

    def encode(self, vals):
        b = [c.encode(v, o) for c, v, o in zip(self.T.cols, vals, self.orders)]
        return np.array([sum((q[i] for q in b), []) for i in range(len(vals[0]))], float).reshape(len(vals[0]), -1)


class Untouched:
    """Copies of the caller's objects, compared later."""

    def __init__(self, **objs):
        self.objs = {k: v for k, v in objs.items() if v is not None}
        self.copies = {k: v.copy(deep=True) if isinstance(v, pd.DataFrame) else np.array(v) if isinstance(v, np.ndarray) else list(v) if isinstance(v, list) else v for k, v in self.objs.items()}

    def changed(self):
        out = []
        for k, v in self.objs.items():
            c = self.copies[k]
            same = c.equals(v) and list(c.dtypes) == list(v.dtypes) and list(c.columns) == list(v.columns) and c.index.equals(v.index) if isinstance(v, pd.DataFrame) else np.array_equal(c, v, equal_nan=c.dtype.kind == "f") if isinstance(v, np.ndarray) else c == v
            if not same:
                out.append(k)
        return out


def retained(g, b, m, keep_gfr, keep_burnin):
    """Documented retention: samples kept, as indices into gfr + burn-in + mcmc samples."""
    if m > 0:
        pre = list(range(g)) if keep_gfr else list(range(g, g + b)) if keep_burnin else []
        return pre + list(range(g + b, g + b + m))
    return list(range(g)) if g > 0 else list(range(g, g + b))


def raws(fc, X):
    """n x S x dim sums of routed leaf values of every stored sample, from the forest's document."""
    d = doc(fc)
    return np.stack([forest_raw(d, s, X) for s in range(d["num_samples"])], 1), d


def rules_ok(d, X, msl, allowed):
    """First violation of the leaf-size floor or the allowed split variables in any stored tree, or None."""
    for s in range(d["num_samples"]):
        for j in range(d["num_trees"]):
            t = d["forest_%d" % s]["tree_%d" % j]
            L = tree_leaves(t, X)
            if len(L) > 1 and min(len(r) for _, r in L) < msl:
                return "sample %d tree %d has a leaf of %d rows, the floor is %d" % (s, j, min(len(r) for _, r in L), msl)
            todo = [0]
            while todo:
                k = todo.pop()
                if t["left"][k] >= 0:
                    if t["split_index"][k] not in allowed:
                        return "sample %d tree %d splits on column %d, allowed are %s" % (s, j, t["split_index"][k], sorted(allowed))
                    todo += [t["left"][k], t["right"][k]]
    return None


def num_splits(d):
    return sum(len(d["forest_%d" % s]["tree_%d" % j]["leaves"]) - 1 for s in range(d["num_samples"]) for j in range(d["num_trees"]))
