"""Covariate preprocessing against a row-wise reference (C23)."""
import numpy as np
import pandas as pd
import warnings
import mon
from mon import suite, refused
from stochtree import CovariateTransformer

POOLS = [list("abcdefg"), ["x", "", " ", "long name", "é", "A", "a", "10", "9"], [0, 1, 2, 3, 10], [5, 3, -1, 7], [1.5, 0.5, 2.0], [True, False]]
PAIRS = [(-1, 1), (0, 1), (0.25, 0.75), (1, 3), (2, 1e10), (-2, 0), (1, np.nan), (0, 0.5)]
KINDS = ["float", "int", "bool", "ordered", "unordered", "string", "ignored"]


class Column:
    def __init__(self, rng, kinds, big=False):
        self.kind = str(rng.choice(kinds))
        if big and self.kind in ("ordered", "unordered", "string"):      # many categories, also such that text and number order differ
            m = int(rng.integers(11, 70))
            self.cats = [int(q) for q in rng.permutation(300)[:m]] if self.kind != "string" and rng.random() < 0.4 else [str(rng.choice(["c%d", "c%03d", "%d"])) % q for q in rng.permutation(200)[:m]]
            self.cats = list(dict.fromkeys(self.cats))
            if not isinstance(self.cats[0], str):
                self.cats.sort()
        elif self.kind in ("ordered", "unordered"):
            pool = POOLS[int(rng.integers(0, len(POOLS)))]
            m = int(rng.integers(1, min(len(pool), 6) + 1))
            self.cats = [pool[k] for k in rng.permutation(len(pool))[:m]]       # any order, possibly with unused ones
            if not isinstance(pool[0], str):                                    # (unsorted numeric categories are refused by the encoders)
                self.cats.sort()
        elif self.kind == "string":
            pool = POOLS[int(rng.integers(0, 2))]
            self.cats = [pool[k] for k in rng.permutation(len(pool))[:int(rng.integers(1, 6))]]
        elif self.kind == "float":
            self.dtype = str(rng.choice(["float64", "float64", "float32", "Float64"]))
        elif self.kind == "int":
            self.dtype = str(rng.choice(["int64", "int8", "uint8", "int32", "Int64", "uint16"]))
        elif self.kind == "bool":
            self.dtype = str(rng.choice(["bool", "boolean"]))
        else:
            self.how = str(rng.choice(["object", "datetime", "timedelta", "period", "interval", "sparse"]))
        self.nan = self.kind == "float" and rng.random() < 0.2
        self.scale = float(rng.choice([1.0, 1e-6, 1e6]))

    def draw(self, rng, n, all_cats=False):
        if self.kind in ("ordered", "unordered", "string"):
            k = rng.integers(0, len(self.cats), n)
            if all_cats and n:
                k[rng.integers(0, n)] = 0
            return [self.cats[q] for q in k]
        if self.kind == "float":
            v = rng.normal(size=n) * self.scale if rng.random() < 0.7 else rng.integers(0, 3, n).astype(float)
            if self.nan:
                v[rng.random(n) < 0.2] = np.nan
            return list(np.float32(v).astype(float) if self.dtype == "float32" else v)
        if self.kind == "int":
            return [int(v) for v in (rng.integers(0, 100, n) if rng.random() < 0.7 else rng.integers(0, 2, n))]
        if self.kind == "bool":
            return [bool(v) for v in rng.integers(0, 2, n)]
        return [int(v) for v in rng.integers(0, 9, n)]

    def series(self, rng, vals, other=False):
        """A pandas column of the values; `other`: as later data, possibly another representation of the same values."""
        if self.kind in ("ordered", "unordered"):
            cats = list(self.cats)
            if other:
                k = rng.integers(0, 3)
                if k == 0:
                    cats = [cats[q] for q in rng.permutation(len(cats))]
                elif k == 1 and vals:
                    cats = [c for c in cats if c in vals]
            return pd.Series(pd.Categorical(vals, categories=cats, ordered=self.kind == "ordered"))
        if self.kind == "string":
            return pd.Series(vals, dtype="string")
        if self.kind == "float":
            return pd.Series([pd.NA if self.dtype == "Float64" and v != v else v for v in vals], dtype=self.dtype) if not (self.dtype == "Float64" and self.nan) else pd.Series(vals, dtype="float64")
        if self.kind in ("int", "bool"):
            return pd.Series(vals, dtype=self.dtype)
        if self.how == "object":
            return pd.Series([str(v) for v in vals], dtype=object)
        if self.how == "datetime":
            return pd.Series(pd.to_datetime(vals, unit="D"))
        if self.how == "timedelta":
            return pd.Series(pd.to_timedelta(vals, unit="D"))
        if self.how == "period":
            return pd.Series([pd.Period(2000 + v, freq="Y") for v in vals], dtype="period[Y-DEC]")
        if self.how == "interval":
            return pd.Series(pd.arrays.IntervalArray([pd.Interval(v, v + 1) for v in vals], dtype="interval[int64, right]"))
        return pd.Series(pd.arrays.SparseArray([float(v) for v in vals]))

    def encode(self, vals, order):
        """The documented encoding of each value: a list of rows."""
        if self.kind == "ignored":
            return [[] for _ in vals]
        if self.kind == "ordered":
            return [[float(self.cats.index(v))] for v in vals]
        if self.kind in ("unordered", "string"):
            return [[1.0 if v == c else 0.0 for c in order] for v in vals]
        return [[float(v)] for v in vals]

    def types(self, order):
        return [] if self.kind == "ignored" else [1] * len(order) if self.kind in ("unordered", "string") else [1] if self.kind in ("ordered", "bool") else [0]


class Table:
    def __init__(self, rng, kinds=KINDS, big=False):
        self.cols = [Column(rng, kinds, big) for _ in range(int(rng.integers(1, 18 if big else 6)))]
        self.names = ["v%d" % k for k in range(len(self.cols))] if len(self.cols) > 6 or rng.random() < 0.8 else [str(s) for s in rng.permutation(["b", "a", "c c", "", "0", "é"])[:len(self.cols)]]

    def frame(self, rng, vals, other=False):
        d = pd.DataFrame({k: c.series(rng, v, other) for k, (c, v) in enumerate(zip(self.cols, vals))})
        d.columns = self.names
        if rng.random() < 0.4 and len(d):
            d.index = [str(k) for k in rng.permutation(len(d))] if rng.random() < 0.5 else rng.integers(0, 3, len(d))
        return d


def two_categories(v):
    """An array column is categorical when it holds two categories (non-negative whole numbers), numeric otherwise."""
    u = set(np.asarray(v, float).tolist())
    return int(len(u) == 2 and all(0 <= x <= 2**32 - 1 and x == np.floor(x) for x in u))


def equal(a, b):
    return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))


@suite
def prep(cx, rng):
    if rng.random() < 0.25:
        return arrays(cx, rng)
    if cx.case % 40 == 20:
        cx.count("large_cases")
    ct = CovariateTransformer()
    note = []
    for fit in range(1 + int(rng.random() < 0.4)):          # a refit depends on the new data only
        big = cx.case % 40 == 20
        T = Table(rng, big=big)
        n = int(rng.integers(100, 1000)) if big else int(rng.integers(1, 25))
        vals = [c.draw(rng, n) for c in T.cols]
        df = T.frame(rng, vals)
        orders = [sorted(set(v)) if c.kind == "string" else getattr(c, "cats", None) for c, v in zip(T.cols, vals)]
        note = ["%s%s" % (c.kind, "" if o is None else len(o)) for c, o in zip(T.cols, orders)]
        copy = df.copy(deep=True)
        if rng.random() < 0.5:
            A = ct.fit_transform(df)
        else:
            ct.fit(df)
            A = ct.transform(df)
        if not copy.equals(df) or list(copy.dtypes) != list(df.dtypes):
            cx.fail("C23", "caller", "preprocessing changed the caller's table (%s)" % note)
            return
    p = sum(len(c.types(o)) for c, o in zip(T.cols, orders))
    seen = [list(o) if o is not None else None for o in orders]

    def reference(rows_vals):
        blocks = [c.encode(v, o) for c, v, o in zip(T.cols, rows_vals, orders)]
        m = len(rows_vals[0])
        return np.array([sum((b[i] for b in blocks), []) for i in range(m)], float).reshape(m, p)

    def described(when):
        types = list(ct._processed_feature_types)
        back = list(ct.fetch_original_feature_indices())
        wt = sum((c.types(o) for c, o in zip(T.cols, orders)), [])
        wb = sum(([k] * len(c.types(o)) for k, (c, o) in enumerate(zip(T.cols, orders))), [])
        if [int(t) for t in types] != wt:
            cx.fail("C23", "types", "%s: reported types %s, the columns are %s (%s)" % (when, types, wt, note))
            return False
        if [int(t) for t in back] != wb:
            cx.fail("C23", "mapping", "%s: reported original variables %s, the columns come from %s (%s)" % (when, back, wb, note))
            return False
        return True

    def check(got, want, when):
        got = np.asarray(got, float)
        cx.count("rows", want.shape[0])
        cx.count("values", want.size)
        if got.shape != want.shape or not equal(got, want):
            bad = "shape %s, expected %s" % (got.shape, want.shape) if got.shape != want.shape else "row %d is %s, expected %s" % ((lambda i: (i, got[i], want[i]))(int(np.argmax(~np.all((got == want) | (np.isnan(got) & np.isnan(want)), axis=1)))))
            cx.fail("C23", "encoding", "%s: %s (%s)" % (when, bad, note))
            return False
        return described(when)

    if not check(A, reference(vals), "training data"):
        return
    cx.dist("tables", (note, n, fit))
    for rep in range(int(rng.integers(1, 5))):
        k = int(rng.integers(0, 4))
        if k == 0:                                       # some of the training rows, in any order, repeated
            idx = rng.integers(0, n, int(rng.integers(1, 2 * n + 1)))
            later = [[v[i] for i in idx] for v in vals]
            frame = df.iloc[idx]
            when = "rows %s of the training data" % list(idx)[:8]
        else:
            m = int(rng.integers(1, 12)) if k < 3 else 1
            later = [[o[q] for q in rng.integers(0, len(o), m)] if o is not None else c.draw(rng, m) for c, o in zip(T.cols, orders)]
            frame = T.frame(rng, later, other=True)
            when = "%d new rows" % m
        copy = frame.copy(deep=True)
        B = ct.transform(frame)
        if not check(B, reference(later), when):
            return
        if not copy.equals(frame):
            cx.fail("C23", "caller", "transforming changed the caller's table (%s)" % note)
            return
        # a row's encoding does not depend on its company
        i = int(rng.integers(0, len(frame)))
        if not check(ct.transform(frame.iloc[[i]]), reference([[v[i]] for v in later]), "row %d of %s alone" % (i, when)):
            return
    # a category outside the training categories, or a missing one, is refused
    cat = [k for k, c in enumerate(T.cols) if orders[k] is not None]
    if cat:
        k = int(rng.choice(cat))
        m = int(rng.integers(1, 5))
        later = [[o[q] for q in rng.integers(0, len(o), m)] if o is not None else c.draw(rng, m) for c, o in zip(T.cols, orders)]
        c = T.cols[k]
        frame = T.frame(rng, later)
        pos = int(rng.integers(0, m))
        if rng.random() < 0.6:
            new = "unseen" if isinstance(orders[k][0], str) else 999
            col = list(later[k])
            col[pos] = new
            s = pd.Series(col, dtype="string") if c.kind == "string" else pd.Series(pd.Categorical(col, categories=list(orders[k]) + [new], ordered=c.kind == "ordered"))
            what = "an unseen category"
        else:
            col = list(later[k])
            col[pos] = pd.NA if c.kind == "string" else None
            s = pd.Series(col, dtype="string") if c.kind == "string" else pd.Series(pd.Categorical(col, categories=list(orders[k]), ordered=c.kind == "ordered"))
            what = "a missing category"
        s.index = frame.index
        frame = pd.concat([s if q == k else frame.iloc[:, q] for q in range(len(T.cols))], axis=1)
        frame.columns = T.names
        try:
            B = ct.transform(frame)
        except ValueError:
            cx.count("unseen_refused")
        else:
            cx.fail("C23", "unseen", "%s in a %s column was given the encoding %s (%s)" % (what, c.kind, B[pos], note))
            return
    # other shapes are refused, and later use is not affected
    if not refused(lambda: ct.transform(df.iloc[:, :-1])) or not refused(lambda: ct.transform(pd.concat([df, df.iloc[:, :1]], axis=1))):
        cx.fail("C23", "width", "a table with another number of columns was transformed (%s)" % note)
        return
    if any(c.kind in ("ordered", "unordered", "string", "ignored") for c in T.cols) and not refused(lambda: ct.transform(np.zeros((3, len(T.cols))))):
        cx.fail("C23", "array-for-table", "an array was transformed with the encoding of a table that has categories (%s)" % note)
        return
    check(ct.transform(df), reference(vals), "training data, again")
    cx.sample("%d rows: %s" % (n, " ".join(note)))


def arrays(cx, rng):
    ct = CovariateTransformer()
    if rng.random() < 0.3:
        ct.fit(Table(rng).frame(rng, [[]]) if False else np.zeros((2, 7)))
    n, p = (int(rng.integers(1, 30)), int(rng.integers(1, 6))) if cx.case % 40 != 20 else (int(rng.integers(100, 3000)), int(rng.integers(1, 40)))
    dtype = str(rng.choice(["float64", "float64", "float32", "int64", "uint8", "bool"]))
    m = int(rng.integers(1, 5))
    X = np.stack([(rng.integers(0, int(rng.integers(1, 4)), n) if rng.random() < 0.6 else rng.normal(size=n) * 20) for _ in range(p)], 1)
    if dtype.startswith("float") and rng.random() < 0.3:
        X[:, rng.integers(0, p)] = rng.choice(PAIRS[int(rng.integers(0, len(PAIRS)))], n)
    X = X.astype(dtype)
    one = p == 1 and rng.random() < 0.5
    given = X[:, 0] if one else (np.asfortranarray(X) if rng.random() < 0.3 else X)
    copy = np.array(given)
    A = np.asarray(ct.fit_transform(given))
    types, back = list(ct._processed_feature_types), list(ct.fetch_original_feature_indices())
    want = [two_categories(X[:, j]) for j in range(p)]
    if types != want:
        cx.fail("C23", "types", "array columns with %s distinct values were typed %s" % ([len(set(X[:, j].tolist())) for j in range(p)], types))
    if [int(b) for b in back] != list(range(p)):
        cx.fail("C23", "mapping", "array columns mapped to %s" % back)
    Y = X[rng.integers(0, n, m)]
    B = np.asarray(ct.transform(Y[:, 0] if one else Y))
    if A.shape != X.shape or not equal(A.astype(float), X.astype(float)) or B.shape != Y.shape or not equal(B.astype(float), Y.astype(float)) or not equal(copy.astype(float), np.asarray(given, float)):
        cx.fail("C23", "encoding", "array columns were changed by preprocessing (%s)" % dtype)
    if list(ct._processed_feature_types) != want or [int(b) for b in ct.fetch_original_feature_indices()] != list(range(p)):
        cx.fail("C23", "types", "transforming later rows changed the column descriptions")
    if not refused(lambda: ct.transform(np.zeros((2, p + 1)))):
        cx.fail("C23", "width", "an array with another number of columns was transformed")
    cx.count("rows", n + m)
    cx.count("values", (n + m) * p)
    cx.dist("tables", ("array", dtype, n, want))


if __name__ == "__main__":
    mon.main()
