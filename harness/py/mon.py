"""Shared monitor plumbing for the Python programs: cases, counters, distinct states, reports (same line protocol as mon.h)."""
import hashlib, sys, traceback, warnings
import numpy as np


class Ctx:
    def __init__(self, suite, seed):
        self.suite, self.seed, self.case = suite, seed, 0
        self.counters, self.sets, self.nviol, self.nsamples = {}, {}, 0, 0

    def count(self, k, v=1):
        self.counters[k] = self.counters.get(k, 0) + v

    def dist(self, k, v):
        self.sets.setdefault(k, set()).add(hashlib.blake2b(repr(v).encode(), digest_size=5).hexdigest())

    def sample(self, s):
        if self.nsamples < 2:
            print("S\t" + str(s).replace("\n", " ").replace("\t", " "))
        self.nsamples += 1

    def fail(self, prop, key, msg):
        self.nviol += 1
        if self.nviol <= 20:
            print("V\t%s\t%s\t%s:%d:%d\t%s" % (prop, key.replace("\t", " "), self.suite, self.seed, self.case, str(msg).replace("\n", " ").replace("\t", " ")[:1200]))
            sys.stdout.flush()


SUITES = {}


def suite(f):
    SUITES[f.__name__] = f
    return f


def main():
    name, seed, first, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    warnings.simplefilter("ignore")
    cx = Ctx(name, seed)
    for k in range(first, first + n):
        print("B\t%d" % k)
        sys.stdout.flush()
        cx.case = k
        rng = np.random.default_rng([seed, k, sum(map(ord, name))])
        np.random.seed(seed * 1000003 % 2**31 + k)
        try:
            SUITES[name](cx, rng)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            inside = [f for f in tb if "/stochtree/" in f.filename]
            f = (inside or tb)[-1]
            cx.fail("*", "exception-%s-%s" % (type(e).__name__, f.name), "%s: %s at %s:%s" % (type(e).__name__, e, f.filename.rsplit("/", 1)[-1], f.lineno))
        cx.count("cases")
    for k, v in cx.counters.items():
        print("C\t%s\t%.17g" % (k, v))
    for k, v in cx.sets.items():
        print("D\t%s\t%d" % (k, len(v)))
        print("H\t%s\t%s" % (k, "\t".join(sorted(v))))
    print("E")
    sys.stdout.flush()


def refused(call):
    """True if the call raised an exception (and nothing worse)."""
    try:
        call()
    except Exception:
        return True
    return False


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.maximum(np.abs(a), np.abs(b))) + 0.0))


# ---------------------------------------------------------------- an independent reading of forest documents
def tree_leaves(t, X):
    """(leaf, rows reaching it) pairs of a stored tree: a plain walk over the documented arrays; missing values go left."""
    todo, out = [(0, np.arange(X.shape[0]))], []
    while todo:
        k, rows = todo.pop()
        if t["left"][k] < 0:
            out.append((k, rows))
            continue
        v = X[rows, t["split_index"][k]]
        with np.errstate(invalid="ignore"):
            if t["node_type"][k] == 2:   # categorical
                c = t["category_list"][t["category_list_begin"][k]:t["category_list_end"][k]]
                go = (v >= 0) & (v < 2.0**32) & np.isin(np.trunc(v), c)
            else:
                go = v <= t["threshold"][k]
        go = go | np.isnan(v)
        todo += [(t["left"][k], rows[go]), (t["right"][k], rows[~go])]
    return out


def leaf_values(t, k, dim):
    if dim == 1:
        return np.array([t["leaf_value"][k]])
    return np.array(t["leaf_vector"][t["leaf_vector_begin"][k]:t["leaf_vector_end"][k]])


def forest_raw(doc, s, X, T=None):
    """n x dim sums over trees of the leaf values of sample s."""
    f = doc["forest_%d" % s]
    dim = doc["output_dimension"]
    out = np.zeros((X.shape[0], dim))
    for j in range(doc["num_trees"]):
        t = f["tree_%d" % j]
        for k, rows in tree_leaves(t, X):
            out[rows] += leaf_values(t, k, dim)
    return out
