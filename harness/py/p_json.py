"""JSON stores against a dictionary of what was put in (C16)."""
import json, os
import numpy as np
import mon
from mon import suite, close, refused
import p_low
from stochtree import JSONSerializer, ForestContainer, Residual, RNG

KINDS = ["scalar", "boolean", "string", "numeric_vector", "string_vector"]
NAMES = ["a", "b", "A", "field", "x_1", "forest_0", "num", "num_trees", "f/g", "~0", "a.b", "", " ", "q\"uote", "back\\slash", "é", "日本語", "new\nline", "tab\t", "0", "-", "null", "😀", "outcome scale", "a/b/c"]
TEXTS = ["", "text", "é", "日本語", "a\nb", "\t", "\"", "\\", "/", "\x01", "\x7f", "😀", "null", "0", "[1]", "{\"a\":1}", "true", " lead", "trail ", "a" * 300]


def number(rng):
    k = rng.integers(0, 8)
    if k < 3:
        return float(rng.normal() * 10.0 ** rng.integers(-12, 13))
    if k == 3:
        return float(rng.integers(-10, 11))
    if k == 4:
        return float(rng.choice([0.0, -0.0, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 0.1, 1 / 3, 1e22, 1e23, 9007199254740993.0, 123456789012345680.0, 2.0**63, -2.0**63, 2.0**64]))
    if k == 5:
        while True:
            v = float(np.frombuffer(rng.bytes(8), "<f8")[0])
            if np.isfinite(v):
                return v
    return float(np.round(rng.normal() * 100, 2))


def value(rng, kind):
    if kind == "scalar":
        return number(rng)
    if kind == "boolean":
        return bool(rng.integers(0, 2))
    if kind == "string":
        return str(rng.choice(TEXTS))
    m = int(rng.choice([0, 1, 1, 2, 3, 5, 17, 200], p=[.05, .15, .1, .2, .2, .2, .08, .02]))
    if kind == "numeric_vector":
        return np.array([number(rng) for _ in range(m)])
    return [str(rng.choice(TEXTS)) for _ in range(m)]


def same(kind, got, want):
    if kind == "numeric_vector":
        got = np.asarray(got)
        return got.ndim == 1 and got.dtype.kind == "f" and got.size == want.size and bool(np.all(got == want)) and bool(np.all(np.signbit(got) == np.signbit(want)))
    if kind == "string_vector":
        return list(got) == want
    return type(got) is type(want) and got == want


def forest(rng):
    """A small sampled forest."""
    D = p_low.Data(rng, n=int(rng.integers(2, 15)))
    m = p_low.Model(D, int(rng.integers(1, 4)), 0.95, 0.5, 1, 0)
    m.root(rng.normal(size=D.nb) if D.kind == 2 else float(rng.normal()))
    res, g = Residual(D.y), RNG(int(rng.integers(0, 2**31 - 1)))
    m.fs.update_residual(m.ds, res, m.fc, D.kind > 0, 0, False)
    for _ in range(int(rng.integers(1, 4))):
        m.step(res, g, bool(rng.random() < 0.5), 10, D.scale**2, np.ones(D.p) / D.p, D.scale**2)
    return D, m


def put(j, kind, name, v, folder):
    getattr(j, "add_" + kind)(name, v, folder) if folder is not None else getattr(j, "add_" + kind)(name, v)


def get(j, kind, name, folder):
    return getattr(j, "get_" + kind)(name, folder) if folder is not None else getattr(j, "get_" + kind)(name)


def reload_(j, how):
    """The same store through a file or through its text."""
    fn = os.path.join(os.environ.get("STVERIF_TMP", "/tmp"), "store%d.json" % os.getpid())
    if how == "file":
        j.json_cpp.SaveFile(fn)
    else:
        with open(fn, "wb") as f:
            f.write(j.json_cpp.DumpJson().encode())
    k = JSONSerializer()
    if how == "used":
        k.add_scalar("leftover", 1.0)
    k.json_cpp.LoadFile(fn)
    os.unlink(fn)
    return k


@suite
def store(cx, rng):
    j = JSONSerializer()
    model, forests = {}, []           # (folder or None, name) -> (kind, value); forests in order
    names = [str(s) for s in rng.permutation(NAMES)[:int(rng.integers(2, 7))]]
    folders = [s for s in [str(s) for s in rng.permutation(NAMES)[:int(rng.integers(0, 4))]] if s not in names and s != "forest_0"]

    def where(f, n):
        return "entry %r%s" % (n, "" if f is None else " in folder %r" % f)

    def verify(j, when, note):
        for (f, n), (kind, v) in model.items():
            g = get(j, kind, n, f)
            cx.count("values_read")
            if not same(kind, g, v):
                cx.fail("C16", "value-%s" % kind, "%s: %s holds %r, stored was %r" % (when, where(f, n), g if np.size(g) < 20 else "(long)", v if np.size(v) < 20 else "(long)"))
                return False
        for n in NAMES:
            if bool(j.json_cpp.ContainsField(n)) != ((None, n) in model or any(f == n for f, _ in model)):
                cx.fail("C16", "presence", "%s: presence of field %r reported as %s" % (when, n, j.json_cpp.ContainsField(n)))
                return False
            for f in folders:
                if bool(j.json_cpp.ContainsFieldSubfolder(f, n)) != ((f, n) in model):
                    cx.fail("C16", "presence", "%s: presence of %s reported as %s" % (when, where(f, n), j.json_cpp.ContainsFieldSubfolder(f, n)))
                    return False
            cx.count("presence_queries", 1 + len(folders))
        for lab, (D, m, text, P) in forests:
            fc = j.get_forest_container(lab)
            if p_low.doc(fc) != text:
                cx.fail("C16", "forest", "%s: forest %s comes back different (of %d forests)" % (when, lab, len(forests)))
                return False
            if P is not None and not np.array_equal(fc.predict(m.ds), P):
                cx.fail("C16", "forest", "%s: forest %s predicts differently" % (when, lab))
                return False
            cx.count("forests_read")
        return True

    acts = []
    big = cx.case % 40 == 20
    if big:
        cx.count("large_cases")
    for step in range(int(rng.integers(1, 14)) if not big else int(rng.integers(40, 120))):
        a = rng.random()
        if a < (0.3 if big else 0.12) and len(forests) < (25 if big else 12):
            D, m = forest(rng)
            if not j.forest_labels and forests:      # loaded store: labels go on from where they were
                before = len(forests)
            text = p_low.doc(m.fc)
            j.add_forest(m.fc)
            P = m.fc.predict(m.ds) if m.fc.forest_container_cpp.NumSamples() else None
            lab = "forest_%d" % len(forests)
            if j.forest_labels[-1] != lab:
                cx.fail("C16", "forest-label", "forest number %d got the label %s" % (len(forests), j.forest_labels[-1]))
                return
            if rng.random() < 0.3 and P is not None:   # the stored forest does not follow the live one
                m.step(Residual(D.y), RNG(3), True, 10, 1.0, np.ones(D.p) / D.p, 1.0)
            forests.append((lab, (D, m, text, P)))
            acts.append("forest")
        elif a < 0.75:
            kind = str(rng.choice(KINDS))
            f = None if not folders or rng.random() < 0.5 else str(rng.choice(folders))
            n = str(rng.choice(names))
            if (f, n) in model and rng.random() < 0.5:
                kind = model[(f, n)][0]
            v = value(rng, kind)
            given = v
            if kind == "numeric_vector":
                k = rng.integers(0, 6)
                if k == 0 and v.size and np.all(v == np.trunc(v)) and np.all(np.abs(v) < 2**31):
                    v = v + 0.0
                    given = v.astype(str(rng.choice(["int64", "int32"])))
                elif k == 1 and v.size > 1 and v.size % 2 == 0 and v.size < 100:
                    given = v.reshape(2, -1) if rng.random() < 0.5 else np.asfortranarray(v.reshape(-1, 2))
                elif k == 2:
                    given = v[:, None] if rng.random() < 0.5 else v[None, :]
                elif k < 5 and v.size and np.all(np.abs(v) < 1e300):
                    given = p_low.layout(rng, v)
                copy = np.array(given)
            elif kind == "scalar" and rng.random() < 0.3:
                given = np.float64(v) if v != np.trunc(v) or abs(v) > 2**31 else int(v)
                v = float(given)
            put(j, kind, n, given, f)
            if kind == "numeric_vector":
                if not np.array_equal(copy, given):
                    cx.fail("C16", "caller", "storing a vector changed the caller's array")
                    return
                if given.flags.writeable and given is not v:
                    v = np.array(v)
                    given[...] = 77
                elif given is v:
                    v = np.array(v)
                    given[...] = 77
            model[(f, n)] = (kind, v)
            cx.dist("entries", (kind, f, n, np.size(v), acts[-3:]))
            acts.append(kind)
        elif a < 0.87:
            how = str(rng.choice(["file", "text", "used"]))
            j = reload_(j, how)
            acts.append("reload-" + how)
            cx.count("reloads")
        else:                                          # asking for what is not there
            kind = str(rng.choice(KINDS))
            f = None if rng.random() < 0.5 else str(rng.choice(folders + ["nofolder"]))
            n = str(rng.choice(NAMES))
            before = j.json_cpp.DumpJson()
            if rng.random() < 0.2:
                lab = str(rng.choice(["forest_%d" % (len(forests) + int(rng.integers(0, 3))), "", "forest", "forest_-1"]))
                if not refused(lambda: j.get_forest_container(lab)):
                    cx.fail("C16", "missing-forest", "asking for forest %r of %d gave an answer" % (lab, len(forests)))
                    return
            elif (f, n) not in model and not (f is None and any(g == n for g, _ in model)):
                if not refused(lambda: get(j, kind, n, f)):
                    cx.fail("C16", "missing", "asking for %s, never stored, gave %r" % (where(f, n), get(j, kind, n, f)))
                    return
            if j.json_cpp.DumpJson() != before:
                cx.fail("C16", "query-changes", "asking for %s changed the store" % where(f, n))
                return
            cx.count("missing_queries")
            acts.append("missing")
        if rng.random() < (0.05 if big else 0.4) or step == 0:
            if not verify(j, "after %s" % " ".join(acts[-6:]), acts):
                return
    if not verify(j, "at the end", acts):
        return
    # the text is a plain JSON document with the same content
    d = json.loads(j.json_cpp.DumpJson())
    for (f, n), (kind, v) in model.items():
        e = d[n] if f is None else d[f][n]
        if kind == "numeric_vector":
            ok = [float(x) for x in e] == [float(x) for x in v]
        else:
            ok = e == v
        if not ok:
            cx.fail("C16", "document", "the document holds %r for %s" % (e, where(f, n)))
            return
    if not verify(reload_(j, str(rng.choice(["file", "text"]))), "after a round trip", acts):
        return
    cx.sample("%d entries, %d forests: %s" % (len(model), len(forests), " ".join(acts)))


if __name__ == "__main__":
    mon.main()
