"""C21: normalize_hdf5 standardises a file once, returns and records its parameters, applies given parameters to every row."""
import os
import numpy as np
from core import Sub, Violation, asarray, close, same, require, refused, scratch
import gen
from gen import st

KINDS = ("normal", "normal", "shift", "const", "const0", "small", "big", "binary", "near")
HOW = ("make", "make", "makezip", "csv") + gen.STORAGE


@st.composite
def cases(draw):
    return {"n": draw(st.one_of(st.integers(1, 9), st.integers(3, 30), st.integers(3, 200), gen.rows(3, 30, every=2))), "n2": draw(st.integers(1, 30)),
            "cols": draw(st.lists(st.sampled_from(KINDS), min_size=1, max_size=draw(st.sampled_from([6, 6, 6, 20])))), "s": draw(gen.seeds()),
            "fdt": draw(st.sampled_from(["float64", "float64", "float32"])), "how": draw(st.sampled_from(HOW)), "how2": draw(st.sampled_from(HOW[:3] + gen.STORAGE)),
            "b": [draw(st.one_of(st.none(), st.integers(1, 10), st.integers(1, 250), st.integers(200, 2500))) for _ in range(4)],
            "seq": draw(st.sampled_from(["array", "array", "list", "tuple", "array32", "readonly", "returned"])), "zero": draw(st.booleans()),
            "ops": draw(st.lists(st.sampled_from(["again", "again", "given", "given", "remake", "second", "wrong"]), max_size=5))}


def data(case, off=0, n=None):
    r = np.random.RandomState(case["s"] + off)
    q = np.random.RandomState(case["s"] + 77)     # column parameters are the same in both files
    n = case["n"] if n is None else n
    cols = []
    for k in case["cols"]:
        v = r.randn(n)
        a, s = q.randn(), 10**q.uniform(-1, 1)
        if k == "shift":
            v = v * s + 10**q.uniform(0, 3.5) * s * np.sign(a)
        elif k == "const":
            v = np.full(n, a)
        elif k == "const0":
            v = np.zeros(n)
        elif k == "small":
            v = v * 1e-8
        elif k == "big":
            v = v * 1e8 + 1e9 * a
        elif k == "binary":
            v = (v > 0).astype(float)
        elif k == "near":
            v = a * 1000 + v
        cols.append(v)
    return np.array(cols).T.astype(case["fdt"])


def store(path, X, how):
    from hpelm.modules import make_hdf5
    if how == "make":
        make_hdf5(X, path, dtype=X.dtype)
    elif how == "makezip":
        make_hdf5(X, path, dtype=X.dtype, comp_level=3)
    elif how == "csv":
        np.savetxt(path + ".csv", X, delimiter=",")
        make_hdf5(path + ".csv", path, dtype=X.dtype, delimiter=",")
    else:
        gen.write_h5(path, X, how)


def attrs(path):
    import tables
    with tables.open_file(path, "r") as h5:
        node = [v for v in h5.walk_nodes("/") if not isinstance(v, tables.Group)][0]
        g = lambda k: None if k not in node.attrs or node.attrs[k] is None else np.array(node.attrs[k])
        return g("mean"), g("std")


def kw(b):
    return {} if b is None else {"batch": b}


def std_check(key, X, Y, ret):
    """Y must be X standardised; ret = (mean, std) as returned."""
    d = X.shape[1]
    X = X.astype(np.float64)
    eps = 2.3e-16 * max(1.0, len(X) / 50.0)     # rows are summed one after another
    eout = 2.3e-16 if Y.dtype == np.float64 else 1.2e-7
    mean, std = asarray(ret[0], key + "-mean", (d,)), asarray(ret[1], key + "-std", (d,))
    m = np.array([np.mean(X[:, j]) for j in range(d)])
    s = np.array([np.sqrt(np.mean((X[:, j] - m[j])**2)) for j in range(d)])
    mx = np.max(np.abs(X), 0) + 1e-300
    const = np.all(X == X[:1], axis=0)
    Y = asarray(Y, key, X.shape)
    close(key + "-mean", mean, m, 50 * eps, scale=mx)
    for j in range(d):
        if const[j]:
            require(np.all(np.abs(Y[:, j]) < 1e-4), key + "-constant", "column %d of %r became %r" % (j, X[0, j], Y[0, j]))
            continue
        rel = 50 * eps * (mx[j] / s[j])**2
        if rel > 1e-2:
            continue
        close(key + "-std", std[j], s[j], rel, scale=s[j])
        z = (X[:, j] - m[j]) / s[j]
        close(key, Y[:, j], z, 1, scale=np.abs(z) * (rel + 4 * eout) + 100 * eps * mx[j] / s[j] + 1e-30, note="column %d" % j)
        t = rel + 4 * eout * (1 + np.max(np.abs(z))) + 100 * eps * mx[j] / s[j]
        close(key + "-zero-mean", np.mean(Y[:, j]), 0, 10 * t + 1e-9)
        close(key + "-unit-std", np.std(Y[:, j]), 1, 10 * t + 1e-9)


def chk(case):
    from hpelm.modules import normalize_hdf5
    d = len(case["cols"])
    X, X2 = data(case), data(case, 1, case["n2"])
    eout = 2.3e-16 if case["fdt"] == "float64" else 1.2e-7
    tags = set(case["cols"])
    with scratch(case["s"]) as dr:
        p, p2, p3 = (os.path.join(dr, q) for q in ("a.h5", "b.h5", "c.h5"))
        store(p, X, case["how"])
        store(p3, X, case["how2"])
        ret = normalize_hdf5(p, **kw(case["b"][0]))
        Y = gen.read_h5(p)
        std_check("normalise", X, Y, ret)
        mean, std = (np.array(v, dtype=float) for v in ret)
        a = attrs(p)
        require(a[0] is not None and a[1] is not None, "recorded", "parameters are not in the file")
        same("recorded", a[0], mean)
        same("recorded", a[1], std)
        # another batch size and storage: the same result
        ret3 = normalize_hdf5(p3, **kw(case["b"][1]))
        std_check("batch", X, gen.read_h5(p3), ret3)
        for k, op in enumerate(case["ops"]):
            tags.add(op)
            b = kw(case["b"][(k + 1) % 4])
            if op == "again":
                r2 = normalize_hdf5(p, **b)
                same("again-changes", gen.read_h5(p), Y)
                same("again-mean", r2[0], mean)
                same("again-std", r2[1], std)
            elif op in ("given", "second"):
                store(p2, X2, case["how2"])
                gm, gs = np.array(mean), np.array(std)
                if op == "given":
                    r = np.random.RandomState(case["s"] + k)
                    gm, gs = r.randn(d) * 3, 0.1 + r.rand(d) * 10
                    if case["zero"]:
                        gs[r.randint(d)] = 0
                seq = case["seq"]
                if seq == "array32":
                    gm, gs = gm.astype(np.float32), gs.astype(np.float32)
                ga, gb = (v.tolist() if seq == "list" else tuple(v.tolist()) if seq == "tuple" else v for v in (gm.copy(), gs.copy()))
                if seq == "readonly":
                    ga.flags.writeable = gb.flags.writeable = False
                if seq == "returned" and op == "second":
                    ga, gb = ret
                for rep in range(2 if case["zero"] else 1):
                    Xa = gen.read_h5(p2).astype(np.float64)
                    r2 = normalize_hdf5(p2, ga, gb, **b) if k % 2 else normalize_hdf5(p2, mean=ga, std=gb, **b)
                    eff = np.where(np.asarray(gs, dtype=float) == 0, 1, np.asarray(gs, dtype=float))
                    want = (Xa - np.asarray(gm, dtype=float)) / eff
                    sc = (np.abs(Xa) + np.abs(gm)) / eff + 1e-300
                    close("given", gen.read_h5(p2), want, 4 * eout, scale=sc if case["fdt"] == "float64" else np.abs(want) + 1e-8 * sc)
                    same("given-mean-modified", np.asarray(ga, dtype=gm.dtype), gm)
                    same("given-std-modified", np.asarray(gb, dtype=gs.dtype), gs)
                    close("given-returned", r2[0], gm, 1e-12, scale=np.abs(gm) + 1e-300)
                    rs = asarray(r2[1], "given-returned", (d,))
                    require(np.all((np.abs(rs - eff) <= 1e-12 * eff) | ((gs == 0) & (rs == 0))), "given-returned", "std %s, given %s" % (rs, gs))
                    # the file is marked as normalised with these parameters
                    Y2 = gen.read_h5(p2)
                    r3 = normalize_hdf5(p2)
                    same("given-again", gen.read_h5(p2), Y2)
                    close("given-recorded", r3[0], gm, 1e-12, scale=np.abs(gm) + 1e-300)
            elif op == "remake":
                store(p, X, "make")
                ret = normalize_hdf5(p, **b)
                Y = gen.read_h5(p)
                std_check("remade", X, Y, ret)
                mean, std = (np.array(v, dtype=float) for v in ret)
            else:
                bad = np.ones(d + 1)
                refused("wrong-length", lambda: normalize_hdf5(p, bad, np.ones(d)), "mean of wrong length")
                refused("wrong-length", lambda: normalize_hdf5(p, np.zeros(d), bad), "std of wrong length")
                same("refused-changes", gen.read_h5(p), Y)
    return {"tags": sorted(tags)}


def big(i, n, cols, b, **kw):
    return dict({"n": n, "n2": 30, "cols": cols, "s": 60 + i, "fdt": "float64", "how": "make", "how2": "carray", "b": b, "seq": "array", "zero": False,
                 "ops": ["again", "second"]}, **kw)


FIXED = [big(0, 70001, ["normal", "shift"], [None, 65536, 1000, None], n2=70001), big(1, 140001, ["binary"], [70000, None, 10000, 2]),
         big(2, 33000, ["normal", "big", "const"], [32768, 32767, None, 16384], n2=40000, fdt="float32"), big(3, 10001, ["near", "small"], [10000, 5000, 9999, None], n2=10001),
         big(4, 5000, ["normal", "shift", "binary"] * 40, [None, 128, 4999, 2500], n2=4097), big(5, 65537, ["normal"], [None, None, 65536, None], how="csv", n2=65537)]

SUBS = [Sub("normalise", cases, chk, lambda c: c["n"] >= 3 and any(k not in ("const", "const0") for k in c["cols"]), "at least three rows and a column that varies",
            quick=4800, thorough=50000, shards=8, fixed=FIXED)]
