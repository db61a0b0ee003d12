"""C23: rbf_param samples centroids from the data and positive typical widths."""
import os
import numpy as np
from core import Sub, Violation, asarray, close, same, require, scratch
import gen
from gen import st

KINDS = ("l1", "l2", "linf", "rbf_l1", "rbf_l2", "rbf_linf", "")


def metric(kind):
    return "l1" if "l1" in kind else "linf" if "inf" in kind else "l2"


def dist(A, B, k):
    D = np.abs(np.asarray(A, dtype=float)[:, None, :] - np.asarray(B, dtype=float)[None, :, :])
    return D.sum(2) if k == "l1" else D.max(2) if k == "linf" else (D**2).sum(2)


def call(X, case, dr):
    from hpelm.modules.rbf_param import rbf_param
    a = X
    if case["src"] != "array":
        a = gen.write_h5(os.path.join(dr, "x.h5"), X, case["src"])
        if case["src"] == "carray" and case["s"] % 2:
            from hpelm.modules import make_hdf5
            make_hdf5(X, a)
    elif case["s"] % 5 == 0:
        a = X.tolist()
    np.random.seed(case["s"])
    args = [case["kind"]] if case["kind"] else []
    W, B = rbf_param(a, case["k"], *args)
    k, d = case["k"], X.shape[1]
    require(np.shape(W) == (d, k) and np.shape(B) == (k,), "shape", "W %s, B %s" % (np.shape(W), np.shape(B)))
    W, B = asarray(W, "W"), asarray(B, "B")
    require(np.all(np.isfinite(B)) and np.all(B > 0), "positive", "widths %s" % B)
    rows = set(tuple(r) for r in np.asarray(X, dtype=float))
    for j in range(k):
        require(tuple(W[:, j]) in rows, "centroid", "%s is not a row of the data" % W[:, j])
    if case["src"] != "array":
        same("data-changed", gen.read_h5(a), X)
    return W, B


def usable(X, W, B, case):
    f = "rbf_" + metric(case["kind"])
    m = gen.new_model("HPELM", X.shape[1], 1, "d")
    m.add_neurons(case["k"], f, W, B)
    H = asarray(m.project(np.asarray(X, dtype=float)), "usable", (len(X), case["k"]))
    require(np.all(np.isfinite(H)) and np.all(H >= 0) and np.all(H <= 1 + 1e-12), "usable", "activations outside [0, 1]")


def base(draw):
    return {"s": draw(gen.seeds()), "kind": draw(st.sampled_from(KINDS)), "src": draw(st.sampled_from(("array", "array") + gen.STORAGE))}


@st.composite
def cases(draw):
    return dict(base(draw), n=draw(st.one_of(st.integers(2, 6), gen.rows(2, 80))), d=draw(gen.wide(1, 6)), k=draw(st.one_of(st.integers(1, 4), gen.wide(1, 30, cap=130))),
                data=draw(st.sampled_from(["n", "n", "shift", "int", "ones", "dup", "dup2", "lone"])), dt=draw(st.sampled_from(["float64", "float64", "float32", "int64", "uint8", "int8", "int16"])))


def chk(case):
    n, d, k = case["n"], case["d"], case["k"]
    r = np.random.RandomState(case["s"] + 5)
    X = gen.make_X(case["s"] + 5, n, d, case["data"] if case["data"] in ("n", "shift", "int", "ones") else "n")
    if case["data"] == "dup":
        X = X[r.randint(0, max(2, n // 3), n)]
    elif case["data"] == "dup2":
        X = X[r.randint(0, 2, n)]
    elif case["data"] == "lone":        # one row that differs
        X = np.tile(X[:1], (n, 1))
        X[r.randint(n)] += 1
    X = np.round(X * 40) if "int" in case["dt"] else X
    X = gen.as_type(X + (100 if case["dt"] == "uint8" else 0), case["dt"])
    if np.all(X == X[:1]):
        X[0] += 1
    with scratch(case["s"]) as dr:
        W, B = call(X, case, dr)
    D = dist(X, X, metric(case["kind"]))
    # mean plus deviation of values in [0, max] is at most 1.2072 max
    require(np.all(B <= 1.2072 * D.max() * (1 + 1e-9)), "too-wide", "widths up to %g, largest distance %g" % (B.max(), D.max()))
    usable(X, W, B, case)
    return {"tags": [case["data"], case["kind"]]}


# points at one and the same distance have exactly one possible width

@st.composite
def scases(draw):
    return dict(base(draw), n=draw(st.integers(2, 40)), k=draw(st.integers(1, 12)), a=draw(st.sampled_from([0.01, 1.0, 3.0, 1000.0])))


def schk(case):
    n = case["n"]
    X = np.eye(n) * case["a"]
    with scratch(case["s"]) as dr:
        W, B = call(X, case, dr)
    want = dist(X[:1], X[1:2], metric(case["kind"]))[0, 0]
    close("equidistant-widths", B, np.full(case["k"], want), 1e-9, scale=want, note="kind %r" % case["kind"])
    usable(X, W, B, case)
    return {"tags": [case["kind"]]}


# the widths spread around the mean distance by one standard deviation, the centroids over the data

@st.composite
def dcases(draw):
    return dict(base(draw), n=draw(st.one_of(st.integers(150, 400), st.integers(150, 400), st.sampled_from([1000, 4097, 9999, 10001, 16385, 30000]))), k=draw(st.integers(60, 150)), d=draw(st.integers(1, 8)), off=draw(st.sampled_from([0.0, 100.0])))


def dchk(case):
    n, k, d = case["n"], case["k"], case["d"]
    X = np.random.RandomState(case["s"] + 5).rand(n, d) * 2 + case["off"]
    with scratch(case["s"]) as dr:
        W, B = call(X, case, dr)
    if n < 500:
        D = dist(X, X, metric(case["kind"]))
        D = D[~np.eye(n, dtype=bool)]
    else:       # of many pairs
        r = np.random.RandomState(case["s"] + 6)
        D = np.concatenate([dist(X[[i]], X, metric(case["kind"]))[0] for i in r.randint(0, n, 400)])
        D = D[D > 0]
    m, s = D.mean(), D.std()
    nk = min(10 * k, n - 1)
    sm = 7 * s * np.sqrt(2.0 / nk + (0.005 if n >= 500 else 0))          # of the mean of the sampled distances (a row may occur twice)
    ss = 7 * s / np.sqrt(nk) * 1.5          # of their deviation
    require(np.all(B <= m + s + sm + ss) and np.all(B >= m - s - sm - ss), "width-range",
            "widths %g to %g, mean distance %g, deviation %g" % (B.min(), B.max(), m, s))
    if m - s > sm + ss:   # not cut at zero
        require(abs(B.mean() - m) <= sm + 7 * s / np.sqrt(3 * k), "width-mean", "%g, mean distance %g" % (B.mean(), m))
    require(len(np.unique(B)) > k // 2, "width-spread", "%d different widths among %d" % (len(np.unique(B)), k))
    require(B.max() - B.min() > 0.6 * s, "width-spread", "widths %g to %g, deviation %g" % (B.min(), B.max(), s))
    # centroids: distinct ones and from the whole data
    pos = dict((tuple(r), i) for i, r in enumerate(X))
    ix = [pos[tuple(c)] for c in W.T]
    require(len(set(ix)) > k // 4 and min(ix) < n * 0.35 and max(ix) > n * 0.65, "centroid-spread", "%d different rows, %d to %d of %d" % (len(set(ix)), min(ix), max(ix), n))
    return {"tags": [case["kind"]]}


def big(i, n, d, k, kind, **kw):
    return dict({"s": 30 + i, "kind": kind, "src": (("array",) + gen.STORAGE)[i % (1 + len(gen.STORAGE))], "n": n, "d": d, "k": k, "data": "n", "dt": "float64"}, **kw)


FIXED = [big(0, 3000, 3, 300, "l2"), big(1, 2500, 2, 700, "linf"), big(2, 1000, 60, 10, "l1"), big(3, 300, 400, 5, "rbf_l2"), big(4, 2100, 2, 2100, "rbf_linf"),
         big(5, 1500, 3, 20, "rbf_l1", dt="int8", data="shift"), big(6, 3, 1500, 40, ""), big(7, 2000, 5, 270, "l2", data="ones"), big(8, 700, 9, 33, "rbf_l1", data="dup")]

# any row can become a centroid

@st.composite
def rcases(draw):
    return dict(base(draw), n=draw(st.integers(2, 6)), k=draw(st.integers(160, 200)), d=draw(st.integers(1, 3)))


def rchk(case):
    n = case["n"]
    X = np.arange(n, dtype=float)[:, None] * np.ones((1, case["d"])) + 1
    with scratch(case["s"]) as dr:
        W, B = call(X, case, dr)
    # each of at most 6 rows is missed by 160 draws with probability below 1e-12
    if case["k"] > n:
        got = set(W[0])
        require(len(got) == n, "every-row", "%d centroids are copies of rows %s only, of %d rows" % (case["k"], sorted(int(v) - 1 for v in got), n))
    return {"tags": [case["kind"]]}


SUBS = [
    Sub("every-row", rcases, rchk, lambda c: True, "every case", quick=300, thorough=4000, shards=1, timeout=10),
    Sub("sample", cases, chk, lambda c: c["n"] >= 3, "at least three rows", quick=2400, thorough=60000, shards=3, timeout=20, fixed=FIXED),
    Sub("equidistant", scases, schk, lambda c: c["n"] >= 3, "at least three points", quick=1200, thorough=20000, shards=2, timeout=10),
    Sub("distribution", dcases, dchk, lambda c: True, "every case", quick=600, thorough=10000, shards=3, timeout=20),
]
