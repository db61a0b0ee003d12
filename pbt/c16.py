"""C16: adding neurons composes, stores what is given as copies, initialises what is not, and invalidates the solution."""
import numpy as np
from core import Sub, Violation, asarray, close, same, require, refused
import gen
from gen import st, EPS, PREC, RBF
from c03 import compare
from c02 import layout, scale_of, ufunc

TYPES = gen.STD + ("sin", "arctan")
DTYPES = ("float64", "float64", "float64", "float32", "float16", "int64", "int32", "int8", "longdouble")
LAYS = ("C", "C", "F", "strided", "reversed", "transposed", "readonly")


@st.composite
def adds(draw):
    return {"f": draw(st.sampled_from(TYPES)), "n": draw(st.one_of(st.integers(1, 4), gen.wide(1, 12, cap=130))), "s": draw(gen.seeds()),
            "W": draw(st.sampled_from(["given", "given", "given", "default"])), "B": draw(st.sampled_from(["given", "given", "default"])),
            "dt": draw(st.sampled_from(DTYPES)), "lay": draw(st.sampled_from(LAYS)), "mut": draw(st.booleans()),
            # what happens to the model before the next addition
            "then": draw(st.sampled_from(["", "", "train", "train", "data", "setB", "project", "solve"]))}


@st.composite
def cases(draw):
    return {"d": draw(gen.wide(1, 6)), "c": draw(gen.wide(1, 3)), "prec": draw(gen.precs()), "cls": draw(st.sampled_from(["ELM", "HPELM"])),
            "acc": draw(st.sampled_from([None, None, "basic"])), "adds": draw(st.lists(adds(), min_size=1, max_size=7)),
            "s": draw(gen.seeds()), "norm": draw(st.sampled_from([0.1, 1]))}


def new(case):
    kw = {"accelerator": case["acc"]} if case["acc"] else {}
    return gen.new_model(case["cls"], case["d"], case["c"], case["prec"], norm=case["norm"], **kw)


def given(a, d):
    """Caller's weights and biases of the requested type and layout."""
    r = np.random.RandomState(a["s"] + 2000003)  # apart from the seed of the global generator
    n = a["n"] if a["W"] == "given" or a["f"] != "lin" else min(a["n"], d)
    W, B = r.randn(d, n), r.randn(n)
    if a["dt"].startswith("int"):
        W, B = r.randint(-3, 4, (d, n)), r.randint(-3, 4, n)
    if a["f"] in RBF:
        B = np.abs(B) + 1
    dt = np.dtype(a["dt"])
    W = layout(W.astype(dt), a["lay"])
    B = B.astype(dt)
    if a["lay"] in ("strided", "reversed"):
        B2 = np.zeros(2 * n, dtype=dt)
        B2[::2] = B
        B = B2[::2]
    elif a["lay"] == "readonly":
        B.flags.writeable = False
    return W, B


def scribble(v):
    v.flags.writeable = True
    v[...] = 7


def chk(case):
    d, c, p = case["d"], case["c"], case["prec"]
    P = PREC[p]
    m = new(case)
    want = []     # [func, W, B]
    X = gen.make_X(case["s"], 9, d, "n", p)
    T = gen.make_T(case["s"], 9, c, p)
    has = False   # has a solution
    tags = set()
    for a in case["adds"]:
        f = a["f"] if a["f"] in gen.STD else ufunc(a["f"])
        W, B = given(a, d)
        W0, B0 = np.array(W).astype(P), np.array(B).astype(P)
        args = {}
        if a["W"] == "given":
            args["W"] = W
        if a["B"] == "given":
            args["B"] = B
        n = W.shape[1]   # linear neurons without weights: at most as many as inputs
        if "B" in args and "W" not in args and a["f"] == "lin":
            m.add_neurons(n, f, **args)
        else:
            m.add_neurons(a["n"], f, **args)
        got = {g[1]: g for g in m.nnet.get_neurons()}
        require(f in got, "missing", "neurons %s are not in the model" % (f,))
        k = sum(w[1].shape[1] for w in want if w[0] == f)
        Wm, Bm = np.asarray(got[f][2]), np.asarray(got[f][3])
        require(got[f][0] == k + n and Wm.shape == (d, k + n) and Bm.shape == (k + n,), "size",
                "%s neurons: %r, %s %s instead of %d" % (f, got[f][0], Wm.shape, Bm.shape, k + n))
        require(Wm.dtype == P and Bm.dtype == P, "precision", "stored as %s, %s" % (Wm.dtype, Bm.dtype))
        Wn, Bn = Wm[:, k:].copy(), Bm[k:].copy()
        if "W" in args:
            same("given-weights", Wn, W0, str(f))
        elif a["f"] == "lin":
            same("linear-weights", Wn, np.eye(d, n))
        else:
            random_ok("random-weights", Wn, want)
        if "B" in args:
            same("given-biases", Bn, B0, str(f))
        elif a["f"] == "lin":
            same("linear-biases", Bn, np.zeros(n))
        else:
            random_ok("random-biases", Bn[None, :], want)
            if a["f"] in RBF:
                require(np.all(Bn > 0), "widths", "not positive: %s" % Bn)
        if "W" in args:
            same("argument-changed", np.array(W).astype(P), W0)
        if "B" in args:
            same("argument-changed", np.array(B).astype(P), B0)
        if a["mut"]:
            scribble(W)
            scribble(B)
        for w in want:
            if w[0] == f:
                w[1], w[2] = np.hstack((w[1], Wn)), np.hstack((w[2], Bn))
                break
        else:
            want.append([f, Wn, Bn])
        if has:
            tags.add("invalidated")
        refused("stale-prediction", lambda: m.predict(X), "predicting with new untrained neurons")
        require(m.nnet.get_B() is None, "stale-weights", "output weights survive new neurons")
        has = False
        check_model(m, want, X, p, c)
        L = sum(w[1].shape[1] for w in want)
        if a["then"] == "train":
            m.train(X, T)
            has = True
        elif a["then"] == "data":
            m.add_data(X, T)
            tags.add("partial")
        elif a["then"] == "solve":
            m.add_data(X, T)
            m.nnet.solve()
            has = True
        elif a["then"] == "setB":
            m.nnet.set_B(np.ones((L, c), dtype=P))
            has = True
        elif a["then"] == "project":
            m.project(X)
    # one call per type gives the same model; training uses the new data only
    one = new(case)
    for f, W, B in want:
        one.add_neurons(W.shape[1], f, W.copy(), B.copy())
    tol = 1e-12 if case["prec"] == "d" else 1e-4      # matrix products of differently stored matrices round differently
    close("composition", m.project(X), one.project(X), tol, scale=1 + np.abs(asarray(one.project(X), "project")))
    if case["adds"][-1]["then"] in ("", "project"):
        m.add_data(X, T)
        m.nnet.solve()
        one.add_data(X, T)
        one.nnet.solve()
        compare(one, m, X, case["prec"], T, case["norm"], [], key="composition-training")
    return {"tags": sorted(tags)}


def random_ok(key, V, want):
    require(np.all(np.isfinite(V)), key, "not finite")
    v = V.ravel()
    if v.size >= 2:
        require(len(np.unique(np.abs(v))) > 0.9 * v.size, key, "not random: %s" % v[:6])
    for _, W, B in want:
        for old in (W, B):
            require(not np.isin(v, old).all(), key, "repeat earlier values")


def check_model(m, want, X, p, c):
    got = m.nnet.get_neurons()
    require([g[1] for g in got] == [w[0] for w in want], "types", "%s, expected %s" % ([g[1] for g in got], [w[0] for w in want]))
    for g, w in zip(got, want):
        require(g[0] == w[1].shape[1], "count", "%r of %s, expected %d" % (g[0], w[0], w[1].shape[1]))
        same("stored-weights", g[2], w[1], str(w[0]))
        same("stored-biases", g[3], w[2], str(w[0]))
    L = sum(w[1].shape[1] for w in want)
    require(m.nnet.L == L, "total", "%r neurons, expected %d" % (m.nnet.L, L))
    H = asarray(m.project(X), "project", (len(X), L))
    wn = [(w[1].shape[1], w[0], w[1], w[2]) for w in want]
    ref = gen.ref_H(wn, X)
    close("project", H, ref, 40 * EPS[p] * (X.shape[1] + 3), scale=scale_of(wn, np.asarray(X, dtype=float)))
    s = str(m)
    for w in want:
        require(str(w[1].shape[1]) in s and (w[0] if isinstance(w[0], str) else str(w[0])) in s, "description", s)


# ---------------------------------------------------------------- the distribution of default parameters is not degenerate

@st.composite
def rcases(draw):
    return {"d": draw(gen.wide(1, 30, cap=130)), "n": draw(gen.wide(1, 60, cap=130)), "f": draw(st.sampled_from(gen.STD)), "prec": draw(gen.precs()),
            "cls": draw(st.sampled_from(["ELM", "HPELM"])), "calls": draw(st.integers(1, 3)), "s": draw(gen.seeds())}


def rchk(case):
    d, n, f = case["d"], case["n"], case["f"]
    m = gen.new_model(case["cls"], d, 1, case["prec"])
    np.random.seed(case["s"])
    for _ in range(case["calls"]):
        m.add_neurons(n, f)
    k = (min(n, d) if f == "lin" else n) * case["calls"]
    (num, g, W, B), = m.nnet.get_neurons()
    W, B = np.asarray(W), np.asarray(B)
    require(num == k and g == f and W.shape == (d, k) and B.shape == (k,) and m.nnet.L == k, "shape", "%s %s, %d expected" % (W.shape, B.shape, k))
    if f == "lin":
        same("linear", W, np.hstack([np.eye(d, min(n, d))] * case["calls"]))
        same("linear-bias", B, np.zeros(k))
        X = gen.make_X(case["s"], 5, d, "n", case["prec"])
        same("copies-features", m.project(X)[:, :min(n, d)], X[:, :min(n, d)])
        return
    require(np.all(np.isfinite(W)) and np.all(np.isfinite(B)), "finite", "")
    if W.size >= 2:
        u = len(np.unique(np.abs(W)))
        require(u > 0.9 * W.size, "random-weights", "only %d values, up to the sign, among %d" % (u, W.size))
    if k >= 2:
        u = len(np.unique(np.abs(B)))
        require(u > 0.9 * k, "random-biases", "only %d values, up to the sign, among %d" % (u, k))
    if W.size >= 60:  # both signs, no dominating part: 2**-60
        require(W.min() < 0 < W.max(), "sign", "all weights have the same sign")
    if f in RBF:
        require(np.all(B > 0), "widths", "not positive")
    elif k >= 60:
        require(B.min() < 0 < B.max(), "sign", "all biases have the same sign")


# ---------------------------------------------------------------- default parameters suit any number of inputs

@st.composite
def scases(draw):
    return {"d": draw(st.lists(st.one_of(st.integers(1, 12), st.sampled_from([30, 100, 300, 1000])), min_size=2, max_size=2, unique=True)),
            "f": draw(st.sampled_from([f for f in gen.STD if f != "lin"] + ["sin"])), "prec": draw(gen.precs()),
            "cls": draw(st.sampled_from(["ELM", "HPELM"])), "s": draw(gen.seeds())}


def schk(case):
    """Spread of what reaches the activation function: the same, up to sampling, for any number of standardised inputs."""
    np.random.seed(case["s"])
    got = []
    for d in case["d"]:
        m = gen.new_model(case["cls"], d, 1, case["prec"])
        m.add_neurons(800, case["f"] if case["f"] in gen.STD else ufunc(case["f"]))
        (_, _, W, B), = m.nnet.get_neurons()
        W, B = np.asarray(W, dtype=float), np.asarray(B, dtype=float)
        s2 = np.mean(np.sum(W ** 2, axis=0))
        got.append((s2 / d, np.mean(B) / d) if case["f"] in RBF else (s2, np.mean(B ** 2)))
    for k, what in enumerate(("weights", "biases")):
        r = got[0][k] / got[1][k]
        require(0.5 < r < 2, "scale-" + what, "%s neurons, %d and %d inputs: spread of the %s differs %g times" % (case["f"], case["d"][0], case["d"][1], what, r))


def big(i, d, adds_, **kw):
    adds_ = [dict({"f": f, "n": n, "s": 10 * i + j, "W": "given", "B": "given", "dt": "float64", "lay": "C", "mut": True, "then": ("train", "", "data")[j % 3]}, **k)
             for j, (f, n, k) in enumerate(adds_)]
    return dict({"d": d, "c": 2, "prec": "d", "cls": ("ELM", "HPELM")[i % 2], "acc": None, "adds": adds_, "s": i, "norm": 1}, **kw)


DEF = {"W": "default", "B": "default"}
FIXED = [big(0, 4, [("tanh", 257, {}), ("tanh", 300, {}), ("sigm", 1, {})]), big(1, 300, [("lin", 280, DEF), ("lin", 400, DEF), ("tanh", 3, DEF)]),
         big(2, 2, [("rbf_l2", 1025, DEF), ("tanh", 1025, DEF), ("rbf_l2", 2, DEF)]), big(3, 1100, [("tanh", 3, {}), ("sin", 2, {}), ("tanh", 2, {"lay": "F"})]),
         big(4, 3, [(f, 1 + j, DEF if j % 3 == 0 else {}) for j, f in enumerate(TYPES * 4)])]

SUBS = [
    Sub("compose", cases, chk, lambda c: len(c["adds"]) >= 2 and len(set(a["f"] for a in c["adds"])) < len(c["adds"]),
        "at least two additions, some of the same type", quick=7500, thorough=80000, shards=4, fixed=FIXED),
    Sub("initialise", rcases, rchk, lambda c: c["f"] != "lin" or c["n"] > c["d"], "random neurons, or more linear neurons than inputs",
        quick=4500, thorough=40000, shards=2),
    Sub("scale", scases, schk, lambda c: max(c["d"]) >= 4 * min(c["d"]), "numbers of inputs that differ at least four times", quick=300, thorough=6000),
]
