"""C01: training returns the regularised least-squares solution."""
import numpy as np
from core import Sub, Violation, asarray, close, require
import gen
from gen import st, EPS, PREC


@st.composite
def cases(draw):
    d = draw(gen.wide(1, 6))
    c = draw(gen.wide(1, 4))
    groups = draw(gen.neuron_groups(cap=130))
    dead = draw(st.integers(0, 9))
    if dead >= 8:  # the first (or first two) neurons never react
        groups[0]["dead"] = dead - 7
    if draw(st.integers(0, 5)) == 0:  # exactly duplicated neurons
        groups = groups + [dict(groups[0])]
    return {"d": d, "c": c, "n": draw(st.one_of(st.integers(1, 8), gen.rows(5, 60))), "groups": groups,
            "xk": draw(gen.xkinds()), "xs": draw(gen.seeds()), "prec": draw(gen.precs()),
            "norm": draw(gen.norms()), "batch": draw(gen.batches()), "acc": draw(st.sampled_from([None, None, "basic"])),
            "ts": draw(st.sampled_from([1.0, 1.0, 1e-3, 1e3])), "cls": draw(st.sampled_from(["ELM", "ELM", "HPELM"])),
            "T1d": draw(st.booleans()), "xdt": draw(st.sampled_from([None] * 6 + ["int8", "int32", "int64", "uint8", "float32", "float64", "float16", "bool"])),
            "tdt": draw(st.sampled_from([None] * 4 + ["float64", "float32", "int64"]))}


def build(case, neurons):
    kw = dict(prec=case["prec"], norm=case["norm"], batch=case["batch"])
    if case["acc"]:
        kw["accelerator"] = case["acc"]
    return gen.new_model(case["cls"], case["d"], case["c"], neurons=neurons, **kw)


def train(case):
    p = case["prec"]
    X = gen.make_X(case["xs"], case["n"], case["d"], case["xk"], p)
    T = gen.make_T(case["xs"], case["n"], case["c"], p, case["ts"])
    if case["xdt"]:
        X = gen.as_type(X, case["xdt"])
    if case["tdt"]:
        T = gen.as_type(gen.make_T(case["xs"], case["n"], case["c"], "d", case["ts"]), case["tdt"])
    neurons = gen.make_neurons(case["groups"], case["d"], case["xk"], p)
    m = build(case, neurons)
    other = gen.bystander(case["xs"], p) if case["xs"] % 4 == 0 else None
    X, T = gen.laid(X, case["xs"]), gen.laid(T, case["xs"] // 7)
    m.train(X, T.ravel() if case["T1d"] and case["c"] == 1 else T)
    return m, X, T, neurons


def residual(H, B, T, HH, HT, p):
    """Residual of the normal equations and the backward error of a stable factorisation, per output."""
    N, L = H.shape
    r = np.linalg.norm(HH.dot(B) - HT, axis=0)
    bound = 20 * EPS[p] * (L + N) * (np.linalg.norm(HH) * np.linalg.norm(B, axis=0) +
                                     np.linalg.norm(H) * np.linalg.norm(T.astype(np.float64), axis=0))
    return r, bound


def check_solution(m, X, T, norm, p, fast=True):
    """Residual of the regularised normal equations, relative to the backward error of a stable solver."""
    eps = EPS[p]
    H = asarray(m.project(X), "project")
    N, L = H.shape
    B = asarray(m.nnet.get_B(), "weights", (L, T.shape[1]))
    require(np.all(np.isfinite(B)), "weights", "non-finite output weights")
    HH = H.T.dot(H) + norm * np.eye(L)
    HT = H.T.dot(T.astype(np.float64))
    k = gen.cond(HH)
    well = k * eps * (L + N) < 1e-2
    r, bound = residual(H, B, T, HH, HT, p)
    if not fast:  # the explicit pseudo-inverse loses a factor of the condition number
        bound = bound * max(1, k / 10)
    if well and (fast or k < 1e8) and np.any(r > bound):
        raise Violation("normal-equations", "residual %s exceeds the rounding bound %s (condition %.3g)" % (r, bound, k))
    return H, B, HH, HT, well


def chk(case):
    p = case["prec"]
    m, X, T, neurons = train(case)
    norm = gen.default_norm(p) if case["norm"] is None else case["norm"]
    H, B, HH, HT, well = check_solution(m, X, T, norm, p, not case["acc"])
    # prediction = hidden representation times the weights
    Z = gen.make_X(case["xs"] + 1, 1 + case["n"] // 2, case["d"], case["xk"], p)
    HZ = asarray(m.project(Z), "project")
    Y = asarray(m.predict(Z), "predict", (len(Z), case["c"]))
    sc = np.abs(HZ).dot(np.abs(B)) + 1e-300
    close("predict", Y, HZ.dot(B), 20 * EPS[p] * (H.shape[1] + 1), scale=sc)
    tags = ["well" if well else "rank-deficient", "prec-" + p, "basic" if case["acc"] else "fast"]
    if not well:
        check_fit(H, B, T, norm, p, not case["acc"])
    return {"tags": tags}


# Excess of |HB-T|/|T| over the least-squares optimum that rounding can cause near rank deficiency.  The optimum is taken
# over the directions that the normal equations can resolve at the precision (singular values of HH above rounding).
# Measured over 4000 cases: 3e-5 for the fast solver in double precision, 0.03 for the pseudo-inverse; the fast solver in
# single precision has no useful bound (its Cholesky factorisation can succeed on a numerically singular matrix).
FIT_TOL = {("d", True): 1e-3, ("d", False): 0.15, ("s", False): 0.15}


def check_fit(H, B, T, norm, p, fast=True):
    N, L = H.shape
    T64 = T.astype(np.float64)
    tn = np.linalg.norm(T64) + 1e-300
    tol = FIT_TOL.get((p, fast))
    if tol is None:
        return
    U, s, _ = np.linalg.svd(H, full_matrices=False)
    keep = s**2 > 100 * EPS[p] * (L + N) * s[0]**2
    best = np.linalg.norm((U * (keep * s**2 / (s**2 + norm + 1e-300))).dot(U.T.dot(T64)) - T64)
    fit = np.linalg.norm(H.dot(B) - T64)
    if (fit - best) / tn > tol:
        # a Cholesky factorisation can succeed by rounding luck on a singular matrix; its solution is then backward stable
        r, bound = residual(H, B, T, H.T.dot(H) + norm * np.eye(L), H.T.dot(T64), p)
        if np.all(r <= bound) and np.linalg.norm(B) > 1e3 * tn / (s[0] + 1e-300):
            return
        raise Violation("fit", "rank-deficient training: |HB-T|/|T| = %.4g, optimum %.4g" % (fit / tn, best / tn))


def big(i, n, d, c, L, **kw):
    """Sizes at which another algorithm might be chosen, or a buffer end."""
    return dict({"d": d, "c": c, "n": n, "groups": [{"f": f, "n": k, "s": i + k} for f, k in L], "xk": "n", "xs": 30 + i, "prec": "d", "norm": 0.1, "batch": 1000,
                 "acc": None, "ts": 1.0, "cls": "ELM", "T1d": True, "xdt": None, "tdt": None}, **kw)


FIXED = [big(0, 700, 5, 2, [("tanh", 257)]), big(1, 1100, 20, 3, [("tanh", 300), ("sigm", 300)]), big(2, 600, 300, 2, [("lin", 280), ("tanh", 40)]),
         big(3, 500, 4, 150, [("tanh", 30)]), big(4, 100003, 2, 1, [("tanh", 5), ("rbf_l2", 3)], batch=70001), big(5, 40001, 3, 2, [("sigm", 20)], prec="s", norm=1),
         big(6, 700, 5, 2, [("tanh", 257)], cls="HPELM", acc="basic", norm=1), big(7, 900, 8, 2, [("rbf_l1", 270)], prec="s", norm=10),
         big(8, 200, 3, 2, [("tanh", 300)], norm=1), big(9, 300, 3, 270, [("tanh", 20)], cls="HPELM", batch=299)]

SUBS = [
    Sub("train", cases, chk, lambda c: c["n"] >= 2 and gen.total(c["groups"]) >= 2, "at least two rows and two neurons",
        quick=7200, thorough=40000, shards=4, fixed=FIXED),
]
