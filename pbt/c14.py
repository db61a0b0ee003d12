"""C14: the optimal-pruning ranking is the multiresponse sparse regression order."""
import numpy as np
from core import Sub, Violation, require
import gen
from gen import st


@st.composite
def cases(draw):
    which = draw(st.sampled_from(["mrsr", "mrsr", "mrsr2", "mrsr2", "mrsr2-1"]))
    m = draw(gen.wide(1, 12, every=25, cap=33))
    return {"f": which, "n": draw(gen.rows(1, 40)), "m": m, "p": draw(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(1, 9 if m <= 6 else 5)) if which == "mrsr" else gen.wide(1, 14)),
            "kmax": draw(st.one_of(st.just(m), st.integers(1, m + 3))), "s": draw(gen.seeds()),
            "std": draw(st.booleans()), "corr": draw(st.sampled_from([0.0, 0.0, 0.5, 0.9])), "signal": draw(st.sampled_from([0, 1, 10])),
            "ts": draw(st.sampled_from([1.0, 1.0, 1e-5, 1e5, -1.0])), "xs": draw(st.sampled_from([1.0, 1.0, 1e-3, 1e3])),
            "lay": draw(st.sampled_from(["C", "F", "strided"])), "dup": draw(st.integers(0, 7)) == 0}


def data(case):
    r = np.random.RandomState(case["s"])
    n, m, p = case["n"], case["m"], case["p"]
    X = r.randn(n, m) + case["corr"] * 2 * r.randn(n, 1)
    if not case["std"]:
        X = X * (0.3 + 2 * r.rand(m)) + r.randn(m)
    elif n > 1:
        X = (X - X.mean(0)) / (X.std(0) + 1e-12)
    if case["dup"] and m > 1:
        X[:, m // 2] = X[:, 0]
    T = r.randn(n, p) + case["signal"] * X.dot(r.randn(m, p) * (r.rand(m, 1) < 0.5))
    return X * case["xs"], T


def rank(case, X, T, kmax):
    import hpelm.modules as mod
    if case["lay"] == "F":
        X = np.asfortranarray(X)
    elif case["lay"] == "strided":
        Y = np.zeros((2 * X.shape[0], 2 * X.shape[1]))
        Y[::2, ::2] = X
        X = Y[::2, ::2]
    if case["f"] == "mrsr":
        r = mod.mrsr(X, T, kmax)
    elif case["f"] == "mrsr2":
        r = mod.mrsr2(X, T, kmax)
    else:
        r = mod.mrsr2(X, T, kmax, norm=1)
    r = [int(i) for i in r]
    m = X.shape[1]
    require(len(r) == min(kmax, m), "length", "%d regressors ranked of %d, %d asked for" % (len(r), m, kmax))
    require(len(set(r)) == len(r) and all(0 <= i < m for i in r), "distinct", "ranking %s" % r)
    return r


def follow(r, X, T, norm):
    """Follows the path along a ranking; checks each choice; returns (checked steps, smallest gap to another choice)."""
    T = np.asarray(T, dtype=np.float64)
    n, m = X.shape
    nrm = lambda A: np.linalg.norm(A, norm, axis=1)          # of each row
    c = nrm(X.T.dot(T))
    top = c.max()
    require(c[r[0]] >= top * (1 - 1e-7), "first", "first regressor %d has correlation %.6g, %d has %.6g" % (r[0], c[r[0]], c.argmax(), top))
    gap = np.inf
    if m > 1:
        gap = (top - np.sort(np.delete(c, r[0]))[-1]) / (top + 1e-300)
    Y = np.zeros_like(T)
    for k in range(1, len(r)):
        A = X[:, r[:k]]
        s = np.linalg.svd(A, compute_uv=False)
        cmax = float(nrm((T - Y).T.dot(X[:, r[0]])[None, :])[0])
        if k >= n or s[-1] < 1e-4 * s[0] or cmax < 1e-6 * top:
            return k, gap                                     # the rest is decided by rounding
        D = A.dot(np.linalg.lstsq(A, T, rcond=None)[0]) - Y
        rest = [j for j in range(m) if j not in r[:k]]
        a, b = X[:, rest].T.dot(T - Y), X[:, rest].T.dot(D)
        # f(g) = (1-g)*cmax - |a - g*b| is concave, f(0) >= 0 >= f(1): one crossing
        lo, hi = np.zeros(len(rest)), np.ones(len(rest))
        for _ in range(60):
            g = (lo + hi) / 2
            pos = (1 - g) * cmax - nrm(a - g[:, None] * b) > 0
            lo, hi = np.where(pos, g, lo), np.where(pos, hi, g)
        g = (lo + hi) / 2
        mine = g[rest.index(r[k])]
        require(mine <= g.min() + 2e-4 * max(1.0, 0), "next",
                "step %d chooses %d, which reaches the maximal correlation at %.6g; %d does at %.6g (ranking %s)"
                % (k, r[k], mine, rest[int(g.argmin())], g.min(), r))
        if len(rest) > 1:
            gap = min(gap, np.sort(g)[1] - np.sort(g)[0])
        Y = Y + mine * D
    return len(r), gap


def chk(case):
    X, T = data(case)
    norm = 2 if case["f"] == "mrsr2" else 1
    kmax = case["kmax"]
    r = rank(case, X, T, kmax)
    U = X / (np.linalg.norm(X, axis=0) + 1e-300)
    parallel = case["m"] > 1 and np.max(np.abs(U.T.dot(U)) - np.eye(case["m"])) > 0.9999
    if (case["dup"] and case["m"] > 1) or parallel:    # ties: only the shape of the answer is determined
        return {"tags": [case["f"], "dup"], "nt": False}
    k, gap = follow(r, X, T, norm)
    tags = [case["f"], "full-path" if k == len(r) else "part-path"]
    # the same problem in another scale and order
    q = np.random.RandomState(case["s"] + 1).permutation(case["m"])
    r2 = rank(case, X[:, q], T * case["ts"], kmax)
    k2, gap2 = follow(r2, X[:, q], T * case["ts"], norm)
    kk = min(k, k2)
    if min(gap, gap2) > 1e-3:
        require([int(q[i]) for i in r2[:kk]] == r[:kk], "equivariance", "ranking %s, after reordering %s" % (r[:kk], [int(q[i]) for i in r2[:kk]]))
        tags.append("equivariant")
        if kmax < case["m"]:    # stopping earlier does not change the order
            r3 = rank(case, X, T, case["m"])
            require(r3[:kk] == r[:kk], "prefix", "ranking %s with kmax=%d, %s with all" % (r[:kk], kmax, r3[:kk]))
    return {"tags": tags, "nt": k >= 2}


def big(i, f, n, m, p, kmax, **kw):
    return dict({"f": f, "n": n, "m": m, "p": p, "kmax": kmax, "s": 70 + i, "std": i % 2 == 0, "corr": 0.5 * (i % 2), "signal": 1, "ts": 1.0, "xs": 1.0, "lay": "C", "dup": False}, **kw)


FIXED = [big(0, "mrsr", 150, 60, 2, 60), big(1, "mrsr", 3000, 20, 3, 12), big(2, "mrsr2", 150, 60, 2, 60), big(3, "mrsr2", 300, 40, 40, 20), big(4, "mrsr2-1", 200, 70, 3, 30),
         big(5, "mrsr", 400, 130, 1, 130), big(6, "mrsr", 60, 20, 8, 20), big(7, "mrsr2", 2100, 12, 12, 12, lay="F"), big(8, "mrsr", 5001, 130, 2, 70, lay="strided"),
         big(9, "mrsr2", 70, 66, 4, 66, lay="F"), big(10, "mrsr", 300, 260, 1, 60)]

SUBS = [Sub("path", cases, chk, lambda c: c["m"] >= 3 and c["kmax"] >= 2 and c["n"] >= 3, "at least three regressors, two of them ranked by a determined path",
            quick=9600, thorough=80000, shards=6, fixed=FIXED)]
