"""C13: structure selection minimises the criterion it is named after."""
import contextlib
import numpy as np
from core import Sub, Violation, asarray, close, require
import gen
import ref
import sel
from gen import st


@contextlib.contextmanager
def recorded(L, out):
    """Random orders of L items drawn through numpy.random while the model trains."""
    shuffle, permutation = np.random.shuffle, np.random.permutation

    def note(x):
        try:
            if len(x) == L and sorted(int(i) for i in x) == list(range(L)):
                out.append([int(i) for i in x])
        except Exception:
            pass

    def my_shuffle(x):
        shuffle(x)
        note(x)

    def my_permutation(x):
        r = permutation(x)
        note(r)
        return r
    np.random.shuffle, np.random.permutation = my_shuffle, my_permutation
    try:
        yield
    finally:
        np.random.shuffle, np.random.permutation = shuffle, permutation


def points(lo, L):
    l = L - lo
    return sorted({lo, lo + l // 4, lo + l // 2, lo + 3 * l // 4, L})


def val_error(case, H, T, w, rows_tr, rows_vl, S, norm, Hv=None, Tv=None):
    ww = None if w is None else w[np.argmax(T[rows_tr], 1)]
    B = gen.solve_ref(H[rows_tr][:, S], T[rows_tr], norm, ww)[0]
    A = H[rows_vl][:, S] if Hv is None else Hv[:, S]
    Tt = T[rows_vl] if Tv is None else Tv
    mode = {"wa": "wc"}.get(case["mode"], case["mode"])
    return ref.error(mode, Tt, A.dot(B), w)


def loo_error(H, T, S, norm):
    n = len(H)
    e = 0.0
    for i in range(n):
        tr = np.array([j for j in range(n) if j != i])
        B = gen.solve_ref(H[tr][:, S], T[tr], norm)[0]
        e += np.sum((H[i, S].dot(B) - T[i])**2)
    return e / (n * T.shape[1])


def chk(case):
    case = dict(case, prec="d", acc=None)
    L = gen.total(case["groups"])
    if case["sel"] == "LOO" and case["mode"] != "r":
        case["mode"] = "r"
    norm = case["norm"]
    perms = []
    with recorded(L, perms):
        m, (X, T), (Xv, Tv), e_ret = sel.select(case)
    X, T, Xv, Tv = (np.array(A) for A in (X, T, Xv, Tv))
    H, Hv = gen.ref_H(sel.neurons(case), X), gen.ref_H(sel.neurons(case), Xv)
    allrows = np.arange(len(X))
    w = sel.wvec(case, T)
    kept, L0 = sel.kept(case, m)
    k_opt = len(kept)
    cols = [(f, tuple(W[:, j]), B[j]) for f, W, B in gen.ref_neurons(sel.neurons(case)) for j in range(W.shape[1])]

    def which(S):    # equal neurons are the same
        return sorted(cols.index(cols[i]) for i in S)
    every = np.arange(L)
    kmax = min(case["kmax"], L) if case["op"] and case["kmax"] else L
    tags = ["sel-" + case["sel"] + ("-OP" if case["op"] else ""), "mode-" + case["mode"]]
    if gen.cond(H.T.dot(H) + norm * np.eye(L)) > 1e9:
        return {"nt": False, "tags": tags + ["ill"]}

    unsure = []

    def rank_of(A, B):
        import hpelm.modules as mod
        f = mod.mrsr if B.shape[1] < 10 else mod.mrsr2
        A, B = np.asarray(A), np.asarray(B)
        rank = [int(i) for i in f(A, B, kmax)]
        r = np.random.RandomState(7)
        for _ in range(3):     # an order that rounding decides, among dependent neurons for instance, says nothing
            if [int(i) for i in f(A * (1 + 1e-10 * r.randn(*A.shape)), B * (1 + 1e-10 * r.randn(*B.shape)), kmax)] != rank:
                unsure.append(1)
                break
        return rank

    m0 = sel.build(case)    # the same hidden representation that the model used
    if case["sel"] == "V":
        crit = lambda S: val_error(case, H, T, w, allrows, None, S, norm, Hv, Tv)
        ranks = [rank_of(m0.project(Xv), Tv)] if case["op"] else perms[:1]
        usable = len(Xv) >= L + 2
        lo = 1
    elif case["sel"] == "LOO":
        crit = lambda S: loo_error(H, T, S, norm)
        ranks = [rank_of(m0.project(X), T)] if case["op"] else perms[:1]
        usable = len(X) >= L + 2
        lo = 1
    else:
        k = case["k"]
        fold = [allrows[i::k] for i in range(k)]
        parts = []
        for i in range(k):
            tr = np.hstack([fold[(i + j) % k] for j in range(k - 2)])
            parts.append((tr, fold[(i + k - 2) % k], fold[(i + k - 1) % k]))
        if case["op"]:
            ranks = [rank_of(m0.project(X[vl]), T[vl]) for _, vl, _ in parts]
        else:
            ranks = perms[:k] if len(perms) == k else []
        usable = min(len(vl) for _, vl, _ in parts) >= L + 2
        lo = min(3, kmax)
    if case["op"] and (unsure or not usable):      # the order of regressors beyond an exact fit is rounding
        ranks = []
    tol = 1e-6
    if case["sel"] != "CV":
        full = crit(every)
        pen = full * 0.01 / kmax
        mine = crit(np.array(kept)) + k_opt * pen
        scale = full + 1e-3 * mine + 1e-12
        if kmax == L:
            require(mine <= full + L * pen + tol * scale, "not-better-than-all",
                    "criterion %.6g with %d neurons, %.6g with all %d" % (mine, k_opt, full + L * pen, L))
        if ranks and len(ranks[0]) >= kmax:
            r = ranks[0]
            tags.append("ranked")
            require(which(kept) == which(r[:k_opt]), "not-a-prefix", "kept %s, ranking %s" % (sorted(kept), r))
            for j in points(lo, kmax):
                other = crit(np.array(r[:j])) + j * pen
                require(mine <= other + tol * scale, "not-better-than-prefix",
                        "criterion %.6g with %d neurons, %.6g with the first %d of the ranking" % (mine, k_opt, other, j))
        return {"tags": tags + ["pruned" if k_opt < L else "all-kept"]}
    full = np.mean([val_error(case, H, T, w, tr, vl, every, norm) for tr, vl, _ in parts])
    pen = full * 0.01 / kmax
    if len(ranks) == k and all(len(r) >= kmax for r in ranks):
        tags.append("ranked")
        cv = lambda j: np.mean([val_error(case, H, T, w, tr, vl, np.array(r[:j]), norm) for (tr, vl, _), r in zip(parts, ranks)])
        mine = cv(k_opt) + k_opt * pen
        scale = full + 1e-3 * mine + 1e-12
        for j in points(lo, kmax):
            other = cv(j) + j * pen
            require(mine <= other + tol * scale, "not-better-than-prefix",
                    "criterion %.6g with %d neurons, %.6g with %d" % (mine, k_opt, other, j))
        test = np.mean([val_error(case, H, T, w, tr, ts, np.array(r[:k_opt]), norm) for (tr, _, ts), r in zip(parts, ranks)])
        close("cv-return", float(e_ret), test, 1e-6, scale=test + 1e-9)
        require(any(which(kept) == which(r[:k_opt]) for r in ranks), "not-a-prefix", "kept %s, rankings %s" % (sorted(kept), ranks))
    return {"tags": tags + ["pruned" if k_opt < L else "all-kept"]}


def cases(big=False):
    s = sel.cases(norms=(1e-3, 0.1, 1, 10), precs=("d",), maxn=8)
    if big:   # few neurons per validation row, so that rankings are well defined
        s = s.map(lambda c: dict(c, n=c["n"] + c["k"] * (gen.total(c["groups"]) + 3), nv=c["nv"] + gen.total(c["groups"]) + 3))
    return s


def many(i, sl, n, L, mode="r", **kw):
    """Hundreds of neurons or rows, several outputs."""
    return dict({"d": 3, "c": 2, "n": n, "nv": n // 2, "mode": mode, "sel": sl, "k": 4, "groups": [{"f": f, "n": k, "s": i + k} for f, k in L], "xk": "n", "xs": 50 + i, "ws": i,
                 "prec": "d", "norm": 1, "batch": n // 3, "acc": None, "op": False, "kmax": None, "case": "upper", "rs": 60 * i + 5, "signal": 3.0}, **kw)


FIXED = [many(0, "V", 900, [("tanh", 130)]), many(1, "V", 600, [("sigm", 40), ("rbf_l2", 30)], op=True), many(2, "CV", 1200, [("tanh", 60)]), many(3, "CV", 500, [("tanh", 24), ("lin", 2)], op=True, k=5),
         many(4, "LOO", 150, [("tanh", 40)]), many(5, "LOO", 120, [("sigm", 25)], op=True, kmax=20), many(6, "V", 20001, [("tanh", 9)], batch=1000), many(7, "CV", 9000, [("tanh", 7)], mode="wc", k=9, c=3),
         many(8, "V", 1500, [("tanh", 50)], mode="c", c=12), many(9, "V", 400, [("tanh", 30)], c=11, op=True), many(10, "CV", 2000, [("tanh", 20)], mode="ml", c=5), many(11, "V", 700, [("tanh", 20)], mode="wa", c=4)]

SUBS = [Sub("criterion", lambda: cases(True), chk, lambda c: gen.total(c["groups"]) >= 3, "at least three neurons to select from, more rows than neurons",
            quick=2000, thorough=30000, shards=6, fixed=FIXED),
        Sub("small", cases, chk, lambda c: gen.total(c["groups"]) >= 3, "at least three neurons, any number of rows",
            quick=800, thorough=20000, shards=2)]
