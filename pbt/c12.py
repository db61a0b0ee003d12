"""C12: structure selection keeps a subset of neurons, retrained on all data."""
import numpy as np
from core import Sub, Violation, asarray, close, require
import gen
import sel
from c03 import compare
from gen import st, EPS, PREC


def chk(case):
    m, (X, T), (Xv, Tv), e = sel.select(case)
    idx, L = sel.kept(case, m)
    require(len(idx) >= 1, "count", "no neurons left")
    if case["op"] and case["kmax"] is not None:
        require(len(idx) <= case["kmax"], "kmax", "%d neurons with kmax=%d" % (len(idx), case["kmax"]))
    if case["sel"] == "CV":
        require(e is not None and np.isfinite(float(e)) and float(e) >= 0, "cv-error", "returned %r" % (e,))
    f = sel.retrained(case, m, X, T)
    r = compare(f, m, Xv, case["prec"], T * np.sqrt(max(1, np.max(sel.wvec(case, T)))) if sel.wvec(case, T) is not None else T,
                case["norm"], [], key="retrained")
    B = asarray(m.nnet.get_B(), "weights", (len(idx), case["c"]))
    require(np.all(np.isfinite(B)), "weights", "non-finite weights after selection")
    # and it can be used and trained further
    require(asarray(m.predict(Xv), "predict").shape == (len(Xv), case["c"]), "predict", "wrong shape")
    args, kw = sel.mode_args(case)
    m.train(X, T, *args, **kw)
    compare(f, m, Xv, case["prec"], T * 3, case["norm"], [], key="again")
    return {"tags": ["sel-" + case["sel"] + ("-OP" if case["op"] else ""), "mode-" + case["mode"], "kmax" if case["kmax"] else "no-kmax",
                     "pruned" if len(idx) < L else "all-kept"] + r["tags"]}


def big(i, n, nv, sel_, L, **kw):
    return dict({"d": 4, "c": 2, "n": n, "nv": nv, "mode": "r", "sel": sel_, "k": 3 + i % 3, "groups": [{"f": f, "n": k, "s": i + k} for f, k in L], "xk": "n", "xs": 80 + i, "ws": i,
                 "prec": "d", "norm": 0.1, "batch": 1000, "acc": None, "op": i % 2 == 0, "kmax": None, "case": "upper", "rs": 12 * i, "signal": 3.0}, **kw)


FIXED = [big(0, 400, 100, "V", [("tanh", 140)]), big(1, 500, 200, "LOO", [("tanh", 140), ("sigm", 130)]), big(2, 600, 1, "CV", [("tanh", 40), ("lin", 4), ("rbf_l2", 60)], kmax=20),
         big(3, 70001, 60000, "V", [("tanh", 5)], batch=100, mode="wc"), big(4, 3000, 10, "LOO", [("tanh", 10)], batch=2999), big(5, 300, 10, "CV", [("tanh", 280)], prec="s", norm=10),
         big(6, 300, 50, "V", [("tanh", 30)], c=12, kmax=300), big(7, 200, 60, "LOO", [("sigm", 30)], c=40, mode="c", op=True, kmax=9)]

SUBS = [Sub("select", lambda: sel.cases(), chk, lambda c: gen.total(c["groups"]) >= 3, "at least three neurons to select from",
            quick=9600, thorough=60000, shards=8, fixed=FIXED)]
