"""C03: batch size, data splits and row order do not change the trained model."""
import numpy as np
import os
from core import Sub, Violation, asarray, close, require, scratch
import gen
from gen import st, EPS, PREC


@st.composite
def cases(draw):
    d = draw(gen.wide(1, 5))
    c = draw(gen.wide(1, 4))
    n = draw(gen.rows(1, 40))
    mode = draw(st.sampled_from(["r", "r", "wc", "c"])) if c > 1 else "r"
    return {"d": d, "c": c, "n": n, "mode": mode, "groups": draw(gen.neuron_groups(maxgroups=3, maxn=4, cap=65)),
            "xk": draw(st.sampled_from(["n", "int", "shift"])), "xs": draw(gen.seeds()), "prec": draw(gen.precs()),
            "norm": draw(st.sampled_from([None, 1e-3, 0.1, 1, 10])), "batch": draw(gen.batch_of(n)),
            "how": draw(st.sampled_from(["init", "kw", "attr", "split", "split", "split-files"])),
            "cls": draw(st.sampled_from(["ELM", "HPELM"])), "acc": draw(st.sampled_from([None, None, "basic"])),
            "perm": draw(st.one_of(st.none(), gen.seeds())),
            "cuts": draw(st.lists(st.integers(1, max(1, n - 1)), max_size=4)), "ws": draw(gen.seeds())}


def targets(case):
    if case["mode"] == "r":
        return gen.make_T(case["xs"], case["n"], case["c"], case["prec"])
    return gen.onehot(gen.make_labels(case["xs"], case["n"], case["c"]), case["c"], case["prec"])


def model(case, cls, batch, via_init=True, declare=False):
    kw = {"accelerator": case["acc"]} if case["acc"] else {}
    if via_init:
        kw["batch"] = batch
    if declare and case["mode"] != "r":
        kw["classification"] = case["mode"]
        if case["mode"] == "wc":
            kw["w"] = weights(case)
    nn = gen.make_neurons(case["groups"], case["d"], case["xk"], case["prec"])
    return gen.new_model(cls, case["d"], case["c"], case["prec"], nn, norm=case["norm"], **kw)


def weights(case):
    return 0.2 + 3 * np.random.RandomState(case["ws"]).rand(case["c"])


def train_args(case):
    if case["mode"] == "wc":
        return ("wc",), {"w": weights(case)}
    return ((case["mode"],) if case["mode"] != "r" else ()), {}


def chk(case):
    p = case["prec"]
    X = gen.make_X(case["xs"], case["n"], case["d"], case["xk"], p)
    T = targets(case)
    args, kw = train_args(case)
    n = case["n"]
    # reference: one in-memory batch in the given order
    a = model(case, "ELM", n)
    a.train(X, T, *args, **kw)
    if case["perm"] is not None:
        q = np.random.RandomState(case["perm"]).permutation(n)
        X, T = X[q], T[q]
    X, T = gen.laid(X, case["xs"]), gen.laid(T, case["xs"] // 7)
    how = case["how"]
    if how in ("init", "kw", "attr"):
        m = model(case, case["cls"], case["batch"], how == "init")
        if how == "kw":
            kw = dict(kw, batch=case["batch"])
        elif how == "attr":
            m.batch = case["batch"]
        m.train(X, T, *args, **kw)
    else:
        m = model(case, "HPELM" if how == "split-files" else case["cls"], case["batch"], declare=True)
        cuts = [0] + sorted(set(k for k in case["cuts"] if k < n)) + [n]
        if how == "split":
            for s, e in zip(cuts, cuts[1:]):
                m.add_data(X[s:e], T[s:e])
        else:
            with scratch(case["xs"]) as dr:
                fX = gen.write_h5(os.path.join(dr, "x.h5"), X)
                fT = gen.write_h5(os.path.join(dr, "t.h5"), T)
                for s, e in zip(cuts, cuts[1:]):
                    m.add_data(fX, fT, istart=s, icount=e - s)
        m.nnet.solve()
    return compare(a, m, gen.make_X(case["xs"] + 1, 5, case["d"], case["xk"], p), p, T, case["norm"], [how, case["mode"]])


def compare(a, m, Z, p, T, norm, tags, key="trained"):
    """The sums must agree to rounding; the weights too when the system is well conditioned."""
    eps = EPS[p]
    n = len(T)
    HH1, HT1 = (np.asarray(v, dtype=np.float64) for v in a.nnet.get_corr())
    HH2, HT2 = a_corr(m)
    L = len(HH1)
    require(HH2.shape == HH1.shape and HT2.shape == HT1.shape, key, "wrong shapes of the accumulated sums")
    A = gen.model_amp(a, Z)
    dg = np.maximum(np.sqrt(np.abs(np.diag(HH1))), np.sqrt(n + 1) * np.sqrt(np.mean(A**2, axis=0)))
    close(key + "-HH", HH2, HH1, 20 * eps * (n + 3), scale=np.outer(dg, dg) + 1e-300)
    tn = np.linalg.norm(np.asarray(T, dtype=np.float64)) * 3  # sqrt of the largest class weight is below 3
    close(key + "-HT", HT2, HT1, 20 * eps * (n + 3), scale=(dg * tn)[:, None] + 1e-300)
    k = gen.cond(HH1)
    ok = k * eps * (L + n) < (1e-4 if p == "d" else 1e-2)
    if ok:
        Y1 = asarray(a.predict(Z), "predict")
        Y2 = asarray(m.predict(Z), "predict")
        B = np.abs(np.asarray(a.nnet.get_B(), dtype=np.float64))
        s = np.linalg.norm(HH1)
        sc = np.linalg.norm(A, axis=1)[:, None] * (np.linalg.norm(B) * max(1, np.sum(dg**2) / s) + np.linalg.norm(dg) * tn / s) + 1e-300
        close(key + "-predictions", Y2, Y1, 20 * eps * (L + n) * k, scale=sc)
    return {"tags": tags + ["well" if ok else "ill", "prec-" + p]}


def a_corr(m):
    HH, HT = m.nnet.get_corr()
    return asarray(HH, "get_corr"), asarray(HT, "get_corr")


def big(i, n, batch, L, **kw):
    return dict({"d": 3, "c": 2, "n": n, "mode": "r", "groups": [{"f": f, "n": k, "s": i + k} for f, k in L], "xk": "n", "xs": 20 + i, "prec": "d", "norm": 1,
                 "batch": batch, "how": "kw", "cls": "ELM", "acc": None, "perm": i, "cuts": [], "ws": i}, **kw)


FIXED = [big(0, 70001, 65536, [("tanh", 4)]), big(1, 70001, 4001, [("sigm", 4)], cls="HPELM", mode="wc"), big(2, 900, 100, [("tanh", 300)]),
         big(3, 100003, 50000, [("lin", 2)], how="split-files", cls="HPELM", cuts=[65537], c=1), big(4, 33000, 32769, [("rbf_l2", 5)], acc="basic"),
         big(5, 600, 599, [("tanh", 260)], cls="HPELM", how="split", cuts=[3, 300], prec="s"), big(7, 4001, 4000, [("tanh", 3)], cls="HPELM", how="init", perm=None),
         big(8, 8193, 4096, [("lin", 2)], how="init", mode="wc"), big(9, 20002, 20001, [("rbf_linf", 3)], how="attr", cls="HPELM", mode="wc"), big(10, 100001, 50000, [("sigm", 3)], how="attr", cls="HPELM"),
         big(11, 2049, 2048, [("tanh", 3)], cls="HPELM", how="split-files", cuts=[1]), big(12, 9002, 3001, [("tanh", 3)], how="attr"), big(6, 300, 1, [("tanh", 20)], cls="HPELM", mode="c")]
FIXED += [big(20 + i, 2 * nb - i % 2, 2, [("tanh", 4)], cls=("HPELM", "ELM")[i % 2], mode=("r", "wc")[i // 2 % 2]) for i, nb in enumerate((32, 33, 64, 65, 100, 129, 257, 513, 1001, 1025))]

SUBS = [Sub("splits", cases, chk, lambda c: c["n"] >= 3 and (c["batch"] < c["n"] or c["perm"] is not None or len(c["cuts"]) > 0),
            "at least three rows and more than one batch, part or a permutation", quick=9600, thorough=60000, shards=4, fixed=FIXED)]
