"""C24: the GPU solver's host logic, on a numpy stand-in of the device libraries, agrees with the CPU solver through every operation."""
import os
import numpy as np
import gpustub
from core import Sub, Violation, asarray, close, same, require, scratch
import c15
import gen
from gen import st, EPS, PREC
from c02 import layout, scale_of

gpustub.install()
ACCS = (("ELM", "GPU"), ("ELM", None), ("HPELM", "GPU"))
ASSUMPTIONS = ["pycuda and scikit-cuda are replaced by a numpy stand-in (pbt/gpustub.py) that follows their documented semantics"]


def inconclusive(f):
    def check(case):
        try:
            return f(case)
        except gpustub.Unsupported as e:
            return {"nt": False, "tags": ["stand-in does not cover: %s" % e]}
    return check


@inconclusive
def chk(case):
    with scratch() as dr:
        return c15.run(case, dr, ACCS)


# ---------------------------------------------------------------- through the model: layouts, types, classification, selection

@st.composite
def mcases(draw):
    c = draw(gen.wide(1, 4))
    return {"d": draw(gen.wide(1, 5)), "c": c, "n": max(draw(gen.rows(6, 40, every=20, cap=1100)), 2 * c), "prec": draw(st.sampled_from(["d", "s"])), "s": draw(gen.seeds()),
            "norm": draw(st.sampled_from([0.1, 1, 10])), "batch": draw(st.integers(1, 45)), "groups": draw(gen.neuron_groups(maxgroups=4, maxn=8, cap=65, every=30)),
            "lay": draw(st.sampled_from(["C", "F", "strided", "reversed", "transposed"])), "wlay": draw(st.sampled_from(["C", "F", "transposed"])),
            "dt": draw(st.sampled_from(["float64", "float32", "int64", "int8"])), "mode": draw(st.sampled_from(["r", "c", "wc", "wa", "ml"])) if c > 1 else "r",
            "sel": draw(st.sampled_from(["", "", "", "V", "CV", "LOO"])), "cls": draw(st.sampled_from(["ELM", "HPELM"])), "after": draw(st.sampled_from(["", "load", "again", "set"])),
            "dflt": draw(st.booleans())}


@inconclusive
def mchk(case):
    p, d, c, n = case["prec"], case["d"], case["c"], case["n"]
    X = gen.make_X(case["s"], n, d, "int" if "int" in case["dt"] else "n")
    X = layout(X.astype(case["dt"]), case["lay"])
    if case["mode"] == "r":
        T = gen.make_T(case["s"], n, c)
    elif case["mode"] == "ml":
        T = gen.make_multilabel(case["s"], n, c)
    else:
        T = gen.onehot(gen.make_labels(case["s"], n, c, every=True), c)
    T = layout(T.astype(PREC[p]), case["lay"])
    neurons = [(k, f, layout(W, case["wlay"]), B) for k, f, W, B in gen.make_neurons(case["groups"], d, "n", p)]
    ms = []
    for acc in ("GPU", None):
        kw = {"accelerator": acc} if acc else {}
        m = gen.new_model(case["cls"], d, c, p, norm=case["norm"], batch=case["batch"], **kw)
        if case["dflt"]:     # default weights are the same for the same random numbers
            np.random.seed(case["s"])
            for k, f, _, _ in neurons:
                m.add_neurons(k, f)
        else:
            for g in neurons:
                m.add_neurons(*g)
        ms.append(m)
    g, m = ms
    args = [] if case["mode"] == "r" else ["wc" if case["mode"] == "wa" else case["mode"]]
    kw = {}
    if case["mode"] == "wc":
        kw["w"] = 0.2 + np.random.RandomState(case["s"]).rand(c)
    sel = case["sel"] if case["cls"] == "ELM" else ""
    if sel:
        args.append(sel)
    if sel == "V":
        kw.update(Xv=X[:5], Tv=T[:5])
    if sel == "CV":
        kw["k"] = 3
    out = []
    for q in ms:
        np.random.seed(case["s"])
        out.append(q.train(X, T, *args, **kw))
    if case["after"] == "load":
        g.loads(m.dumps())
    elif case["after"] == "set" and not sel:
        B = np.asfortranarray(np.array(m.nnet.get_B()))
        HH, HT = (np.asfortranarray(v) for v in m.nnet.get_corr())
        g.nnet.set_corr(HH, HT)
        for q in ms:
            q.add_data(X, T)
            q.nnet.solve()
        if case["s"] % 2:
            g.nnet.set_B(B)
            m.nnet.set_B(B)
    elif case["after"] == "again":
        for q in ms:
            np.random.seed(case["s"])
            q.train(X, T, *args, **kw)
    Lg, Lm = g.nnet.L, m.nnet.L
    tags = [case["mode"], sel or "basic", "prec-" + p]
    if sel and p == "s" and Lg != Lm:     # rounding may decide between two numbers of neurons
        return {"nt": False, "tags": tags + ["selection differs in single precision"]}
    nn = [(k, f, np.asarray(W, dtype=float), np.asarray(b, dtype=float)) for k, f, W, b in m.nnet.get_neurons() if k > 0]
    got = [(k, f, W, b) for k, f, W, b in g.nnet.get_neurons() if k > 0]
    require([(v[0], v[1]) for v in got] == [(v[0], v[1]) for v in nn], "neurons", "%s, CPU %s" % ([v[:2] for v in got], [v[:2] for v in nn]))
    for a, b in zip(got, nn):
        same("neuron-weights", a[2], b[2])
        same("neuron-biases", a[3], b[3])
    H = gen.ref_H(nn, X)
    sc = scale_of(nn, np.asarray(X, dtype=float))
    close("project", g.project(X), H, 40 * EPS[p] * (d + 3), scale=sc)
    k = gen.cond(H.T.dot(H) + case["norm"] * np.eye(H.shape[1])) * 100 * EPS[p] * (H.shape[1] + n) * float(np.max(sc) / (np.max(np.abs(H)) + 1e-300))
    if k > 0.05 or (sel and p == "s"):
        return {"nt": False, "tags": tags + ["ill-conditioned"]}
    B = np.asarray(m.nnet.get_B(), dtype=float)
    bs = np.linalg.norm(B, axis=0)[None, :] + np.linalg.norm(np.asarray(T, dtype=float)) / np.sqrt(np.linalg.norm(H.T.dot(H), 2) + case["norm"])
    close("weights", g.nnet.get_B(), B, k, scale=bs)
    close("predict", g.predict(X), m.predict(X), k + 40 * EPS[p], scale=np.linalg.norm(sc, axis=1)[:, None] * bs + 1e-12)
    require(g.predict(X).dtype == PREC[p], "dtype", str(g.predict(X).dtype))
    if out[0] is not None and p == "d":
        close("returned", out[0], out[1], 1e-6)
    return {"tags": tags}


SUBS = [
    Sub("history", lambda: c15.cases(), chk, lambda c: sum(o["k"] in ("solve", "setcorr", "merge", "prune", "load", "disk") for o in c["ops"]) >= 2,
        "at least two operations that change the state of the solver", quick=6000, thorough=80000, shards=5, fixed=c15.FIXED),
    Sub("model", mcases, mchk, lambda c: True, "well-conditioned problems", quick=3600, thorough=40000, shards=3),
]
