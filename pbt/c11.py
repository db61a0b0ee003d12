"""C11: class weights act as per-class sample multiplicities."""
import os
import numpy as np
from core import Sub, Violation, asarray, close, require, scratch
import gen
import sel
from c03 import compare
from gen import st, EPS, PREC

ROUTES = ("train", "train", "add", "hp-train", "hp-files", "hp-window", "hp-async", "hp-add", "hp-parts", "hp-parts", "loaded")


@st.composite
def cases(draw):
    d = draw(gen.wide(1, 4))
    c = draw(gen.wide(2, 4))
    n = draw(gen.rows(2, 30, every=6))
    auto = draw(st.booleans())
    return {"d": d, "c": c, "n": n, "auto": auto,
            "w": draw(st.lists(st.integers(0 if draw(st.booleans()) else 1, 6), min_size=c, max_size=c)),
            "tt": draw(st.sampled_from(["prec", "prec", "int64", "float32", "bool", "int8", "uint8", "float16"])),
            "wt": draw(st.sampled_from(["list", "tuple", "int", "float", "float32"])),
            "groups": draw(gen.neuron_groups(maxgroups=3, maxn=3, cap=33, every=25)), "xk": draw(st.sampled_from(["n", "int", "shift"])),
            "xs": draw(gen.seeds()), "prec": draw(gen.precs()), "norm": draw(st.sampled_from([None, 1e-3, 0.1, 1, 10])),
            "batch": draw(gen.batch_of(n)), "route": draw(st.sampled_from(ROUTES)),
            "acc": draw(st.sampled_from([None, None, "basic"])), "cuts": draw(st.lists(st.integers(1, max(1, n - 1)), max_size=3)),
            "win": [draw(st.integers(0, n - 1)), draw(st.integers(1, n + 3))], "upper": draw(st.booleans())}


def wtype(w, t):
    return {"list": list, "tuple": tuple, "int": lambda v: np.array(v), "float": lambda v: np.array(v, dtype=float),
            "float32": lambda v: np.array(v, dtype=np.float32)}[t](w)


def p_dtype(p):
    return PREC[p]


def chk(case):
    with scratch(case["xs"]) as dr:
        return run(case, dr)


def run(case, dr):
    p, c, n, route = case["prec"], case["c"], case["n"], case["route"]
    X = gen.make_X(case["xs"], n, case["d"], case["xk"], p)
    T = gen.onehot(gen.make_labels(case["xs"], n, c, every=case["auto"]), c, p)
    nn = gen.make_neurons(case["groups"], case["d"], case["xk"], p)
    kw = {"accelerator": case["acc"]} if case["acc"] else {}
    s, e = 0, n
    if route == "hp-window":
        s, e = case["win"][0], min(n, case["win"][0] + case["win"][1])
    Xw, Tw = X[s:e], T[s:e]
    if case["auto"]:
        ns = Tw.astype(np.float64).sum(0)
        if np.any(ns == 0):
            return {"nt": False}
        # weights N/n_c: multiply by lcm to get integer multiplicities and the regularisation alike
        q = float(np.lcm.reduce([int(v) for v in ns]))
        w = ns.sum() / ns
        div = 1.0
        if q * w.max() <= 3000 and len(Xw) <= 300:
            w = np.round(q * w).astype(int)
            div = q
    else:
        w, div = np.array(case["w"]), 1.0
    if w.sum() == 0:
        return {"nt": False}
    T = T.astype(p_dtype(p) if case["tt"] == "prec" else case["tt"])
    # reference: unweighted training on repeated rows (with the regularisation scaled accordingly)
    norm = gen.default_norm(p) if case["norm"] is None else case["norm"]
    if w.dtype.kind == "i":
        rep = np.repeat(np.arange(len(Xw)), w[np.argmax(Tw, 1)])
        if len(rep) == 0:
            return {"nt": False}
        a = gen.new_model("ELM", case["d"], c, p, nn, norm=norm * div, batch=100000)
        a.train(Xw[rep], Tw[rep], "c")
    else:    # too many repetitions: multiplicities written into the sums
        a = gen.new_model("ELM", case["d"], c, p, nn, norm=norm)
        Hw = gen.ref_H(nn, Xw)
        B, HH, HT = gen.solve_ref(Hw, Tw, norm, w[np.argmax(Tw, 1)])
        a.nnet.set_corr(HH.astype(PREC[p]), HT.astype(PREC[p]))
        a.nnet.set_B(B.astype(PREC[p]))
    X, T = gen.laid(X, case["xs"]), gen.laid(T, case["xs"] // 7)
    wk = {} if case["auto"] else {"w": wtype(case["w"], case["wt"])}
    name = "WC" if case["upper"] else "wc"

    def model(cls, cl=""):
        return gen.new_model(cls, case["d"], c, p, nn, norm=case["norm"], batch=case["batch"], classification=cl,
                             **dict(kw, **(wk if cl else {})))
    if route == "train":
        m = model("ELM")
        m.train(X, T, name, **wk)
    elif route == "add":
        m = model("ELM", name)
        cuts = [0, n] if case["auto"] else [0] + sorted(set(k for k in case["cuts"] if k < n)) + [n]
        for u, v in zip(cuts, cuts[1:]):
            m.add_data(X[u:v], T[u:v])
        m.nnet.solve()
    elif route == "loaded":
        m = model("ELM")
        m.loads(model("ELM", name).dumps())
        m.add_data(X, T)
        m.nnet.solve()
    else:
        fX, fT = os.path.join(dr, "x.h5"), os.path.join(dr, "t.h5")
        if route != "hp-train":
            gen.write_h5(fX, X)
            gen.write_h5(fT, T)
        if route == "hp-train":
            m = model("HPELM")
            m.train(X, T, name, **wk)
        elif route == "hp-files":
            m = model("HPELM")
            m.train(fX, fT, name, **wk)
        elif route == "hp-window":
            m = model("HPELM")
            m.train(fX, fT, name, istart=case["win"][0], icount=case["win"][1], **wk)
        elif route == "hp-async":
            m = model("HPELM")
            m.train_async(fX, fT, name, **wk)
        elif route == "hp-add":
            m = model("HPELM", name)
            m.add_data(fX, fT)
            m.nnet.solve()
        else:   # parts on disk by separate models (one part when the weights are automatic)
            files = os.path.join(dr, "HH.h5"), os.path.join(dr, "HT.h5")
            cuts = [0, n] if case["auto"] else [0] + sorted(set(k for k in case["cuts"] if k < n)) + [n]
            for u, v in zip(cuts, cuts[1:]):
                m = model("HPELM", name)
                if u % 2:
                    m.add_data_async(fX, fT, istart=u, icount=v - u, fHH=files[0], fHT=files[1])
                else:
                    m.add_data(X[u:v], T[u:v], fHH=files[0], fHT=files[1])
            m = model("HPELM")
            m.nnet.set_corr(gen.read_h5(files[0]), gen.read_h5(files[1]))
            m.nnet.solve()
    return same(case, a, m, p, Tw, w, div, [route, "auto" if case["auto"] else "given", "prec-" + p])


def same(case, a, m, p, T, w, div, tags):
    eps = EPS[p]
    HH1, HT1 = (np.asarray(v, dtype=np.float64) / div for v in a.nnet.get_corr())
    HH2, HT2 = (asarray(v, "get_corr", u.shape) for v, u in zip(m.nnet.get_corr(), (HH1, HT1)))
    Z = gen.make_X(case["xs"] + 1, 5, case["d"], case["xk"], p)
    A = gen.model_amp(a, Z)
    dg = np.maximum(np.sqrt(np.abs(np.diag(HH1))), np.sqrt(len(T) * np.mean(A**2, axis=0))) + 1e-300
    ww = w[np.argmax(T, 1)] / div
    tn = np.sqrt(ww.sum()) + 1e-300
    if case.get("wt") == "float32" and not case["auto"]:   # their square roots are taken in single precision
        eps = EPS["s"]
    k = 20 * eps * (len(T) + 10)
    if p == "s":   # the reference sums up to thousands of equal rows in single precision
        k *= 5
    close("weighted-HH", HH2, HH1, k, scale=np.outer(dg, dg))
    close("weighted-HT", HT2, HT1, k, scale=(dg * tn)[:, None])
    cnd = gen.cond(HH1)
    well = cnd * eps * (len(HH1) + len(T)) < (1e-4 if p == "d" else 1e-2)
    if well:
        B = asarray(a.nnet.get_B(), "weights")
        s = np.linalg.norm(HH1)
        sc = np.linalg.norm(A, axis=1)[:, None] * (np.linalg.norm(B) * max(1, np.sum(dg**2) / s) + np.linalg.norm(dg) * tn / s) + 1e-300
        close("weighted-predictions", asarray(m.predict(Z), "predict"), asarray(a.predict(Z), "predict"), k * cnd, scale=sc)
    return {"tags": tags + ["well" if well else "ill"]}


# ---------------------------------------------------------------- after structure selection

def chk_sel(case):
    m, (X, T), _, _ = sel.select(case)
    p, c = case["prec"], case["c"]
    kept, L = sel.kept(case, m)
    w = sel.wvec(case, T)
    H = gen.ref_H([(n, f, W, B) for n, f, W, B in m.nnet.get_neurons() if n > 0], X)
    norm = gen.default_norm(p) if case["norm"] is None else case["norm"]
    ww = w[np.argmax(T, 1)]
    B, HH, HT = gen.solve_ref(H, T, norm, ww)
    cnd = gen.cond(HH)
    eps = EPS[p]
    if cnd * eps * (len(HH) + len(T)) > (1e-5 if p == "d" else 1e-3):
        return {"nt": False, "tags": ["ill"]}
    got = asarray(m.nnet.get_B(), "weights", B.shape)
    sc = np.linalg.norm(B) + np.sqrt(ww.sum() / np.linalg.norm(HH, 2))
    close("selected-weights", got, B, 100 * eps * (len(HH) + len(T)) * cnd, scale=sc + 1e-300)
    return {"tags": ["sel-" + case["sel"], "mode-" + case["mode"]]}


def big(i, n, L, route, **kw):
    return dict({"d": 2, "c": 2, "n": n, "auto": False, "w": [0, 3, 1, 2][i % 2:][:2], "tt": "prec", "wt": "list", "groups": [{"f": f, "n": k, "s": i + k} for f, k in L], "xk": "n",
                 "xs": 700 + i, "prec": "d", "norm": 1, "batch": 1000, "route": route, "acc": None, "cuts": [n // 3, n // 2], "win": [0, n], "upper": i % 2 == 0}, **kw)


FIXED = [big(0, 40001, [("tanh", 4)], "train"), big(1, 33000, [("lin", 2)], "hp-files", batch=32769), big(2, 70001, [("sigm", 3)], "hp-async", auto=True),
         big(3, 500, [("tanh", 270)], "hp-parts", c=3, w=[1, 2, 3]), big(4, 600, [("tanh", 260)], "add", norm=10), big(5, 2000, [("rbf_l2", 6)], "hp-window", win=[500, 1200], c=12, w=list(range(1, 13))),
         big(6, 3000, [("tanh", 5)], "hp-train", auto=True, c=40, w=[1] * 40), big(7, 66001, [("tanh", 3)], "hp-window", win=[66, 65600], tt="int8", auto=True)] + [
    big(8 + i, n, [("tanh", 3)], route, tt=tt, auto=True, batch=b) for i, (route, tt, n, b) in enumerate([("train", "float16", 9001, 1000), ("hp-files", "float16", 9001, 9001),
    ("hp-async", "float16", 9001, 7000), ("hp-train", "uint8", 900, 900), ("add", "bool", 900, 300), ("hp-add", "float32", 900, 400), ("hp-window", "float16", 9001, 5000), ("hp-parts", "float16", 5001, 5001)])]

SUBS = [Sub("multiplicity", cases, chk, lambda c: c["n"] >= 3 and (c["auto"] or len(set(c["w"])) > 1),
            "at least three rows and different class weights", quick=6000, thorough=50000, shards=6, fixed=FIXED),
        Sub("selection", lambda: sel.cases(norms=(1e-3, 0.1, 1, 10), modes=("wc", "wa")), chk_sel, lambda c: gen.total(c["groups"]) >= 3,
            "at least three neurons", quick=1440, thorough=30000, shards=2)]
