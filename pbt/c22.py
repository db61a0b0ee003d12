"""C22: validation_corr reports the validation error of each number of neurons and leaves the best model."""
import os
import numpy as np
from core import Sub, Violation, asarray, close, same, require, scratch
import gen
import ref
from gen import st, EPS, PREC


@st.composite
def cases(draw):
    mode = draw(st.sampled_from(["r", "r", "c", "wc", "ml"]))
    groups = draw(gen.neuron_groups(maxgroups=4, maxn=8, cap=65))
    L = gen.total(groups)
    how = draw(st.sampled_from(["default", "int", "int", "vector", "vector"]))
    steps = None
    if how == "int":
        steps = draw(st.integers(2, 15))
    elif how == "vector":
        steps = draw(st.lists(st.integers(1, L), min_size=1, max_size=6, unique=True))
        if draw(st.booleans()):
            steps = sorted(steps)
    return {"mode": mode, "d": draw(gen.wide(1, 4)), "c": draw(gen.wide(1 if mode == "r" else 2, 4, cap=20)), "groups": groups, "steps": steps,
            "vt": draw(st.sampled_from(["list", "array", "tuple", "int32", "float"])), "n": draw(gen.rows(2, 50, every=20)), "nv": draw(st.one_of(st.integers(1, 4), gen.rows(1, 40))),
            "prec": draw(gen.precs()), "norm": draw(st.sampled_from([1e-3, 0.1, 1, 10])), "batch": draw(st.one_of(st.integers(2, 12), st.integers(1, 400))),
            "batch2": draw(st.one_of(st.integers(1, 12), st.just(1000), st.integers(20, 1500))), "s": draw(gen.seeds()), "acc": draw(st.sampled_from([None, None, "basic"])),
            "set": draw(st.sampled_from(["init", "train"])), "src": draw(st.sampled_from(["file", "file", "arr"])), "noise": draw(st.sampled_from([0.2, 1, 5])),
            "sty": draw(st.sampled_from(gen.STORAGE)), "before": draw(st.sampled_from(["", "", "trained", "sums"]))}


def data(case, n, off):
    X = gen.make_X(case["s"] + off, n, case["d"], "n")
    H = gen.ref_H(gen.make_neurons(case["groups"], case["d"], "n", case["prec"]), X)
    r = np.random.RandomState(case["s"] + 3)
    F = H.dot(r.randn(H.shape[1], case["c"]) * (r.rand(H.shape[1], 1) < 0.5))
    F = F / (np.std(F) + 1e-9) + case["noise"] * np.random.RandomState(case["s"] + off + 9).randn(n, case["c"])
    if case["mode"] == "r":
        return X, F
    if case["mode"] == "ml":
        return X, (F > 0.3).astype(float)
    return X, gen.onehot(F.argmax(1), case["c"])


def make(case, w, batch):
    kw = {"accelerator": case["acc"]} if case["acc"] else {}
    if case["mode"] != "r" and case["set"] == "init":
        kw["classification"] = case["mode"]
        if w is not None:
            kw["w"] = w
    return gen.new_model("HPELM", case["d"], case["c"], case["prec"], gen.make_neurons(case["groups"], case["d"], "n", case["prec"]),
                         norm=case["norm"], batch=batch, **kw)


def chk(case):
    p, c, mode = case["prec"], case["c"], case["mode"]
    X, T = data(case, case["n"], 0)
    Xv, Tv = data(case, case["nv"], 1)
    w = 0.2 + 3 * np.random.RandomState(case["s"] + 1).rand(c) if mode == "wc" else None
    args = [] if mode == "r" else [mode]
    kw = {"w": w} if w is not None else {}
    with scratch(case["s"]) as dr:
        P = lambda q: os.path.join(dr, q)
        out = []
        for i, batch in enumerate((case["batch"], case["batch2"])):
            m = make(case, w, batch)
            L = m.nnet.L
            if case["set"] == "train" or case["before"] == "trained":
                m.train(X, T, *args, **kw)
            if case["before"] == "sums":
                m.add_data(X, T)
            if i == 0:
                m.add_data(X, T, fHH=P("HH"), fHT=P("HT"))
            a, t = gen.laid(Xv, case["s"] + i), gen.laid(Tv, case["s"] // 7 + i)
            if case["src"] == "file":
                a, t = gen.write_h5(P("Xv%d.h5" % i), Xv, case["sty"]), gen.write_h5(P("Tv%d.h5" % i), Tv, case["sty"])
            k = {}
            if case["steps"] is not None:
                v = case["steps"]
                if isinstance(v, list):
                    v = {"list": list, "tuple": tuple, "array": np.array, "int32": lambda q: np.array(q, dtype=np.int32), "float": lambda q: np.array(q, dtype=float)}[case["vt"]](v)
                k["steps"] = v
            res = m.validation_corr(P("HH"), P("HT"), a, t, **k)
            out.append(verify(case, m, res, gen.read_h5(P("HH")), gen.read_h5(P("HT")), Xv, Tv, w, L))
    same("batch-Ls", out[1][0], out[0][0])
    if out[0][2] and out[1][2]:
        close("batch-errors", out[1][1], out[0][1], 1e-8 if p == "d" else 1e-3, note="batch %d and %d" % (case["batch2"], case["batch"]))
    return {"tags": [mode, "clear" if out[0][2] else "near-ties", "vector" if isinstance(case["steps"], list) else "int"]}


def verify(case, m, res, HH, HT, Xv, Tv, w, L):
    p, c, mode = case["prec"], case["c"], case["mode"]
    require(len(res) == 3, "returned", "%d values" % len(res))
    Ls, errs, confs = res
    Ls = [int(v) for v in np.asarray(Ls)]
    errs = asarray(errs, "errors", (len(Ls),))
    if isinstance(case["steps"], list):
        require(Ls == case["steps"], "Ls", "%s, given %s" % (Ls, case["steps"]))
    else:
        require(all(a < b for a, b in zip(Ls, Ls[1:])) and Ls[0] >= 1 and Ls[-1] == L, "Ls", "%s of %d" % (Ls, L))
        require(len(Ls) <= (10 if case["steps"] is None else case["steps"]), "Ls", "%s for %r steps" % (Ls, case["steps"]))
    require(len(confs) == (0 if mode == "r" else len(Ls)), "confusions", "%d matrices" % len(confs))
    neurons = gen.make_neurons(case["groups"], case["d"], "n", p)
    H = gen.ref_H(neurons, Xv)
    A0 = gen.amp(neurons, Xv)
    HH, HT = HH.astype(np.float64), HT.astype(np.float64)
    eps = EPS[p]
    clear = True
    Ys = {}
    for i, l in enumerate(Ls):
        A = HH[:l, :l]
        B = np.linalg.solve(A, HT[:l])
        Y = H[:, :l].dot(B)
        Ys[l] = (B, Y)
        cnd = gen.cond(A)
        ptol = 100 * eps * (l + 5) * cnd
        e = ptol * (np.linalg.norm(H[:, :l], axis=1)[:, None] * np.linalg.norm(B, axis=0)[None, :]) + 40 * eps * A0[:, :l].dot(np.abs(B)) + 1e-12
        if mode == "r":
            want = ref.error("r", Tv, Y)
            close("error", errs[i], want, 1, scale=float(np.mean(2 * np.abs(Tv - Y) * e + e**2)) + 100 * eps * want, note="of %d neurons" % l)
            continue
        # samples whose predicted class is decided by rounding
        if mode == "ml":
            fuzzy = np.abs(Y - 0.5) <= e
        else:
            o = np.sort(Y, axis=1)
            fuzzy = o[:, -1] - o[:, -2] <= 2 * np.max(e, 1)
        C = asarray(confs[i], "confusion", (c, c))
        if np.any(fuzzy):
            clear = False
            require(np.sum(np.abs(C - ref.confusion(mode, Tv, Y))) <= 2 * c * np.sum(fuzzy), "confusion", "of %d neurons" % l)
            continue
        close("confusion", C, ref.confusion(mode, Tv, Y), 0, note="of %d neurons: %s" % (l, C.tolist()))
        close("error", errs[i], ref.error(mode, Tv, Y, w), 1e-9 if p == "d" else 1e-5, note="of %d neurons" % l)
    # the model that remains
    l = m.nnet.L
    require(l in Ls, "selected", "%d neurons remain, evaluated %s" % (l, Ls))
    require(errs[Ls.index(l)] <= np.min(errs), "selected", "%d neurons remain with error %r, best is %r of %s" % (l, errs[Ls.index(l)], np.min(errs), Ls))
    o = 0
    got = [g for g in m.nnet.get_neurons() if g[0] > 0]
    for g, (f, W, B) in zip(got, gen.ref_neurons(neurons)):
        n = min(W.shape[1], l - o)
        require(g[1] == f and g[0] == n, "remaining", "%r, expected %d %s" % (g[:2], n, f))
        same("remaining-weights", g[2], W[:, :n])
        same("remaining-biases", g[3], B[:n])
        o += n
    require(o == l, "remaining", "%d neurons in the description, %d counted" % (o, l))
    B, Y = Ys[l]
    tol = 100 * eps * (l + 5) * gen.cond(HH[:l, :l])
    if tol < 0.05:
        close("remaining-solution", m.nnet.get_B(), B, tol + 4 * eps, scale=(np.linalg.norm(B, axis=0) + 1e-300)[None, :])
        close("remaining-prediction", m.predict(Xv), Y, tol + 40 * eps, scale=np.linalg.norm(A0[:, :l], axis=1)[:, None] * (np.linalg.norm(B, axis=0) + 1e-300)[None, :] + 1e-12)
    return Ls, errs, clear


def big(i, n, nv, L, **kw):
    return dict({"mode": "r", "d": 3, "c": 2, "groups": [{"f": f, "n": k, "s": i + k} for f, k in L], "steps": None, "vt": "list", "n": n, "nv": nv, "prec": "d", "norm": 1,
                 "batch": 1000, "batch2": 77, "s": 90 + i, "acc": None, "set": "init", "src": "file", "noise": 1, "sty": "carray", "before": ""}, **kw)


FIXED = [big(0, 500, 300, [("tanh", 150), ("lin", 3), ("sigm", 150)], steps=20), big(1, 300, 33001, [("tanh", 6)], batch=32769, batch2=1500), big(2, 200, 70001, [("tanh", 4)], batch=70001, batch2=65536, mode="c"),
         big(3, 300, 5003, [("rbf_l2", 20)], mode="wc", c=11), big(4, 400, 60, [("tanh", 270)], steps=[1, 2, 100, 256, 257, 270], prec="s", norm=10), big(5, 90, 2003, [("sigm", 12)], mode="ml", steps=12),
         big(6, 70001, 30, [("tanh", 9)], before="sums"), big(7, 100, 300, [("tanh", 30)], c=60, steps=30)]

SUBS = [Sub("validation", cases, chk, lambda c: gen.total(c["groups"]) >= 4 and c["nv"] >= 2, "at least four neurons and two validation samples",
            quick=5400, thorough=60000, shards=8, fixed=FIXED)]
