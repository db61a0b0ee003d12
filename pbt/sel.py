"""Structure selection: cases, training and identification of the kept neurons (shared by C11, C12, C13)."""
import numpy as np
from core import require, Violation, asarray
import gen
import ref
from gen import st, EPS, PREC


@st.composite
def cases(draw, norms=(None, 1e-6, 1e-3, 0.1, 1, 10), precs=("d", "d", "d", "s"), modes=("r", "r", "c", "wc", "wa", "ml"), sels=("V", "CV", "LOO"),
          maxgroups=3, maxn=8):
    d = draw(gen.wide(1, 5))
    mode = draw(st.sampled_from(modes))
    c = draw(st.sampled_from([1, 2, 3, 4, 10, 11])) if mode == "r" else draw(gen.wide(2, 4, cap=20))
    sel = draw(st.sampled_from(sels))
    groups = draw(gen.neuron_groups(maxgroups=maxgroups, maxn=maxn, cap=33, every=60))
    L = gen.total(groups)
    k = draw(gen.wide(3, 7, cap=20))
    n = draw(gen.rows(2 * k, 60, every=20, cap=1100))
    n = n if mode == "r" else max(n, 2 * c)
    op = draw(st.booleans())
    return {"d": d, "c": c, "n": n, "nv": draw(gen.rows(2, 40, every=20)), "mode": mode, "sel": sel, "k": k, "groups": groups,
            "xk": draw(st.sampled_from(["n", "n", "int", "shift"])), "xs": draw(gen.seeds()), "ws": draw(gen.seeds()),
            "prec": draw(st.sampled_from(precs)), "norm": draw(st.sampled_from(norms)), "batch": draw(st.one_of(gen.batch_of(n), st.integers(5, 70))),
            "acc": draw(st.sampled_from([None, None, "basic"])), "op": op,
            "kmax": draw(st.one_of(st.none(), st.integers(1, L + 2))) if op else None,
            "case": draw(st.sampled_from(["upper", "lower", "mixed"])), "rs": draw(gen.seeds()),
            "signal": draw(st.sampled_from([0.0, 0.5, 3.0, 20.0]))}


def neurons(case):
    return gen.make_neurons(case["groups"], case["d"], case["xk"], case["prec"])


def data(case, n, off=0):
    """Inputs and targets that depend on a few of the neurons, plus noise."""
    X = gen.make_X(case["xs"] + off, n, case["d"], case["xk"])
    H = gen.ref_H(neurons(case), X)
    r = np.random.RandomState(case["xs"] + 17)
    G = r.randn(H.shape[1], case["c"]) * (r.rand(H.shape[1], 1) < 0.4)
    F = H.dot(G)
    F = F / (np.std(F) + 1e-9) * case["signal"] + np.random.RandomState(case["xs"] + off + 31).randn(n, case["c"])
    if case["mode"] == "r":
        return X, F
    if case["mode"] == "ml":
        return X, (F > 0.2).astype(float)
    y = F.argmax(1)
    if off == 0 and n >= case["c"]:    # training data: every class occurs
        y[np.random.RandomState(case["xs"] + 5).permutation(n)[:case["c"]]] = np.arange(case["c"])
    return X, gen.onehot(y, case["c"])


def weights(case):
    return 0.2 + 3 * np.random.RandomState(case["ws"]).rand(case["c"])


def letters(case, s):
    return {"upper": s.upper(), "lower": s.lower(), "mixed": s.capitalize()}[case["case"]]


def build(case):
    kw = {"accelerator": case["acc"]} if case["acc"] else {}
    return gen.new_model("ELM", case["d"], case["c"], case["prec"], neurons(case), norm=case["norm"], batch=case["batch"], **kw)


def mode_args(case):
    args, kw = [], {}
    if case["mode"] != "r":
        args.append(letters(case, "wc" if case["mode"] == "wa" else case["mode"]))
    if case["mode"] == "wc":
        kw["w"] = weights(case)
    return args, kw


def select(case):
    """Trains with selection; returns model, (X, T), (Xv, Tv), returned value."""
    p = PREC[case["prec"]]
    X, T = data(case, case["n"])
    Xv, Tv = data(case, case["nv"], off=1)
    X, T, Xv, Tv = (A.astype(p) for A in (X, T, Xv, Tv))
    if case["mode"] != "r" and case["rs"] % 3 == 0:      # class indicators of other types
        T, Tv = (A.astype(("bool", "int8", "int64", "uint8")[case["rs"] // 3 % 4]) for A in (T, Tv))
    if case["mode"] == "r" and case["rs"] % 5 == 0:      # integer targets, or of low precision
        T, Tv = (gen.as_type(A * 8, ("int8", "int64", "int16", "float16", "float32")[case["rs"] // 5 % 5]) for A in (T, Tv))
    k = case["rs"] // 12
    X, T, Xv, Tv = (gen.laid(A, k // 3**i) for i, A in enumerate((X, T, Xv, Tv)))
    if case["c"] == 1 and k % 2:
        T, Tv = T[:, 0], Tv[:, 0]
    m = build(case)
    args, kw = mode_args(case)
    args.append(letters(case, case["sel"]))
    if case["op"]:
        args.append(letters(case, "OP"))
        if case["kmax"] is not None:
            kw["kmax"] = case["kmax"]
    if case["sel"] == "V":
        kw.update(Xv=Xv, Tv=Tv)
    if case["sel"] == "CV":
        kw["k"] = case["k"]
    np.random.seed(case["rs"] % 2**31)
    r = np.random.RandomState(case["rs"])
    if case["d"] == 1 and k % 3 == 0:
        e = m.train(X[:, 0], T, *[args[i] for i in r.permutation(len(args))], **dict(kw, **({"Xv": Xv[:, 0]} if "Xv" in kw else {})))
    else:
        e = m.train(X, T, *[args[i] for i in r.permutation(len(args))], **kw)
    T, Tv = (A.astype(p).reshape(len(A), -1) for A in (T, Tv))
    return m, (X, T), (Xv, Tv), e


def kept(case, m):
    """Indices of the kept neurons (columns of the original hidden representation)."""
    orig = []
    for f, W, B in gen.ref_neurons(neurons(case)):
        for j in range(W.shape[1]):
            orig.append((f, W[:, j], B[j]))
    used, out = set(), []
    L = 0
    for n, f, W, B in m.nnet.get_neurons():
        W, B = np.asarray(W), np.asarray(B)
        require(W.shape == (case["d"], n) and B.shape == (n,), "neurons", "group of %d neurons with W %s, B %s" % (n, W.shape, B.shape))
        for j in range(n):
            L += 1
            for i, (f0, w0, b0) in enumerate(orig):
                if i not in used and f0 == f and np.array_equal(w0, W[:, j]) and b0 == B[j]:
                    used.add(i)
                    out.append(i)
                    break
            else:
                raise Violation("neurons", "neuron %d (%s) is not an unused original one" % (L - 1, f))
    require(m.nnet.L == L, "neurons", "%d neurons counted, %d found" % (m.nnet.L, L))
    return out, len(orig)


def wvec(case, T):
    """Class weights in effect, None for other modes."""
    if case["mode"] == "wc":
        return weights(case)
    if case["mode"] == "wa":
        ns = np.asarray(T, dtype=np.float64).sum(0)
        return ns.sum() / ns
    return None


def retrained(case, m, X, T):
    """A fresh model with the kept neurons, trained on the whole training set."""
    kw = {"accelerator": case["acc"]} if case["acc"] else {}
    nn = [(n, f, np.array(W), np.array(B)) for n, f, W, B in m.nnet.get_neurons() if n > 0]
    f = gen.new_model("ELM", case["d"], case["c"], case["prec"], nn, norm=case["norm"], **kw)
    args, k = mode_args(case)
    f.train(X, T, *args, **k)
    return f
