"""C02: the hidden representation computes the documented neuron functions."""
import numpy as np
from core import Sub, Violation, asarray, close, require
import gen
from gen import st, EPS, PREC, RBF, LAYOUTS, layout

# custom functions made from Python functions; two of them have the same name
PY = {"py_softsign": np.frompyfunc(lambda z: z / (1 + abs(z)), 1, 1), "py_scaled": np.frompyfunc(lambda z: 3 * z - 1, 1, 1)}


def ufunc(name):
    return PY[name] if name in PY else np.tanh if name == "np_tanh" else getattr(np, name)


UFUNCS = ("sin", "arctan", "cos", "absolute", "square", "negative", "np_tanh", "py_softsign", "py_scaled")
DTYPES = ("float64", "float64", "float32", "float16", "int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64", "bool", ">f8", ">f4", ">i2")


@st.composite
def cases(draw):
    d = draw(gen.wide(1, 7, cap=130))
    groups = draw(gen.neuron_groups(maxgroups=5, maxn=5, types=gen.STD + UFUNCS, cap=130))
    for g in groups:
        g["ws"] = draw(st.sampled_from([1.0, 1.0, 1.0, 0.01, 10.0, 100.0]))
        g["np_int"] = False
        g["sc"] = draw(st.sampled_from([None, None, None, 1e-4, 1e-9, 1e-13]))
    return {"d": d, "n": draw(gen.rows(1, 20)), "groups": groups, "xs": draw(gen.seeds()),
            "xk": draw(st.sampled_from(["n", "shift", "int", "small", "big", "huge", "ones"])),
            "dt": draw(st.sampled_from(DTYPES)), "lay": draw(st.sampled_from(LAYOUTS)), "prec": draw(gen.precs()),
            "acc": draw(st.sampled_from([None, "basic"])), "cls": draw(st.sampled_from(["ELM", "ELM", "HPELM"])),
            "flat": draw(st.booleans()), "batch": draw(gen.batches()), "perm": draw(gen.seeds()),
            "trained": draw(st.booleans())}


def typed(X, dt):
    if dt == "bool":
        return X > 0
    if np.dtype(dt).kind in "iu":
        top = min(np.iinfo(dt).max, 2.0**40) - 0.5
        X = np.round(np.clip(X, -top, top))
        return (np.abs(X) if dt[0] == "u" else X).astype(dt)
    if dt == "float16":
        X = np.clip(X, -6e4, 6e4)
    return X.astype(dt)


def data(case, n, off=0):
    X = gen.make_X(case["xs"] + off, n, case["d"], case["xk"])
    return typed(X, case["dt"])


def build(case):
    p = case["prec"]
    kw = {"accelerator": case["acc"]} if case["acc"] else {}
    m = gen.new_model(case["cls"], case["d"], 1, p, batch=case["batch"], **kw)
    neurons = []
    for g in case["groups"]:
        n, f, W, B = gen.make_group(g, case["d"], case["xk"], p)
        if f in RBF:
            B = B * PREC[p](g["ws"])
        else:
            W = W * PREC[p](g["ws"])
        if f in UFUNCS:
            f = ufunc(f)
        neurons.append((n, f, W, B))
        m.add_neurons(n, f, W.copy(), B.copy())
    return m, neurons


def scale_of(neurons, X):
    """Rounding amplification per entry: |x||w|+|b| for the projections, plus one unless a zero stays zero, 1 for the radial types."""
    out = []
    for f, W, B in gen.ref_neurons(neurons):
        if isinstance(f, str) and f in RBF:
            out.append(np.ones((len(X), W.shape[1])))
        else:
            one = 1e-30 if f in ("lin", "tanh") or f in (np.sin, np.arctan, np.absolute, np.negative, np.tanh) else 1
            out.append(np.abs(X).dot(np.abs(W.astype(float))) + np.abs(B.astype(float)) + one)
            if f is np.square:
                out[-1] = out[-1]**2
            if f is PY["py_scaled"]:
                out[-1] = out[-1] * 4
    return np.hstack(out)


def chk(case):
    m, neurons = build(case)
    p = case["prec"]
    X0 = data(case, case["n"])
    X = layout(X0, case["lay"])
    if case["flat"] and case["d"] == 1:
        X = X[:, 0]
    if case["trained"]:
        m.train(X0.astype(PREC[p]), np.ones(len(X0)))
    H = asarray(m.project(X), "project")
    Xf = X0.astype(np.float64)
    want = gen.ref_H(neurons, Xf)
    # float16 is a declared exception: products of half precision inputs may be rounded at the model's precision only
    eps = EPS[p]
    sc = scale_of(neurons, Xf)
    tol = 30 * eps * (case["d"] + 3)
    close("formula", H, want, tol, scale=sc, note="(project)")
    # row locality: any selection of rows in any order gives the same rows
    r = np.random.RandomState(case["perm"])
    idx = r.randint(0, case["n"], 1 + r.randint(case["n"]))
    H2 = asarray(m.project(X0[idx]), "project")
    close("row-locality", H2, H[idx], 2 * tol, scale=sc[idx])
    tags = ["dt-" + case["dt"]] + sorted(set("f-" + g["f"] for g in case["groups"]))
    return {"tags": tags}


def product():
    """Every neuron function with every type of input data, at both precisions; two functions per model."""
    out, k = [], 0
    types = gen.STD + UFUNCS
    for i, f in enumerate(types):
        for dt in sorted(set(DTYPES)):
            for p in "ds":
                k += 1
                g = [{"f": f, "n": 1 + k % 3, "s": k, "ws": 1.0, "np_int": False, "sc": [None, None, 1e-9][k % 3]},
                     {"f": types[(i + 1 + k % (len(types) - 1)) % len(types)], "n": 2, "s": k + 1, "ws": [1.0, 0.01, 10.0][k % 3], "np_int": False}]
                out.append({"d": 1 + k % 4, "n": 2 + k % 9, "groups": g[::1 if k % 2 else -1], "xs": k, "xk": "shift" if k % 5 else "huge" if k % 2 else "n", "dt": dt, "lay": LAYOUTS[k % len(LAYOUTS)],
                            "prec": p, "acc": [None, "basic"][k // 2 % 2], "cls": ["ELM", "HPELM"][k // 4 % 2], "flat": True, "batch": 1 + k % 12,
                            "perm": k, "trained": k % 7 == 0})
    return out


def big(i, n, d, L, **kw):
    return dict({"d": d, "n": n, "groups": [{"f": f, "n": k, "s": i + k, "ws": 1.0, "np_int": False} for f, k in L], "xs": i, "xk": "n", "dt": "float64", "lay": "C",
                 "prec": "d", "acc": None, "cls": "ELM", "flat": True, "batch": 1000, "perm": i, "trained": False}, **kw)


FIXED = [big(0, 100003, 1, [("tanh", 2), ("rbf_l2", 1)]), big(1, 70001, 2, [("sigm", 3)], cls="HPELM", batch=65537), big(2, 40, 400, [("tanh", 300), ("rbf_l1", 40)]),
         big(3, 30, 3, [("tanh", 600), ("sin", 300)]), big(4, 33000, 3, [("rbf_linf", 5), ("lin", 3)], prec="s"), big(5, 20, 1100, [("rbf_l2", 10), ("lin", 12)]),
         big(6, 70001, 3, [("rbf_l1", 4)], cls="HPELM", batch=3001, dt="int8", xk="int"), big(7, 300000, 2, [("lin", 2)], dt="float32")]

SUBS = [Sub("product", cases, chk, lambda c: c["n"] >= 2, "at least two rows", quick=0, thorough=0, shards=2, fixed=FIXED + product()),
        Sub("project", cases, chk, lambda c: len(c["groups"]) >= 2 and c["n"] >= 2,
            "at least two neuron additions and two rows", quick=9600, thorough=60000, shards=4)]
