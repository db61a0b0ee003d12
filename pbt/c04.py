"""C04: the file-based model computes the same as the in-memory model, over histories of operations."""
import os
import numpy as np
from core import Sub, Violation, asarray, close, require, same, scratch
import gen
import ref
from c03 import compare
from gen import st, EPS, PREC


@st.composite
def wins(draw, n):
    k = draw(st.integers(0, 4))
    if k == 0:
        return [0, None]
    s = draw(st.integers(0, n - 1))
    if k == 1:
        return [s, None]
    return [s, draw(st.integers(1, n + 8))]


@st.composite
def ops(draw, n):
    k = draw(st.sampled_from(["train", "train", "add", "predict", "predict", "predict", "project", "project", "error", "error", "batch",
                              "confusion", "rewrite"]))
    op = {"k": k}
    if k == "rewrite":
        op["xs"], op["st"] = draw(gen.seeds()), draw(st.sampled_from(gen.STORAGE))
        return op
    if k == "batch":
        op["b"] = draw(gen.batch_of(n))
        return op
    op["win"] = draw(wins(n))
    op["src"] = draw(st.sampled_from(["file", "file", "arr"]))
    if k in ("predict", "project"):
        op["out"] = draw(st.sampled_from(["file", "file", "arr", "none"]))
        op["slot"] = draw(st.integers(0, 1))
        op["extra"] = draw(st.integers(0, 2))
        op["lay"] = draw(st.sampled_from(gen.LAYS))
        op["odt"] = draw(st.sampled_from([None, None, "float64"]))
        op["old"] = draw(st.sampled_from([None, None, "int32", "float32", "float64"]))
    if k == "train":
        op["b"] = draw(st.one_of(st.none(), st.none(), gen.batch_of(n)))
    if k in ("error", "confusion"):
        op["slot"] = draw(st.integers(0, 1))
    return op


@st.composite
def cases(draw):
    d = draw(gen.wide(1, 4))
    c = draw(gen.wide(1, 3))
    n = draw(gen.rows(1, 24, every=15))
    mode = draw(st.sampled_from(["r", "r", "c", "wc", "wa", "ml"])) if c > 1 else "r"
    return {"d": d, "c": c, "n": n, "mode": mode, "groups": draw(gen.neuron_groups(maxgroups=3, maxn=3, cap=40)),
            "xk": draw(st.sampled_from(["n", "int", "shift"])), "xs": draw(gen.seeds()), "prec": draw(gen.precs()),
            "norm": draw(st.sampled_from([0.1, 1, 10])), "batch": draw(gen.batch_of(n)),
            "stx": draw(st.sampled_from(gen.STORAGE)), "stt": draw(st.sampled_from(gen.STORAGE)),
            "fdt": draw(st.sampled_from(["float64", "float64", "float64", "float32", "int32", "int8", "uint8"])), "ws": draw(gen.seeds()),
            "ops": [{"k": "train", "win": draw(wins(n)), "src": draw(st.sampled_from(["file", "arr"])), "b": None}] +
                   draw(st.lists(ops(n), min_size=1, max_size=8))}


def make_targets(case):
    if case["mode"] == "r":
        return gen.make_T(case["xs"], case["n"], case["c"])
    if case["mode"] == "ml":
        return gen.make_multilabel(case["xs"], case["n"], case["c"])
    return gen.onehot(gen.make_labels(case["xs"], case["n"], case["c"]), case["c"])


def weights(case):
    return 0.2 + 3 * np.random.RandomState(case["ws"]).rand(case["c"])


def fresh(case, xs):
    X = gen.as_type(gen.make_X(xs, case["n"], case["d"], case["xk"]), case["fdt"])
    T = make_targets(dict(case, xs=xs))
    return X, T.astype("float32") if "int" in case["fdt"] and case["mode"] == "r" else T.astype(case["fdt"])


def cut(A, win):
    s, k = win
    return A[s:] if k is None else A[s:s + k]


def wkw(win):
    kw = {}
    if win[1] is not None and win[0] % 3 == 1:
        win = [np.int64(win[0]), (np.int32, np.int64)[win[1] % 2](win[1])]
    if win[0] or win[1] is None:
        kw["istart"] = win[0]
    if win[1] is not None:
        kw["icount"] = win[1]
    return kw


def chk(case):
    with scratch(case["xs"]) as dr:
        return history(case, dr)


def history(case, dr):
    p, c = case["prec"], case["c"]
    eps = EPS[p]
    X, T = fresh(case, case["xs"])
    fX = gen.write_h5(os.path.join(dr, "x.h5"), X, case["stx"])
    fT = gen.write_h5(os.path.join(dr, "t.h5"), T, case["stt"])
    nn = gen.make_neurons(case["groups"], case["d"], case["xk"], p)
    m = gen.new_model("HPELM", case["d"], c, p, nn, norm=case["norm"], batch=case["batch"])
    a = gen.new_model("ELM", case["d"], c, p, nn, norm=case["norm"])
    mode, w = case["mode"], weights(case)
    Z = gen.make_X(case["xs"] + 1, 5, case["d"], case["xk"], p)
    seen = None    # rows accumulated so far (None: nothing trained)
    slots, kept = {}, []
    tags = set()
    for step, op in enumerate(case["ops"]):
        k = op["k"]
        tags.add(k)
        key = "%s" % k
        if k == "batch":
            m.batch = op["b"]
            continue
        if k == "rewrite":      # other data of the same size in the same files and arrays
            X[:], T[:] = fresh(case, op["xs"])
            gen.write_h5(fX, X, op["st"])
            gen.write_h5(fT, T, op["st"])
            continue
        win = op["win"]
        Xw, Tw = cut(X, win), cut(T, win)
        if k in ("train", "add"):
            args, kw = ((mode,) if mode not in ("r", "wa") else ()), {}
            if mode == "wc":
                kw["w"] = w
            if mode == "wa":  # automatic weights, when all classes occur in the window
                if not np.all(Tw.sum(0) > 0):
                    args, kw = ("wc",), {"w": w}
                else:
                    args = ("wc",)
            kb = {"batch": op["b"]} if op.get("b") else {}
            src = (fX, fT) if op["src"] == "file" else (gen.laid(X, case["xs"] + step), gen.laid(T, case["ws"] + step))
            if k == "train":
                m.train(src[0], src[1], *args, **dict(kw, **dict(wkw(win), **kb)))
                a.train(Xw.copy(), Tw.copy(), *args, **kw)
                seen = Tw.copy()
            else:
                m.add_data(src[0], src[1], **wkw(win))
                m.nnet.solve()
                a.add_data(Xw.copy(), Tw.copy())
                a.nnet.solve()
                seen = np.vstack((seen, Tw))
            compare(a, m, Z, p, seen, case["norm"], [], key=key)
            continue
        B = asarray(m.nnet.get_B(), "weights", (m.nnet.L, c))
        if k in ("predict", "project"):
            H = asarray(a.project(Xw.copy()), "in-memory project")
            want = H if k == "project" else H.dot(B)
            A = gen.model_amp(m, Xw)
            sc = A.dot(np.abs(B)) + 1e-300 if k == "predict" else np.maximum(A, np.max(np.abs(H), initial=0)) + 1e-300
            tol = 50 * eps * (H.shape[1] + case["d"] + 2)
            fn = m.predict if k == "predict" else m.project
            src = fX if op["src"] == "file" else gen.laid(X, case["xs"] + step)
            if op["out"] == "none":
                got = fn(src, **wkw(win))
            elif op["out"] == "file":
                path = os.path.join(dr, "out%d.h5" % op["slot"])
                if op.get("old"):     # a file of that name and shape exists
                    gen.write_h5(path, np.full(want.shape, 3), "carray", op["old"])
                fn(src, path, **wkw(win))
                got = gen.read_h5(path)
                if k == "predict":
                    slots[op["slot"]] = (path, Tw.copy())
                else:
                    slots.pop(op["slot"], None)
            else:
                full = gen.blank(len(Xw) + op["extra"], want.shape[1], op["lay"], op["odt"] or PREC[p], -77.25)
                fn(src, full, **wkw(win))
                got = full[:len(Xw)]
                require(np.all(full[len(Xw):] == PREC[p](-77.25)), key + "-rows", "wrote beyond the window's rows")
            close(key, got, want, tol, scale=sc, note="step %d %s" % (step, op))
            if op["out"] != "file":
                kept.append((key, got, np.array(got)))
        elif k in ("error", "confusion"):
            if op["slot"] not in slots:
                continue
            path, Ts = slots[op["slot"]]
            Ys = gen.read_h5(path)
            fTs = gen.write_h5(os.path.join(dr, "ts.h5"), Ts, case["stt"])
            if k == "confusion":
                if mode == "r":
                    continue
                got = m.confusion(fTs, path) if op["src"] == "file" else m.confusion(Ts, Ys)
                close(key, got, ref.confusion("ml" if mode == "ml" else "c", Ts, Ys), 1e-12)
                continue
            win = [min(win[0], len(Ts) - 1), win[1]]
            if op["src"] == "file":
                e = m.error(fTs, path, **wkw(win))
            else:
                e = m.error(Ts, Ys, **wkw(win))
            mm = "wc" if mode == "wa" else mode
            want = ref.error(mm, cut(Ts, win), cut(Ys, win), None if mm != "wc" else m.wc)
            close(key, e, want, 1e-5 if Ys.dtype == np.float32 or T.dtype == np.float32 else 1e-11, note="step %d %s" % (step, op))
    for key, got, was in kept:
        same(key + "-changed-later", got, was, "a result that was returned before")
    return {"tags": sorted(tags) + ["mode-" + mode, "prec-" + p, "fdt-" + case["fdt"]]}


def big(i, n, batch, ops, **kw):
    """Thousands of rows: sizes at which buffers or index types might overflow."""
    return dict({"d": 2, "c": 2, "n": n, "mode": "r", "groups": [{"f": "tanh", "n": 3, "s": i}], "xk": "n", "xs": 50 + i, "prec": "d", "norm": 0.1,
                 "batch": batch, "fdt": "float64", "stx": "carray", "stt": "carray", "ws": i,
                 "ops": [{"k": k, "win": [0, None], "src": s, "b": None, "out": o, "slot": 0, "extra": 1, "lay": "C", "odt": None} for k, s, o in ops]}, **kw)


FULL = [("train", "file", ""), ("predict", "file", "file"), ("error", "file", ""), ("project", "file", "arr"), ("add", "file", ""), ("predict", "arr", "none")]
FIXED = [big(0, 2001, 2000, FULL), big(1, 70001, 65536, FULL), big(2, 70003, 4000, FULL, mode="c"), big(3, 40001, 40000, FULL, prec="s", c=1),
         big(4, 10007, 300, FULL, fdt="float32", mode="wc"), big(5, 33000, 32768, FULL, mode="ml"), big(6, 3000, 2999, FULL, fdt="int8"),
         big(7, 5000, 4999, FULL, groups=[{"f": "sigm", "n": 130, "s": 1}, {"f": "rbf_l2", "n": 20, "s": 2}])]
FIXED += [big(20 + i, 2 * nb - i % 2, 2, FULL, mode=("r", "c", "wc", "ml")[i % 4], c=3) for i, nb in enumerate((32, 33, 64, 65, 100, 129, 257, 513, 1001, 1025))]

SUBS = [Sub("history", cases, chk, lambda c: len(c["ops"]) >= 3 and c["n"] >= 3, "at least three operations and three rows",
            quick=4800, thorough=60000, shards=8, fixed=FIXED)]
