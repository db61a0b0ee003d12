"""C09: the reported error equals its documented definition."""
import os
import numpy as np
from core import Sub, Violation, asarray, close, require, scratch
import gen
import ref
from c04 import cut, wkw, wins
from gen import st, EPS, PREC

HUGE = (2100, 2500, 5003, 33000, 66000, 70001)


@st.composite
def cases(draw):
    mode = draw(st.sampled_from(["r", "c", "wc", "ml", "wc", "wa"]))
    c = draw(gen.wide(1 if mode == "r" else 2, 6, every=8, cap=130))
    n = draw(gen.rows(1, 60, every=8))
    batch = draw(st.one_of(st.integers(1, max(1, n - 1)), st.integers(1, max(1, n // 3)), gen.batches(60), st.integers(60, 2100)))
    if c <= 3 and draw(st.integers(0, 9)) == 9:     # more than narrow integers and half precision can count
        n = draw(st.sampled_from(HUGE))
        batch = draw(st.sampled_from([n, n // 2, 1000, 1001, 40000, 100000]))
    batch = max(batch, n * c * c // 40000 + 1)      # confusion() takes a quadratic loop over classes per batch
    return {"mode": mode, "c": c, "n": n, "s": draw(gen.seeds()), "cls": draw(st.sampled_from(["ELM", "HPELM", "HPELM"])),
            "set": draw(st.sampled_from(["init", "INIT", "train", "TRAIN", "loaded"])),
            "batch": batch, "win": draw(wins(n)), "src": draw(st.sampled_from(["arr", "arr", "file"])),
            "tdt": draw(st.sampled_from(["float64", "float64", "float32", "int64", "int8", "bool", "int16", "uint8", "float16"])), "soft": draw(st.booleans()),
            "ydt": draw(st.sampled_from(["float64", "float64", "float64", "float32", "int8", "int16", "uint8", "float16", "bool"])), "prec": draw(gen.precs()),
            "qual": draw(st.sampled_from(["good", "mixed", "mixed", "random", "perfect", "wrong", "const"])),
            "flat": draw(st.booleans()), "k": draw(st.one_of(st.integers(1, 6), st.integers(1, 130))), "sty": draw(st.sampled_from(gen.STORAGE)),
            "off": draw(st.sampled_from([0, 0, 3, 100])), "fine": draw(st.integers(0, 5)) == 5}


def data(case):
    """Targets and predictions without ties and without entries on a threshold."""
    r = np.random.RandomState(case["s"])
    n, c, mode, q = case["n"], case["c"], case["mode"], case["qual"]
    if mode == "r":
        T = r.randn(n, c) + case["off"]
        if "int" in case["tdt"] or case["tdt"] == "bool":
            T = np.clip(np.round(T * 3), -100, 100)
        Y = {"good": T + 0.01 * r.randn(n, c), "perfect": T.copy(), "const": np.tile(r.randn(1, c), (n, 1)),
             "wrong": -T}.get(q, T + r.randn(n, c))
        if case["tdt"] == "bool":
            T = (T > 0).astype(float)
        if case["tdt"] == "uint8":
            T = np.abs(T)
        if case["tdt"] == "float16":
            T = T.astype("float16").astype(float)
    else:
        if mode == "ml":
            T = (r.rand(n, c) < r.rand()).astype(float)
        else:
            k = min(case["k"], c)             # only k of the c classes occur
            T = np.eye(c)[r.permutation(c)[r.randint(0, k, n)]]
            if mode == "wa":
                T[:c] = np.eye(c)[:len(T[:c])]
                T = T[r.permutation(n)]
        noise = {"good": 0.2, "mixed": 0.5, "random": 10, "perfect": 0.01, "wrong": 0.01, "const": 0.5}[q]
        Y = (1 - T if q == "wrong" else T) + noise * r.randn(n, c)
        if q == "const":
            Y = np.tile(Y[:1], (n, 1))
        Y = np.where(np.abs(Y - 0.5) < 1e-3, 0.6, Y) + 1e-4 * r.rand(n, c)
        if mode == "ml" and case["soft"]:     # degrees of membership
            u = 0.45 * r.rand(n, c)
            T = np.where(T > 0.5, 1 - u, u) if case["tdt"].startswith("float") else T
        if case["ydt"] not in ("float64", "float32"):     # decisions instead of scores
            Y = (Y > 0.5).astype(float) if mode == "ml" else np.eye(c)[Y.argmax(1)]
        elif case.get("fine") and case["ydt"] == "float64":      # decisions that only double precision shows
            Y = 0.5 + (Y - 0.5) * 1e-9
    return gen.as_type(T, case["tdt"]), as_pred(Y, case["ydt"])


def as_pred(Y, dt):
    if dt == "bool":
        return Y > 0.5
    if "int" in dt:
        Y = np.clip(np.round(Y), np.iinfo(dt).min, np.iinfo(dt).max)
    return Y.astype(dt)


def model(case, T):
    mode, c = case["mode"], case["c"]
    r = np.random.RandomState(case["s"] + 1)
    w = 0.2 + 3 * r.rand(c)
    d = 2
    nn = gen.make_neurons([{"f": "lin", "n": 2, "s": 1}], d)
    name = {"wa": "wc"}.get(mode, mode)
    kw = {"w": w} if mode == "wc" else {}
    how = case["set"]
    up = name.upper() if how.isupper() else name
    if how.lower() == "init" or how == "loaded":
        m = gen.new_model(case["cls"], d, c, case["prec"], nn, classification=up, batch=case["batch"], **kw)
        if mode == "wa":
            m.add_data(r.randn(len(T), d), T.astype(float))
        if how == "loaded":
            b = gen.new_model(case["cls"], 1, 1, case["prec"], batch=case["batch"])
            b.loads(m.dumps())
            m = b
    else:
        m = gen.new_model(case["cls"], d, c, case["prec"], nn, batch=case["batch"])
        m.train(r.randn(len(T), d), T.astype(float), *((up,) if name != "r" else ()), **kw)
    if mode == "wa":
        n = T.astype(float).sum(0)
        w = n.sum() / n
    return m, w


def chk(case):
    T, Y = data(case)
    if case["mode"] == "wa" and not np.all(T.sum(0) > 0):
        return {"nt": False}
    m, w = model(case, T)
    mode = {"wa": "wc"}.get(case["mode"], case["mode"])
    win = case["win"] if case["cls"] == "HPELM" else [0, None]
    want = ref.error(mode, cut(T, win), cut(Y, win), w)
    t, y = T, Y
    if case["flat"] and case["c"] == 1:
        t, y = T[:, 0], Y[:, 0]
    else:
        t, y = gen.laid(T, case["s"]), gen.laid(Y, case["s"] // 7)
    with scratch(case["s"]) as dr:
        if case["src"] == "file" and case["cls"] == "HPELM":
            t = gen.write_h5(os.path.join(dr, "t.h5"), T, case["sty"])
            y = gen.write_h5(os.path.join(dr, "y.h5"), Y, case["sty"])
        e = m.error(t, y, **(wkw(win) if case["cls"] == "HPELM" else {}))
        e2 = m.error(t, y, **(wkw(win) if case["cls"] == "HPELM" else {}))
    require(np.ndim(e) == 0, "error", "not a number: %r" % (e,))
    tol = 1e-4 if case["prec"] == "s" and mode == "wc" else 1e-11
    narrow = ("float32", "float16", "int8", "uint8", "int16", "bool")
    if mode == "r" and (case["ydt"] in narrow and case["tdt"] in narrow):
        tol = 5e-3 if "float16" in (case["ydt"], case["tdt"]) and "float32" not in (case["ydt"], case["tdt"]) else 1e-5
    close("error", float(e), want, tol, scale=max(1.0, abs(want)) if mode != "r" or tol > 1e-9 else
          max(1e-3, want, float(np.mean(T.astype(float)**2)) * 1e-3))
    require(e == e2, "repeat", "error() gives %r, then %r" % (e, e2))
    if mode != "r":
        require(-tol <= e <= 1 + tol, "range", "error %r outside [0, 1]" % e)
    return {"tags": ["mode-" + case["mode"], case["cls"], "src-" + case["src"], "set-" + case["set"].lower(), "qual-" + case["qual"]]}


def big(i, mode, n, batch, **kw):
    """Counts beyond narrow integers, with one class that holds most of the samples, many classes, many batches."""
    return dict({"mode": mode, "c": 2, "n": n, "s": 400 + i, "cls": ["HPELM", "ELM"][i % 2], "set": ["init", "train"][i // 2 % 2], "batch": batch, "win": [0, None],
                 "src": ["file", "arr"][i % 2], "tdt": "float64", "ydt": "float64", "prec": "d", "qual": "mixed", "flat": False, "soft": False, "k": 2, "sty": gen.STORAGE[i % len(gen.STORAGE)], "off": 0}, **kw)


FIXED = [big(2 * i + j, mode, n, b, k=k, c=c) for i, (n, b, c, k) in enumerate([(70001, 65536, 2, 1), (66000, 1000, 2, 2), (140001, 140001, 2, 1), (33000, 32768, 3, 1), (5003, 300, 12, 9),
                                                                             (300, 1, 2, 1), (257, 256, 40, 30)])
         for mode in ("r", "c", "wc", "ml") for j in (0, 1)] + [
    big(0, "wa", 70001, 40000, k=2), big(1, "wa", 33001, 1000, k=3, c=3), big(0, "wc", 70001, 7000, win=[1000, 66666], k=1), big(0, "c", 70001, 30000, win=[69000, None], k=2),
    big(0, "ml", 70001, 65535, win=[1, 65537], qual="wrong"), big(2, "r", 66001, 5000, tdt="int8", ydt="float32", k=1), big(3, "ml", 66001, 66001, tdt="bool", ydt="float32"),
    big(0, "r", 70001, 1000, tdt="int8", ydt="int8", off=100, qual="wrong"), big(1, "r", 300, 1000, tdt="int16", ydt="int16", off=100, qual="wrong"),
    big(0, "r", 70001, 1000, off=100, qual="good"), big(1, "r", 300000, 1000, c=1, flat=True)]

SUBS = [Sub("error", cases, chk, lambda c: c["n"] >= 3 and c["qual"] not in ("perfect",), "at least three rows and imperfect predictions",
            quick=7200, thorough=100000, shards=4, fixed=FIXED)]
