"""C18: arguments and input files are never modified, results and models do not share memory with the arguments."""
import os
import hashlib
import numpy as np
from core import Sub, Violation, asarray, close, same, require, scratch
import gen
from gen import st, EPS, PREC
from c02 import layout

OPS = ("train", "train", "train", "add", "add", "batchw", "batchw", "solve", "predict", "project", "error", "confusion", "neurons", "setB", "setcorr",
       "setcorr", "solvecorr", "solvecorr", "mrsr", "mrsr2", "rbf", "predict_into", "project_into", "make", "validation")


@st.composite
def cases(draw):
    c = draw(st.integers(1, 4))
    cls = draw(st.sampled_from(["ELM", "ELM", "HPELM"]))
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.sampled_from(OPS))
        op = {"k": k, "s": draw(gen.seeds()), "n": draw(gen.rows(1, 25, every=40, cap=1100)), "lay": draw(st.sampled_from(["C", "C", "F", "strided", "readonly"])),
              "own": draw(st.sampled_from([True, True, False])), "mode": draw(st.sampled_from(["r", "c", "wc", "wa", "ml"])) if c > 1 else "r",
              "scr": draw(st.booleans())}
        if k == "train":
            op["n"] = max(op["n"], 12)
            op["sel"] = draw(st.sampled_from(["", "", "V", "CV", "LOO"])) if cls == "ELM" else ""
            op["op"] = draw(st.booleans())
        ops.append(op)
    return {"d": draw(st.integers(1, 4)), "c": c, "cls": cls, "prec": draw(gen.precs()), "acc": draw(st.sampled_from([None, None, "basic"])),
            "batch": draw(st.integers(1, 30)), "norm": draw(st.sampled_from([0.1, 1, 10])), "s": draw(gen.seeds()),
            "groups": draw(gen.neuron_groups(maxgroups=3, maxn=4, cap=33, every=30)), "winit": c > 1 and draw(st.booleans()), "B": draw(st.booleans()), "ops": ops,
            "xk": draw(st.sampled_from(["n", "n", "int"]))}


def arr(A, op, p):
    """An argument of the model's own precision (nothing is converted) or another one, in some memory layout."""
    if np.asarray(A).dtype.kind == "i":      # neuron numbers
        return np.array(A) if op["lay"] != "strided" else np.array([A, A]).T.copy()[:, 0]
    dt = PREC[p] if op["own"] else (np.float32 if p == "d" else np.float64)
    A = np.asarray(A).astype(dt)
    if A.ndim == 1:
        if op["lay"] == "strided":
            B = np.zeros(2 * len(A), dtype=dt)
            B[::2] = A
            return B[::2]
        A = A.copy()
        A.flags.writeable = op["lay"] != "readonly"
        return A
    return layout(A.copy(), op["lay"])


def scribble(a):
    base = a
    while isinstance(base.base, np.ndarray):
        base = base.base
    base.flags.writeable = True
    a.flags.writeable = True
    a[...] = 5


def clone(v):
    """A copy with the same memory layout."""
    if v.flags.c_contiguous:
        return v.copy(order="C")
    if v.flags.f_contiguous:
        return v.copy(order="F")
    out = np.empty([2 * s for s in v.shape], dtype=v.dtype)[tuple(slice(None, None, 2) for _ in v.shape)]
    out[...] = v
    return out


def targets(op, n, c, p):
    if op["mode"] == "r":
        return gen.make_T(op["s"], n, c, p)
    if op["mode"] == "ml":
        return gen.make_multilabel(op["s"], n, c)
    return gen.onehot(gen.make_labels(op["s"], n, c, every=True), c)


def prepare(case, op, m):
    """Arguments of one operation and the call; None if it cannot be done in this state."""
    p, d, c, k = case["prec"], case["d"], case["c"], op["k"]
    r = np.random.RandomState(op["s"])
    n = op["n"]
    X = gen.make_X(op["s"], n, d, case["xk"])
    T = targets(op, n, c, "d")
    L = m.nnet.L
    A = {}
    if k == "train":
        A = {"X": X, "T": T}
        args, kw = ([] if op["mode"] == "r" else ["wc" if op["mode"] == "wa" else op["mode"]]), {}
        if op["mode"] == "wc":
            A["w"] = 0.2 + 3 * r.rand(c)
        if op["sel"]:
            args.append(op["sel"])
            if op["op"]:
                args.append("OP")
        if op["sel"] == "V":
            A["Xv"] = gen.make_X(op["s"] + 1, n, d, case["xk"])
            A["Tv"] = targets(dict(op, s=op["s"] + 1), n, c, "d")
        if op["sel"] == "CV":
            kw["k"] = 3 + r.randint(3)

        def f(m, a):
            q = dict(kw, **{n: a[n] for n in ("w", "Xv", "Tv") if n in a})
            return m.train(a["X"], a["T"], *args, **q)
    elif k == "add":
        if m.classification == "wc":   # every sample needs its class
            T = targets(dict(op, mode="c"), n, c, "d")
            if m.wc is None and n < c:
                return None
        A = {"X": X, "T": T}
        f = lambda m, a: m.add_data(a["X"], a["T"])
    elif k == "batchw":
        A = {"X": X, "T": T, "w": 0.2 + 3 * r.rand(n)}
        f = lambda m, a: m.nnet.add_batch(a["X"], a["T"], a["w"])
    elif k == "solve":
        if m.nnet.HH is None:
            return None
        f = lambda m, a: m.nnet.solve()
    elif k in ("predict", "project"):
        if k == "predict" and m.nnet.get_B() is None:
            return None
        A = {"X": X}
        f = lambda m, a: getattr(m, k)(a["X"])
    elif k in ("predict_into", "project_into"):
        if case["cls"] != "HPELM" or (k == "predict_into" and m.nnet.get_B() is None):
            return None
        i0 = r.randint(0, n)
        cnt = r.randint(1, n - i0 + 1)
        extra = r.randint(0, 4)
        A = {"X": X}
        P = PREC[p]
        w = c if k == "predict_into" else L

        def f(m, a):
            Y = np.full((cnt + extra, w), -3.25, dtype=P)
            getattr(m, k[:7])(a["X"], Y, istart=i0, icount=cnt)
            require(np.all(Y[cnt:] == -3.25), "rows-outside", "%s writes rows that were not produced" % k)
            return Y
    elif k in ("error", "confusion"):
        if (k == "confusion" and m.classification is None) or (m.classification == "wc" and m.wc is None):
            return None
        A = {"T": T, "Y": T + 0.3 * r.randn(n, c)}
        f = lambda m, a: getattr(m, k)(a["T"], a["Y"])
    elif k == "neurons":
        q, g, W, B = gen.make_group({"f": gen.STD[op["s"] % 6], "n": 1 + op["s"] % 3, "s": op["s"]}, d, case["xk"])
        A = {"W": W, "B": B}
        f = lambda m, a: m.add_neurons(q, g, a["W"], a["B"])
    elif k == "setB":
        A = {"B": r.randn(L, c)}
        f = lambda m, a: m.nnet.set_B(a["B"])
    elif k in ("setcorr", "solvecorr"):
        G = r.randn(L + 2, L)
        if op["s"] % 4 == 0 and k == "solvecorr":
            G[:, 0] = G[:, -1]    # singular: the fall-back path
        A = {"HH": G.T.dot(G) + (0 if op["s"] % 4 == 0 and k == "solvecorr" else 1) * np.eye(L), "HT": r.randn(L, c)}
        if k == "setcorr":
            f = lambda m, a: m.nnet.set_corr(a["HH"], a["HT"])
        else:
            f = lambda m, a: m.nnet.solve_corr(a["HH"], a["HT"])
    elif k in ("mrsr", "mrsr2"):
        import hpelm.modules as mods
        A = {"X": r.randn(n + 6, 3 + n % 4), "T": r.randn(n + 6, c)}
        q = 1 + op["s"] % 4
        f = lambda m, a: getattr(mods, k)(a["X"], a["T"], q)
    elif k == "rbf":
        from hpelm.modules.rbf_param import rbf_param
        if n < 2:
            return None
        A = {"X": gen.make_X(op["s"], n, d, "n")}
        f = lambda m, a: rbf_param(a["X"], 1 + op["s"] % 4, ("l1", "l2", "linf")[op["s"] % 3])
    elif k == "validation":
        if case["cls"] != "HPELM" or (m.classification == "wc" and m.wc is None):
            return None
        G = r.randn(L + 2, L)
        HH, HT = G.T.dot(G) + np.eye(L), r.randn(L, c)
        A = {"X": X, "T": T, "steps": np.sort(r.permutation(L)[:1 + r.randint(L)]) + 1}

        def f(m, a):
            with scratch() as dr:
                fs = [gen.write_h5(os.path.join(dr, q), v, "carray", PREC[p]) for q, v in (("HH.h5", HH), ("HT.h5", HT))]
                return m.validation_corr(fs[0], fs[1], a["X"], a["T"], steps=a["steps"])
    elif k == "make":
        from hpelm.modules import make_hdf5
        A = {"X": X}

        def f(m, a):
            with scratch() as dr:
                fn = os.path.join(dr, "x.h5")
                make_hdf5(a["X"], fn)
                return gen.read_h5(fn)
    return A, f


def flat(v):
    """Arrays of a result."""
    if isinstance(v, (list, tuple)):
        return [a for x in v for a in flat(x)]
    return [] if v is None else [np.asarray(v)]


def snapshot(m, Z):
    H = np.array(m.project(Z))
    B = m.nnet.get_B()
    return H, None if B is None else np.array(m.predict(Z)), None if m.nnet.HH is None else [np.array(v) for v in m.nnet.get_corr()]


def chk(case):
    p, d, c = case["prec"], case["d"], case["c"]
    kw = {"accelerator": case["acc"]} if case["acc"] else {}
    ws = [None, None]
    ms = []
    for i in range(2):
        if case["winit"]:
            ws[i] = 0.2 + np.random.RandomState(case["s"] + 4).rand(c)
            kw.update(classification="wc", w=ws[i])
        ms.append(gen.new_model(case["cls"], d, c, p, gen.make_neurons(case["groups"], d, case["xk"], p), norm=case["norm"], batch=case["batch"], **kw))
    if case["winit"]:
        ws[0][:] = 9
    m, twin = ms     # the twin's arguments are never touched
    Z = gen.make_X(case["s"] + 99, 5, d, case["xk"], p)
    kept, results, tags = [], [], set()
    if case["B"]:    # with a solution already
        for q in ms:
            q.nnet.set_B(np.random.RandomState(case["s"] + 6).randn(q.nnet.L, c))
    for op in case["ops"]:
        pr = prepare(case, op, m)
        if pr is None:
            continue
        A, f = pr
        a = {n: arr(v, op, p) for n, v in A.items()}
        b = {n: clone(v) for n, v in a.items()}
        orig = {n: np.array(v) for n, v in a.items()}
        note = "%s (%s, %s)" % (op["k"], op["lay"], "own precision" if op["own"] else "other precision")
        out = []
        for q, args in ((m, a), (twin, b)):
            np.random.seed(op["s"])
            out.append(flat(f(q, args)))
        for n in a:
            same("argument-modified", a[n], orig[n], "%s of %s" % (n, note))
        for v in out[0]:
            for n in a:
                require(not np.may_share_memory(v, a[n]) or not np.shares_memory(v, a[n]), "shared-result", "result shares memory with %s of %s" % (n, note))
        results.append((out[0], [np.array(v) for v in out[0]], note))
        if op["scr"]:
            for n in a:
                scribble(a[n])
            tags.add("scribbled")
        else:
            kept.append((a, orig, note))
        tags.add(op["k"])
        tol = 1e-8 if p == "d" else 1e-3
        for v, w in zip(*out):
            close("result", v, w, tol, note=note)
        # later changes of the arguments do not reach the model
        for x, y, what in zip(snapshot(m, Z), snapshot(twin, Z), ("projection", "prediction", "sums")):
            require((x is None) == (y is None), "state", what)
            if x is not None:
                for u, v in zip(*((x, y) if isinstance(x, list) else ([x], [y]))):
                    close("model-follows-argument", u, v, tol, note="%s after %s" % (what, note))
        # nor results already returned, nor earlier arguments
        for got, was, nt in results:
            for u, v in zip(got, was):
                same("result-changed", u, v, "result of %s after %s" % (nt, note))
        for ka, ko, nt in kept:
            for n in ka:
                same("argument-modified", ka[n], ko[n], "%s of %s after %s" % (n, nt, note))
    return {"tags": sorted(tags)}


# ---------------------------------------------------------------- files

FOPS = ("train", "train", "add", "add_disk", "add_disk", "add_disk", "add_disk", "validation", "validation", "predict", "project", "predict_arr", "error", "confusion", "solve_disk", "solve_disk", "validation",
        "train_async", "add_async", "predict_async", "make_txt", "make_csv", "make_npy", "make_gz", "rbf", "refused", "wauto", "mix")


@st.composite
def fcases(draw):
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(FOPS))
        if k.endswith("async") and draw(st.integers(0, 3)):
            k = "train"
        ops.append({"k": k, "s": draw(gen.seeds()), "i": draw(st.integers(0, 4)), "n": draw(st.one_of(st.none(), st.integers(1, 8)))})
    return {"d": draw(st.integers(1, 4)), "c": draw(st.integers(2, 4)), "prec": draw(gen.precs()), "s": draw(gen.seeds()), "n": draw(st.integers(6, 25)),
            "batch": draw(st.integers(1, 30)), "groups": draw(gen.neuron_groups(maxgroups=2, maxn=4, cap=33, every=30)), "ops": ops,
            "mode": draw(st.sampled_from(["", "c", "wc", "ml"])), "sty": draw(st.sampled_from(gen.STORAGE)), "fdt": draw(st.sampled_from(["float64", "float32", "int16"])),
            "ro": draw(st.booleans()), "B": draw(st.booleans())}


def tree(dr):
    return {n: hashlib.sha1(open(os.path.join(dr, n), "rb").read()).hexdigest() for n in os.listdir(dr or ".")}


def fchk(case):
    from hpelm.modules import make_hdf5
    from hpelm.modules.rbf_param import rbf_param
    p, d, c, n = case["prec"], case["d"], case["c"], case["n"]
    tags = set()
    with scratch(case["s"]) as dr:
        P = lambda x: os.path.join(dr, x)
        X = gen.make_X(case["s"], n, d, "int" if case["fdt"] == "int16" else "n")
        T = gen.onehot(gen.make_labels(case["s"], n, c, every=True), c)
        gen.write_h5(P("X.h5"), X, case["sty"], case["fdt"])
        gen.write_h5(P("T.h5"), T, case["sty"], case["fdt"])
        gen.write_h5(P("Y.h5"), T + 0.3 * gen.make_T(case["s"], n, c), case["sty"], "float64")
        make_hdf5(X, P("data.h5"))
        np.savetxt(P("m.txt"), X)
        np.savetxt(P("m.csv"), X, delimiter=",")
        np.savetxt(P("m.gz"), X)
        np.save(P("m.npy"), X)
        if case["ro"]:
            for f in os.listdir(dr or "."):
                os.chmod(P(f), 0o444)
        kw = {"classification": case["mode"]} if case["mode"] else {}
        if case["mode"] == "wc":
            kw["w"] = 0.2 + np.random.RandomState(case["s"]).rand(c)
        m = gen.new_model("HPELM", d, c, p, gen.make_neurons(case["groups"], d, "n", p), norm=0.1, batch=case["batch"], **kw)
        stored = set()
        if case["B"]:
            m.nnet.set_B(np.random.RandomState(case["s"] + 6).randn(m.nnet.L, c))
        for op in case["ops"]:
            k, i = op["k"], op["i"]
            w = {"istart": i} if op["n"] is None else {"istart": i, "icount": op["n"]}
            before = tree(dr)
            outs = set()
            args = ["wc" if case["mode"] == "wc" else case["mode"]] if case["mode"] else []
            kt = {"w": kw["w"]} if "w" in kw else {}
            if k in ("train", "train_async"):
                getattr(m, k)(P("X.h5"), P("T.h5"), *args, **dict(w, **kt))
            elif k == "wauto":
                m.train(P("X.h5"), P("T.h5"), "wc")
            elif k == "mix":
                m.add_data(X, P("T.h5"), **w)
            elif k == "add":
                m.add_data(P("X.h5"), P("T.h5"), **w)
            elif k in ("add_disk", "add_async"):
                pair = "%d_%d" % (op["s"] % 2, m.nnet.L)     # a validation may have pruned the model
                q = {"fHH": P("HH" + pair), "fHT": P("HT" + pair)}
                outs = set(os.path.basename(v) for v in q.values())
                (m.add_data if k == "add_disk" else m.add_data_async)(P("X.h5"), P("T.h5"), **dict(w, **q))
                stored.add(pair)
            elif k in ("predict", "predict_async"):
                if m.nnet.get_B() is None:
                    continue
                outs = {"P.h5"}
                getattr(m, k)(P("X.h5"), P("P.h5"), **w)
            elif k == "predict_arr":
                if m.nnet.get_B() is None:
                    continue
                m.predict(P("X.h5"), **w)
            elif k == "project":
                outs = {"H.h5"}
                m.project(P("X.h5"), P("H.h5"), **w)
            elif k == "error":
                m.error(P("T.h5"), P("Y.h5"), **w)
            elif k == "confusion":
                if m.classification is None:
                    continue
                m.confusion(P("T.h5"), P("Y.h5"))
            elif k in ("solve_disk", "validation"):
                j = sorted(v for v in stored if v.endswith("_%d" % m.nnet.L))
                if not j:
                    continue
                if k == "solve_disk":
                    m.solve_corr(P("HH" + j[0]), P("HT" + j[0]))
                else:
                    m.validation_corr(P("HH" + j[0]), P("HT" + j[0]), P("X.h5"), P("T.h5"), steps=3)
            elif k == "rbf":
                np.random.seed(op["s"])
                rbf_param(P("data.h5"), 3)
            elif k == "refused":
                for call in (lambda: m.train(P("T.h5"), P("X.h5")) if c != d else m.train(P("T.h5"), P("none.h5")),
                             lambda: m.add_data(P("X.h5"), P("none.h5")), lambda: m.predict(P("none.h5"))):
                    try:
                        call()
                    except Exception:
                        pass
            elif k.startswith("make_"):
                outs = {"made.h5"}
                ext = k[5:]
                make_hdf5(P("m." + ext), P("made.h5"), delimiter="," if ext == "csv" else " ")
            after = tree(dr)
            tags.add(k)
            for f in before:
                if f not in outs and not f.endswith(".lock"):
                    require(f in after, "file-removed", "%s removed by %s" % (f, k))
                    require(after[f] == before[f], "file-modified", "%s changed by %s" % (f, k))
            new = set(after) - set(before) - outs
            require(all(f.endswith(".lock") for f in new), "file-created", "%s created by %s" % (sorted(new), k))
    return {"tags": sorted(tags)}


SUBS = [
    Sub("arrays", cases, chk, lambda c: any(o["scr"] or o["own"] for o in c["ops"]) and len(c["ops"]) >= 2,
        "at least two operations, arguments of the model's own precision or overwritten after the call", quick=7500, thorough=100000, shards=5),
    Sub("files", fcases, fchk, lambda c: len(c["ops"]) >= 2, "at least two operations", quick=1800, thorough=16000, shards=3),
]
