"""C19: invalid requests are refused with an exception and leave the model as it was."""
import os
import numpy as np
from core import Sub, Violation, asarray, close, same, require, refused, scratch
import gen
from gen import st, EPS, PREC

DATA_BAD = ("feat+", "feat-", "outs+", "outs-", "rows+", "rows-", "X3d", "T3d", "Xstr", "Tstr", "Xobj", "X0d", "Xbytes", "X1d", "T1d")
FILE_BAD = ("nofileX", "nofileT", "notH5X", "notH5T", "emptyX", "emptyT", "dirX")
TRAIN_BAD = ("V+CV", "V+LOO", "CV+LOO", "C+WC", "C+ML", "WC+ML", "C+MC", "WC+MC", "noXv", "noTv", "noV", "Xv-feat", "Tv-outs", "v-rows", "Xv-3d", "nok", "k2", "k0",
             "wlen-", "wlen+", "c1", "batch0", "batch-", "batchstr", "kmax0", "kmax-")
STEPS_BAD = ("steps0", "steps-", "steps+", "stepsnone")
NEURON_BAD = ("type", "type2", "Wrows", "Wcols", "W1d", "Blen", "B2d", "float", "Wlist", "Blist", "str", "Wt")
PRED_BAD = ("feat+", "feat-", "X3d", "Xstr", "X0d", "X1d")
STATE_BAD = ("B-rows", "B-cols", "B-list", "corr-L", "corr-sq", "corr-HT", "corr-c", "load-none", "load-cut", "loads-garbage", "save-dir", "load-num",
             "save-num", "confusion-r", "err-outs", "err-3d", "err-str", "solve-none", "conf-outs", "B-t", "corr-t", "B-1d")
CORR_BAD = ("HH-L", "HT-L", "HT-c", "HH-none", "HT-none", "HH-empty", "HT-empty", "HH-text", "HH-rect", "HT-text", "HT-t", "HT-flat")
OUT_BAD = ("fY-cols", "fH-cols", "fH-rows")


@st.composite
def bads(draw, cls, state, c, d):
    what = ["train", "train", "add", "options", "neurons", "predict", "project", "state"]
    if cls == "HPELM":
        what += ["file", "file", "disk", "solve_corr", "validation", "out", "memory"]
    w = draw(st.sampled_from(what))
    b = {"w": w, "s": draw(gen.seeds())}
    if w in ("train", "add", "disk"):
        b["b"] = draw(st.sampled_from(DATA_BAD if w != "disk" else DATA_BAD + CORR_BAD))
        b["async"] = cls == "HPELM" and draw(st.booleans())
    elif w == "file":
        b["b"] = draw(st.sampled_from(FILE_BAD + DATA_BAD[:6]))
        b["call"] = draw(st.sampled_from(["train", "add_data", "predict", "project", "error", "train_async", "add_data_async", "predict_async"]))
    elif w == "memory":
        b["call"] = draw(st.sampled_from(["train_async", "add_data_async", "predict_async"]))
        b["b"] = draw(st.sampled_from(("X", "T", "XT")))
    elif w == "options":
        b["b"] = draw(st.sampled_from(TRAIN_BAD))
        b["up"] = draw(st.booleans())
    elif w == "neurons":
        b["b"] = draw(st.sampled_from(NEURON_BAD))
        b["f"] = draw(st.sampled_from(gen.STD))
    elif w in ("predict", "project"):
        b["b"] = draw(st.sampled_from(PRED_BAD))
    elif w == "state":
        b["b"] = draw(st.sampled_from(STATE_BAD))
    elif w in ("solve_corr", "validation"):
        b["b"] = draw(st.sampled_from(CORR_BAD + (("Xv", "Tv", "rows") + STEPS_BAD if w == "validation" else ())))
    else:
        b["b"] = draw(st.sampled_from(OUT_BAD))
    return b


@st.composite
def cases(draw):
    cls = draw(st.sampled_from(["ELM", "HPELM"]))
    c = draw(st.integers(1, 4))
    d = draw(st.integers(1, 4))
    state = draw(st.sampled_from(["neurons", "neurons", "sums", "trained", "trained", "trained", "sums2"]))
    return {"cls": cls, "c": c, "d": d, "state": state, "prec": draw(gen.precs()), "acc": draw(st.sampled_from([None, None, "basic"])),
            "n": draw(st.integers(4, 20)), "s": draw(gen.seeds()), "batch": draw(st.integers(1, 25)), "norm": draw(st.sampled_from([0.1, 1])),
            "groups": draw(gen.neuron_groups(maxgroups=2, maxn=4, cap=33, every=30)), "init": draw(st.sampled_from(["", "", "c", "wc", "ml"])) if c > 1 else "",
            "bads": draw(st.lists(bads(cls, state, c, d), min_size=1, max_size=3)), "follow": draw(st.sampled_from(["train", "add", "none"])),
            "addn": draw(st.booleans())}


def wrong_data(b, X, T, r):
    """(X, T) damaged in one way; None if not applicable."""
    n, d = X.shape
    c = T.shape[1]
    if b == "feat+":
        return np.hstack((X, r.randn(n, 1))), T
    if b == "feat-":
        return (X[:, 1:], T) if d > 1 else (np.hstack((X, X, X)), T)
    if b == "outs+":
        return X, np.hstack((T, T[:, :1]))
    if b == "outs-":
        return (X, T[:, 1:]) if c > 1 else (X, np.hstack((T, T, T)))
    if b == "rows+":
        return X, np.vstack((T, T[:1 + r.randint(3)]))
    if b == "rows-":
        return X, T[:len(T) - 1 - r.randint(min(3, n - 1))]
    if b == "X3d":
        return (X[:, :, None], X[None, :, :], X.reshape(n, 1, d))[r.randint(3)], T
    if b == "T3d":
        return X, T[:, :, None]
    if b == "Xstr":
        return X.astype("U"), T
    if b == "Tstr":
        return X, T.astype("U")
    if b == "Xobj":
        return X.astype(object), T
    if b == "Xbytes":
        return X.astype("S"), T
    if b == "X0d":
        return np.array(1.5), T
    if b == "X1d":
        return (X[:, 0].copy(), T) if d > 1 else None
    if b == "T1d":
        return (X, T[:, 0].copy()) if c > 1 else None


def call_of(m, b, X, T, dr, case):
    """(name, function that must be refused, is a data addition); None if this is not wrong for this model."""
    r = np.random.RandomState(b["s"])
    w, k = b["w"], b["b"]
    d, c, L, P = case["d"], case["c"], m.nnet.L, PREC[case["prec"]]
    hp = case["cls"] == "HPELM"
    path = lambda n: os.path.join(dr, "%s_%d" % (n, b["s"]))

    def h5(name, A):
        return gen.write_h5(path(name), A)

    def bad_corr():
        HH, HT = np.eye(L).astype(P), np.ones((L, c)).astype(P)
        if k == "HH-L":
            HH = np.eye(L + 1 if r.randint(2) or L == 1 else L - 1)
        if k == "HH-rect":
            HH = np.ones((L, L + 1) if w != "disk" or r.randint(2) else (L + 1, L))
        if k == "HT-L":
            HT = np.ones((L + 1, c))
        if k == "HT-c":
            HT = np.ones((L, c + 1))
        if k == "HT-t":
            if L == c:
                return None
            HT = np.ones((c, L))
        if k == "HT-flat":
            if L == 1 or c == 1:
                return None
            HT = np.ones((L * c, 1))
        f = []
        for name, A in (("HH", HH), ("HT", HT)):
            p = path("bad" + name)
            if k == name + "-none":
                p = os.path.join(dr, "nothing_%s" % name)
            elif k == name + "-empty":
                import tables
                tables.open_file(p, "w").close()
            elif k == name + "-text":
                open(p, "w").write("this is not HDF5\n")
            else:
                gen.write_h5(p, A)
            f.append(p)
        return f

    if w in ("train", "add"):
        D = wrong_data(k, X, T, r)
        if D is None:
            return None
        return (lambda: m.train(*D)) if w == "train" else (lambda: m.add_data(*D))
    if w == "disk":
        if k in DATA_BAD:
            D = wrong_data(k, X, T, r)
            if D is None:
                return None
            return lambda: m.add_data(D[0], D[1], fHH=path("newHH"), fHT=path("newHT"))
        if k in ("HH-none", "HT-none"):
            return None     # created when missing
        f = bad_corr()
        if f is None:
            return None
        if b["async"]:
            a, t = h5("okX", X), h5("okT", T)
            return lambda: m.add_data_async(a, t, fHH=f[0], fHT=f[1])
        return lambda: m.add_data(X, T, fHH=f[0], fHT=f[1])
    if w == "file":
        D = (X, T)
        if k in DATA_BAD:
            D = wrong_data(k, X, T, r)
            if D is None:
                return None
        f = [h5("fX", D[0]), h5("fT", D[1])]
        i = 0 if k.endswith("X") else 1
        if k.startswith("nofile"):
            f[i] = os.path.join(dr, "nothing.h5")
        elif k.startswith("notH5"):
            open(f[i], "w").write("1 2 3\n" * 50)
        elif k.startswith("empty"):
            import tables
            tables.open_file(f[i], "w").close()
        elif k == "dirX":
            f[0] = dr
        q = b["call"]
        if q in ("predict", "project", "predict_async"):
            if k.endswith("T") or k.startswith(("outs", "rows")):
                return None
            if q == "project":
                return lambda: m.project(f[0])
            if q == "predict":
                return lambda: m.predict(f[0])
            return lambda: m.predict_async(f[0], path("outY"))
        if q == "error":
            if k in ("nofileT", "notH5T", "emptyT", "outs+", "outs-"):
                good = h5("gT", T)
                return (lambda: m.error(f[1], good)) if r.randint(2) else (lambda: m.error(good, f[1]))
            return None
        return lambda: getattr(m, q)(*f)
    if w == "memory":
        x, t = X if "X" in k else h5("memX", X), T if "T" in k else h5("memT", T)
        q = b["call"]
        if q.startswith("predict"):
            return (lambda: m.predict_async(x, path("memY"))) if "X" in k else (lambda: m.predict_async(x, T.copy()))
        return lambda: getattr(m, "train_async" if q.startswith("train") else "add_data_async")(x, t)
    if w == "options":
        return bad_options(m, k, X, T, r, b, hp, c)
    if w == "neurons":
        n = 1 + r.randint(4)
        f = b["f"]
        W, B = r.randn(d, n), np.abs(r.randn(n)) + 0.1
        calls = {"type": lambda: m.add_neurons(n, "sigmoid", W, B), "type2": lambda: m.add_neurons(n, np.tanh.__call__, W, B),
                 "Wrows": lambda: m.add_neurons(n, f, np.vstack((W, W[:1])), B), "Wcols": lambda: m.add_neurons(n, f, np.hstack((W, W[:, :1])), B),
                 "W1d": lambda: m.add_neurons(n, f, W.ravel(), B), "Blen": lambda: m.add_neurons(n, f, W, np.ones(n + 1)),
                 "B2d": lambda: m.add_neurons(n, f, W, B[:, None]), "float": lambda: m.add_neurons(float(n), f, W, B),
                 "Wlist": lambda: m.add_neurons(n, f, W.tolist(), B), "Blist": lambda: m.add_neurons(n, f, W, B.tolist()),
                 "str": lambda: m.add_neurons(str(n), f), "Wt": lambda: m.add_neurons(n, f, W.T.copy(), B)}
        if k == "Wt" and d == n:
            return None
        return calls[k]
    if w in ("predict", "project"):
        D = wrong_data(k, X, T, r)
        if D is None:
            return None
        return lambda: getattr(m, w)(D[0])
    if w == "state":
        one = np.ones
        fn = path("model")
        if k == "load-cut":
            m.save(fn)
            s = open(fn, "rb").read()
            open(fn, "wb").write(s[:len(s) // 2])
        calls = {"B-rows": lambda: m.nnet.set_B(one((L + 1, c))), "B-cols": lambda: m.nnet.set_B(one((L, c + 1))),
                 "B-list": lambda: m.nnet.set_B(one((L, c)).tolist()), "corr-L": lambda: m.nnet.set_corr(np.eye(L + 1), one((L + 1, c))),
                 "corr-sq": lambda: m.nnet.set_corr(one((L, L + 1)), one((L, c))), "corr-HT": lambda: m.nnet.set_corr(np.eye(L), one((L + 1, c))),
                 "corr-c": lambda: m.nnet.set_corr(np.eye(L), one((L, c + 1))), "load-none": lambda: m.load(path("no_such_model")),
                 "load-cut": lambda: m.load(fn), "loads-garbage": lambda: m.loads(b"garbage" * 3), "load-num": lambda: m.load(12345),
                 "save-dir": lambda: m.save(os.path.join(dr, "no", "such", "dir")), "save-num": lambda: m.save(12345),
                 "err-outs": lambda: m.error(T, np.hstack((T, T))), "err-3d": lambda: m.error(T[:, :, None], T), "err-str": lambda: m.error(T, T.astype("U")),
                 "conf-outs": lambda: m.confusion(T, np.hstack((T, T)))}
        calls.update({"B-t": lambda: m.nnet.set_B(one((c, L))), "corr-t": lambda: m.nnet.set_corr(np.eye(L), one((c, L))),
                      "B-1d": lambda: m.nnet.set_B(one(L * c))})
        if k in ("B-t", "corr-t") and L == c:
            return None
        if k == "confusion-r":
            return (lambda: m.confusion(T, T)) if m.classification is None else None
        if k == "solve-none":
            return (lambda: m.nnet.solve()) if m.nnet.HH is None else None
        return calls[k]
    if w == "solve_corr":
        f = bad_corr()
        return f and (lambda: m.solve_corr(*f))
    if w == "validation":
        if k in ("Xv", "Tv", "rows"):
            D = wrong_data({"Xv": "feat+", "Tv": "outs+", "rows": "rows-"}[k], X, T, r)
        else:
            D = (X, T)
        f = bad_corr()
        if f is None:
            return None
        a, t = h5("vX", D[0]), h5("vT", D[1])
        if k in STEPS_BAD:
            steps = {"steps0": [0], "steps-": [-1 - r.randint(L)], "steps+": [L + 1 + r.randint(3)], "stepsnone": []}[k]
            if r.randint(2) and steps:
                steps = np.array([1 + r.randint(L)] + steps)
            return lambda: m.validation_corr(f[0], f[1], a, t, steps=steps)
        return lambda: m.validation_corr(f[0], f[1], a, t)
    n = len(X)
    if k == "fY-cols":
        if m.nnet.get_B() is None:
            return None
        return lambda: m.predict(X, np.zeros((n, c + 1), dtype=P))
    return (lambda: m.project(X, np.zeros((n, L + 1), dtype=P))) if k == "fH-cols" else (lambda: m.project(X, np.zeros((n - 1, L), dtype=P)))


def bad_options(m, k, X, T, r, b, hp, c):
    Xv, Tv = X[:3], T[:3]
    t = (lambda *a, **kw: m.train(X, T, *[v.upper() if b["up"] else v.lower() for v in a], **kw))
    val = dict(Xv=Xv, Tv=Tv)
    cv = dict(k=3)
    if k in ("C+WC", "C+ML", "WC+ML", "C+MC", "WC+MC"):
        return (lambda: t(*(k.split("+")[::-1] if r.randint(2) else k.split("+")))) if c > 1 else None
    if k in ("wlen-", "wlen+"):
        return (lambda: t("wc", w=np.ones(c + (1 if k == "wlen+" else -1)))) if c > 1 else None
    if k.startswith("batch"):
        return lambda: t(batch={"batch0": (0, 0.5)[r.randint(2)], "batch-": -1 - r.randint(9), "batchstr": "ten"}[k])
    if k == "c1":
        return (lambda: t(("c", "wc", "ml", "mc")[r.randint(4)])) if c == 1 else None
    if k in ("V+CV", "V+LOO", "CV+LOO"):
        return lambda: t(*(k.split("+")[::-1] if r.randint(2) else k.split("+")), **dict(val, **cv))
    if hp:     # the other options concern model structure selection, which HPELM does not have
        return None
    if k.startswith("kmax"):
        q = (("LOO", "OP"), ("V", "OP"), ("OP", "CV"))[r.randint(3)]
        return lambda: t(*q, kmax=0 if k == "kmax0" else -1 - r.randint(3), **dict(val, **cv))
    if k == "noXv":
        return lambda: t("V", Tv=Tv)
    if k == "noTv":
        return lambda: t("V", Xv=Xv)
    if k == "noV":
        return lambda: t("V")
    if k == "nok":
        return lambda: t("CV")
    if k in ("k2", "k0"):
        return lambda: t("CV", k={"k2": 2, "k0": 0}[k])
    D = wrong_data({"Xv-feat": "feat+", "Tv-outs": "outs+", "v-rows": "rows-", "Xv-3d": "X3d"}[k], Xv, Tv, r)
    return lambda: t("V", Xv=D[0], Tv=D[1])


def state_of(m, Z):
    B = m.nnet.get_B()
    return {"H": np.array(m.project(Z)), "Y": None if B is None else np.array(m.predict(Z)),
            "C": None if m.nnet.HH is None else [np.array(v) for v in m.nnet.get_corr()], "N": [(n, f) for n, f, _, _ in m.nnet.get_neurons()]}


def build(case):
    kw = {"accelerator": case["acc"]} if case["acc"] else {}
    if case["init"]:
        kw["classification"] = case["init"]
    p = case["prec"]
    return gen.new_model(case["cls"], case["d"], case["c"], p, gen.make_neurons(case["groups"], case["d"], "n", p), norm=case["norm"],
                         batch=case["batch"], **kw)


def targets(case, s):
    n, c = case["n"], case["c"]
    if case["init"] in ("c", "wc"):
        return gen.onehot(gen.make_labels(s, n, c, every=True), c, case["prec"])
    if case["init"] == "ml":
        return gen.make_multilabel(s, n, c, case["prec"])
    return gen.make_T(s, n, c, case["prec"])


def chk(case):
    p, d, c, n = case["prec"], case["d"], case["c"], case["n"]
    X, T = gen.make_X(case["s"], n, d, "n", p), targets(case, case["s"])
    X2, T2 = gen.make_X(case["s"] + 1, n, d, "n", p), targets(case, case["s"] + 1)
    Z = gen.make_X(case["s"] + 2, 5, d, "n", p)
    ms = []
    for _ in range(2):
        m = build(case)
        if case["state"].startswith("sums"):
            m.add_data(X, T)
        if case["state"] == "sums2":
            m.nnet.solve()
            m.add_data(X2, T2)
        if case["state"] == "trained":
            m.train(X, T)
        ms.append(m)
    m, twin = ms
    tags, lost = set(), False
    with scratch() as dr:
        first = state_of(m, Z)
        done = 0
        for b in case["bads"]:
            f = call_of(m, b, X2.copy(), T2.copy(), dr, case)
            if f is None:
                continue
            files = {q: open(os.path.join(dr, q), "rb").read() for q in os.listdir(dr)}
            note = "%s (%s), model with %s" % (b["w"], b["b"], case["state"])
            refused("not-refused", f, note)
            done += 1
            tags.add(b["w"])
            now = state_of(m, Z)
            require(now["N"] == first["N"], "neurons-changed", "%s became %s by refused %s" % (first["N"], now["N"], note))
            same("projection-changed", now["H"], first["H"], note)
            require((now["Y"] is None) == (first["Y"] is None), "solution", "solution %s by refused %s" % ("lost" if now["Y"] is None else "made", note))
            if now["Y"] is not None:
                same("prediction-changed", now["Y"], first["Y"], note)
            # training starts anew and addition on disk restarts the sums, anything else keeps them
            lost = lost or b["w"] in ("train", "options", "disk") or (b["w"] in ("file", "memory") and b["call"] in ("train", "train_async"))
            if not lost:
                require((now["C"] is None) == (first["C"] is None), "sums-changed", note)
                if now["C"] is not None:
                    same("sums-changed", now["C"][0], first["C"][0], note)
                    same("sums-changed", now["C"][1], first["C"][1], note)
            elif now["C"] is not None and first["C"] is None:
                require(not np.any(now["C"][1]), "data-added", "refused %s added data" % note)
            for q in files:
                if not q.endswith(".lock"):
                    require(open(os.path.join(dr, q), "rb").read() == files[q], "file-changed", "%s by refused %s" % (q, note))
            for q in os.listdir(dr):     # matrix files made for a refused addition hold no data
                if q.startswith("newHT") and not q.endswith(".lock") and q not in files:
                    require(not np.any(gen.read_h5(os.path.join(dr, q))), "data-added", note)
        if not done:
            return {"nt": False}
        # and the model goes on as if nothing had been asked
        tol = 1e-8 if p == "d" else 1e-3
        if case["addn"]:
            for q in ms:
                q.add_neurons(*gen.make_group({"f": "tanh", "n": 2, "s": case["s"]}, d, "n", p))
        if case["follow"] == "train" or lost and case["follow"] == "add":
            mode = [case["init"]] if case["init"] else []
            fx, ft = X, T
            if case["cls"] == "HPELM":
                fx, ft = gen.write_h5(os.path.join(dr, "X.h5"), X), gen.write_h5(os.path.join(dr, "T.h5"), T)
            for q in ms:
                q.train(fx, ft, *mode)
        elif case["follow"] == "add":
            for q in ms:
                q.add_data(X, T)
                q.nnet.solve()
        if case["follow"] != "none":
            close("training-after", m.predict(Z), twin.predict(Z), tol, note="after refused %s" % [(b["w"], b["b"]) for b in case["bads"]])
            if not (m.classification == "wc" and m.wc is None):
                close("error-after", m.error(T, twin.predict(X)), twin.error(T, twin.predict(X)), tol)
    return {"tags": sorted(tags)}


# ---------------------------------------------------------------- a model without neurons or without solution, and wrong constructions

@st.composite
def ecases(draw):
    return {"cls": draw(st.sampled_from(["ELM", "HPELM"])), "d": draw(st.integers(1, 5)), "c": draw(st.integers(1, 4)), "n": draw(st.integers(3, 20)),
            "acc": draw(st.sampled_from([None, None, "basic"])), "prec": draw(gen.precs()), "s": draw(gen.seeds()), "groups": draw(gen.neuron_groups(maxgroups=2)),
            "calls": draw(st.lists(st.sampled_from(EMPTY), min_size=1, max_size=4))}


EMPTY = ("train", "train_c", "train_V", "train_CV", "train_LOO", "add", "predict", "project", "add_disk", "train_file", "predict_file", "project_file",
         "solve_corr", "validation", "train_async", "predict_async", "add_async", "set_B", "set_corr",
         "c-inputs", "c-outputs", "c-batch", "c-w", "c-w2", "c-batch-", "p-neurons", "p-neurons-file", "p-neurons-async", "conf")


def echk(case):
    import hpelm
    p, d, c, n = case["prec"], case["d"], case["c"], case["n"]
    M = getattr(hpelm, case["cls"])
    kw = {"accelerator": case["acc"]} if case["acc"] else {}
    X, T = gen.make_X(case["s"], n, d, "n", p), gen.make_T(case["s"], n, c, p)
    m, twin = (gen.new_model(case["cls"], d, c, p, norm=0.1, **kw) for _ in range(2))
    neurons = gen.make_neurons(case["groups"], d, "n", p)
    hp = case["cls"] == "HPELM"
    L = 3
    with scratch() as dr:
        P = lambda q: os.path.join(dr, q)
        fx, ft = gen.write_h5(P("X.h5"), X), gen.write_h5(P("T.h5"), T)
        gen.write_h5(P("HH"), np.eye(L))
        gen.write_h5(P("HT"), np.ones((L, c)))
        full = gen.new_model(case["cls"], d, c, p, neurons, **kw)     # neurons, but no solution
        calls = {"train": lambda: m.train(X, T), "train_c": lambda: m.train(X, T, "c"), "train_V": lambda: m.train(X, T, "V", Xv=X, Tv=T),
                 "train_CV": lambda: m.train(X, T, "CV", k=3), "train_LOO": lambda: m.train(X, T, "LOO", "OP"), "add": lambda: m.add_data(X, T),
                 "predict": lambda: m.predict(X), "project": lambda: m.project(X),
                 "c-inputs": lambda: M(d + 0.5, c), "c-outputs": lambda: M(d, str(c)), "c-batch": lambda: M(d, c, batch=0), "c-batch-": lambda: M(d, c, batch=-5),
                 "c-w": lambda: M(d, c, classification="wc", w=np.ones(c + 1)), "c-w2": lambda: M(d, c, "wc", [1.0] * (c - 1)),
                 "p-neurons": lambda: full.predict(X), "conf": lambda: m.confusion(T, T)}
        if hp:
            calls.update({"add_disk": lambda: m.add_data(fx, ft, fHH=P("a"), fHT=P("b")), "train_file": lambda: m.train(fx, ft),
                          "predict_file": lambda: m.predict(fx, P("Y")), "project_file": lambda: m.project(fx, P("H")),
                          "solve_corr": lambda: m.solve_corr(P("HH"), P("HT")), "validation": lambda: m.validation_corr(P("HH"), P("HT"), fx, ft),
                          "train_async": lambda: m.train_async(fx, ft), "predict_async": lambda: m.predict_async(fx, P("Y")),
                          "add_async": lambda: m.add_data_async(fx, ft), "p-neurons-file": lambda: full.predict(fx, P("Y2")),
                          "p-neurons-async": lambda: full.predict_async(fx, P("Y3"))})
        tags = []
        for k in case["calls"]:
            if k in calls:
                refused("not-refused", calls[k], "%s of a model without neurons or solution" % k)
                tags.append(k)
        for q in (m, twin):
            for g in neurons:
                q.add_neurons(*g)
            q.train(*((fx, ft) if hp else (X, T)))
        full.train(X, T)
        close("training-after", m.predict(X), twin.predict(X), 1e-8 if p == "d" else 1e-3, note="after refused %s" % case["calls"])
    return {"tags": tags, "nt": bool(tags)}


SUBS = [
    Sub("refusal", cases, chk, lambda c: c["state"] != "neurons" or c["follow"] != "none", "the model has a state to lose or is trained afterwards",
        quick=12000, thorough=150000, shards=6),
    Sub("no-neurons", ecases, echk, lambda c: True, "at least one applicable request", quick=2400, thorough=20000, shards=2),
]
