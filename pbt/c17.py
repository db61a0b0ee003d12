"""C17: what training gives depends on the neurons and the data only; reading operations never change the model."""
import os
import numpy as np
from core import Sub, Violation, asarray, close, same, require, refused, scratch
import gen
from gen import st, EPS, PREC

PURE = ("predict", "project", "error", "confusion", "save", "dumps", "free", "add_data", "refused", "predict_file", "project_file",
        "add_disk", "inplace", "inplace", "solve_given", "get", "newdata", "other")
CHANGE = ("train", "train", "train", "train", "solve", "loads", "setB", "validation", "solve_disk", "train_async", "neurons", "neurons")
BAD = ("dims", "outs", "rows", "strings", "noXv", "noTv", "nok", "k2", "two-sel", "two-cls", "wlen", "nofile", "pred-dims", "conf", "badB",
       "badcorr", "add-dims", "add-outs", "add-rows", "neurons-W", "neurons-f", "3d")


@st.composite
def train_op(draw, c, cls):
    mode = draw(st.sampled_from(["r", "r", "", "c", "wc", "wa", "ml"])) if c > 1 else draw(st.sampled_from(["", "r"]))
    op = {"k": "train", "mode": mode, "ds": draw(st.integers(0, 2)), "s": draw(gen.seeds()),
          "batch": draw(st.one_of(st.none(), st.none(), st.integers(1, 40)))}
    if cls == "ELM":
        op["sel"] = draw(st.sampled_from(["", "", "", "V", "CV", "LOO"]))
        op["op"] = draw(st.booleans())
        op["kmax"] = draw(st.one_of(st.none(), st.integers(1, 8)))
    else:
        op["sel"], op["op"], op["kmax"] = "", False, None
        op["win"] = draw(st.sampled_from([None, None, [0, 7], [2, 5], [3, None]]))
        op["file"] = draw(st.booleans())
    return op


@st.composite
def cases(draw):
    c = draw(st.integers(1, 4))
    cls = draw(st.sampled_from(["ELM", "ELM", "HPELM"]))
    ops = []
    for _ in range(draw(st.integers(1, 9))):
        k = draw(st.one_of(st.sampled_from(CHANGE), st.sampled_from(PURE)))
        if k in ("validation", "solve_disk", "predict_file", "project_file", "add_disk", "train_async") and cls == "ELM":
            k = "train"
        if k == "train_async" and draw(st.integers(0, 7)):
            k = "train"
        if k == "train":
            ops.append(draw(train_op(c, cls)))
        else:
            op = {"k": k, "s": draw(gen.seeds()), "ds": draw(st.integers(0, 2)), "mode": draw(st.sampled_from(["r", "c", "wa", "ml"])) if c > 1 else ""}
            if k == "refused":
                op["bad"] = draw(st.sampled_from(BAD))
            ops.append(op)
    last = draw(train_op(c, cls))
    if draw(st.integers(0, 3)) == 0:     # the very same training before, the data have changed since
        ops += [dict(last), {"k": "newdata", "s": draw(gen.seeds()), "ds": last["ds"], "mode": ""}]
    ops.append(last)
    return {"d": draw(st.integers(1, 4)), "c": c, "cls": cls, "prec": draw(gen.precs()), "acc": draw(st.sampled_from([None, None, "basic"])),
            "batch": draw(st.integers(1, 40)), "norm": draw(st.sampled_from([0.1, 1, 10])), "tiny": draw(st.integers(0, 5)), "s": draw(gen.seeds()),
            "init": draw(st.sampled_from(["", "", "c", "wc", "ml"])) if c > 1 else "", "groups": draw(gen.neuron_groups(maxgroups=3, maxn=5, cap=33, every=30)),
            "n": [draw(gen.rows(8, 30, every=30, cap=1100)) for _ in range(3)], "ops": ops}


def prepared(case):
    """Small activations with a comparably small norm: as well-conditioned, but nothing hides behind the regularisation."""
    if case["tiny"] == 0 and case["prec"] == "d":
        gr = [dict(g, f="tanh" if "rbf" in g["f"] or g["f"] == "sigm" else g["f"], sc=1e-3) for g in case["groups"]]
        case = dict(case, groups=gr, norm=case["norm"] * 1e-6)
    return case


def chk(case):
    with scratch(case["s"]) as dr:
        return run(prepared(case), dr)


class Run(object):
    def __init__(self, case, dr):
        self.case, self.dr = case, dr
        p, d, c = case["prec"], case["d"], case["c"]
        self.Z = gen.make_X(case["s"] + 99, 6, d, "n", p)
        self.sets = []
        for i, n in enumerate(case["n"]):
            self.sets.append(self.dataset(n, case["s"] + i, case["s"] + 3))
        self.files = {}
        self.nfile = 0

    def dataset(self, n, s, s2):
        p, d, c = self.case["prec"], self.case["d"], self.case["c"]
        X = gen.make_X(s, n, d, "n", p)
        H = gen.ref_H(gen.make_neurons(self.case["groups"], d, "n", p), X)
        F = H.dot(np.random.RandomState(s2).randn(H.shape[1], c)) + 0.5 * gen.make_T(s, n, c)
        if c > 1:
            y = F.argmax(1)
            y[:c] = np.arange(c)
            F = gen.onehot(y, c)
        return X, F.astype(PREC[p])

    def renew(self, i, s):
        """Replaces a dataset: in its arrays and its files."""
        X, T = self.sets[i]
        X[:], T[:] = self.dataset(len(X), s + 31, s + 32)
        if i in self.files:
            for f, A in zip(self.files[i], (X, T)):
                gen.write_h5(f, A)

    def path(self, name):
        self.nfile += 1
        return os.path.join(self.dr, "%s%d" % (name, self.nfile))

    def file(self, i):
        if i not in self.files:
            X, T = self.sets[i]
            self.files[i] = (gen.write_h5(self.path("X") + ".h5", X), gen.write_h5(self.path("T") + ".h5", T))
        return self.files[i]

    def new(self, neurons, batch):
        case = self.case
        kw = {"accelerator": case["acc"]} if case["acc"] else {}
        return gen.new_model(case["cls"], case["d"], case["c"], case["prec"], neurons, norm=case["norm"], batch=batch, **kw)

    def weights(self, s):
        return 0.2 + 3 * np.random.RandomState(s).rand(self.case["c"])

    def train_args(self, op):
        args, kw = [], {}
        m = op["mode"]
        if m:
            args.append("wc" if m in ("wc", "wa") else m)
        if m == "wc":
            kw["w"] = self.weights(op["s"])
        if op["sel"]:
            args.append(op["sel"])
        if op["sel"] == "V":
            kw["Xv"], kw["Tv"] = self.sets[(op["ds"] + 1) % 3]
        if op["sel"] == "CV":
            kw["k"] = 3 + op["s"] % 3
        if op["op"] and op["sel"]:
            args.append("OP")
            if op["kmax"]:
                kw["kmax"] = op["kmax"]
        if op["batch"]:
            kw["batch"] = op["batch"]
        if op.get("win"):
            kw["istart"] = op["win"][0]
            if op["win"][1]:
                kw["icount"] = op["win"][1]
                if m == "wa":   # automatic weights need samples of every class
                    kw["icount"] = 10**6
                    kw["istart"] = 0
            elif m == "wa":
                kw["istart"] = 0
        return args, kw


def pred(m, Z):
    if m.nnet.get_B() is None:
        refused("prediction", lambda: m.predict(Z), "predicting without a solution")
        return None
    return np.array(m.predict(Z))


def neurons_of(m):
    return [(n, f, np.array(W), np.array(B)) for n, f, W, B in m.nnet.get_neurons() if n > 0]


def run(case, dr):
    R = Run(case, dr)
    p, d, c = case["prec"], case["d"], case["c"]
    kw = {"classification": case["init"]} if case["init"] else {}
    if case["acc"]:
        kw["accelerator"] = case["acc"]
    m = gen.new_model(case["cls"], d, c, p, gen.make_neurons(case["groups"], d, "n", p), norm=case["norm"], batch=case["batch"], **kw)
    Z = R.Z
    last = pred(m, Z)
    tags = set()
    hist = []
    for op in case["ops"]:
        k = op["k"]
        X, T = R.sets[op["ds"]]
        H0 = np.array(m.project(Z))
        note = "after %s" % (hist + [k] if len(hist) < 6 else k)
        if k == "train":
            f = R.new(neurons_of(m), m.batch)
            args, kwa = R.train_args(op)
            a, b = R.file(op["ds"]) if op.get("file") else (X, T)
            out = [None, None]
            for i, q in ((0, m), (1, f)) if op["s"] % 2 else ((1, f), (0, m)):
                np.random.seed(op["s"])
                out[i] = q.train(a, b, *args, **{n: np.array(v) if isinstance(v, np.ndarray) else v for n, v in kwa.items()})
                if op["s"] % 3 == 0:      # others come in between
                    gen.bystander(op["s"] // 6, p)
            compare(m, f, out, X, T, Z, p, op, note)
            tags.add("train-%s%s" % (op["sel"] or "basic", "-OP" if op["op"] and op["sel"] else ""))
            last = pred(m, Z)
        elif k == "train_async":
            f = R.new(neurons_of(m), m.batch)
            a, b = R.file(op["ds"])
            out = [m.train_async(a, b), f.train(a, b)]
            compare(m, f, out, X, T, Z, p, {"mode": ""}, note)
            last = pred(m, Z)
        elif k == "solve":
            m.nnet.reset()
            m.add_data(X, T)
            m.nnet.solve()
            last = pred(m, Z)
        elif k == "loads":
            if op["s"] % 2:
                m.loads(m.dumps())
            else:
                fn = R.path("model")
                m.save(fn)
                m.load(fn)
            now = pred(m, Z)
            require((now is None) == (last is None), "loads", "weights %s" % ("lost" if now is None else "appeared"))
            if last is not None:
                same("loads", now, last, note)
        elif k == "neurons":
            r = np.random.RandomState(op["s"])
            for _ in range(r.randint(1, 3)):
                m.add_neurons(*gen.make_group({"f": gen.STD[r.randint(6)], "n": r.randint(1, 7), "s": op["s"] + 1}, d, "n", p))
            last = pred(m, Z)
        elif k == "setB":
            m.nnet.set_B(np.random.RandomState(op["s"]).randn(m.nnet.L, c).astype(PREC[p]))
            last = pred(m, Z)
        elif k in ("validation", "solve_disk"):
            a, b = R.file(op["ds"])
            fs = R.path("HH"), R.path("HT")
            m.add_data(a, b, fHH=fs[0], fHT=fs[1])
            now = pred(m, Z)
            if last is not None:
                same("add_data-prediction", now, last, note)
            if k == "validation" and not (m.classification == "wc" and m.wc is None):
                a, b = R.file((op["ds"] + 1) % 3)
                m.validation_corr(fs[0], fs[1], a, b, steps=3)
            else:
                m.solve_corr(*fs)
            last = pred(m, Z)
        elif k == "newdata":    # other data of the same size in the same files
            R.renew(op["ds"], op["s"])
        elif k == "inplace":    # results depend on the contents of arrays, not on which arrays they are
            Q = gen.make_X(op["s"], 6, d, "n", p)
            A = Q.copy()
            m.project(A)
            pred(m, A)
            A[:] = gen.make_X(op["s"] + 1, 6, d, "n", p)
            same("changed-array", m.project(A), m.project(A.copy()), note)
            if last is not None:
                same("changed-array", pred(m, A), pred(m, A.copy()), note)
                pred(m, A)
                A[op["s"] % 6] = 0.25
                same("changed-array", pred(m, A), pred(m, A.copy()), note)
                same("changed-array", pred(m, Z), last, note)
                t, e = np.array(T), None
                Y = np.asarray(m.predict(X))
                if not (m.classification == "wc" and m.wc is None):
                    m.error(t, Y)
                    t[::2] = T[-1]
                    e = m.error(t, Y)
                    require(e == m.error(t.copy(), np.array(Y)), "changed-array", "error %r %s" % (e, note))
        else:
            pure(R, m, op, X, T)
            same("projection-changed", m.project(Z), H0, note)
            now = pred(m, Z)
            require((now is None) == (last is None), "prediction-changed", "solution %s %s" % ("lost" if now is None else "appeared", note))
            if last is not None:
                same("prediction-changed", now, last, note)
            if k == "refused":
                tags.add("bad-" + op["bad"])
        if k not in ("train", "train_async", "validation"):
            tags.add(k)
        hist.append(k)
    return {"tags": sorted(tags)}


def compare(m, f, out, X, T, Z, p, op, note):
    tol = 1e-7 if p == "d" else 2e-2
    if p == "d" and f.nnet.HH is not None:      # other functions or precision would show in well-conditioned problems
        tol = min(tol, max(1e-11, 1e-12 * gen.cond(np.asarray(f.nnet.get_corr()[0]))**1.5))
    gm, gf = neurons_of(m), neurons_of(f)
    require([(g[0], g[1]) for g in gm] == [(g[0], g[1]) for g in gf], "selected-neurons",
            "%s, a fresh model has %s %s" % ([g[:2] for g in gm], [g[:2] for g in gf], note))
    for a, b in zip(gm, gf):
        same("selected-neurons", a[2], b[2], note)
        same("selected-neurons", a[3], b[3], note)
    require((out[0] is None) == (out[1] is None), "returned", "%r, %r" % tuple(out))
    if out[0] is not None:
        close("returned", out[0], out[1], tol, note=note)
    Yf = np.asarray(f.predict(Z))
    close("prediction", m.predict(Z), Yf, tol, note=note)
    # the same kind of error is reported
    Y = np.asarray(f.predict(X))
    if not (op["mode"] == "wa" and m.wc is None):
        close("error", m.error(T, Y), f.error(T, Y), tol, note=note)
    if op["mode"] in ("c", "wc", "wa", "ml"):
        same("confusion", m.confusion(T, Y), f.confusion(T, Y), note)
    else:
        refused("confusion", lambda: m.confusion(T, Y), "confusion of a regression model")
    require(m.classification == f.classification, "classification", "%r, %r in a fresh model %s" % (m.classification, f.classification, note))


def pure(R, m, op, X, T):
    k, p, c, d = op["k"], R.case["prec"], R.case["c"], R.case["d"]
    hp = R.case["cls"] == "HPELM"
    if k == "predict":
        pred(m, X)
    elif k == "project":
        m.project(X)
    elif k in ("error", "confusion"):
        Y = T + 0.3 * gen.make_T(op["s"], len(T), c)
        if k == "error":
            if not (m.classification == "wc" and m.wc is None):
                m.error(T, Y)
        elif m.classification is not None:
            m.confusion(T, Y)
    elif k == "save":
        m.save(R.path("model"))
    elif k == "dumps":
        m.dumps()
    elif k == "free":
        m.nnet.reset()
    elif k == "add_data":
        m.add_data(X, T)
    elif k == "add_disk":
        a, b = R.file(op["ds"])
        m.add_data(a, b, fHH=R.path("HH"), fHT=R.path("HT"))
    elif k in ("predict_file", "project_file"):
        a, _ = R.file(op["ds"])
        if k == "project_file":
            m.project(a, R.path("H") + ".h5")
        elif m.nnet.get_B() is not None:
            m.predict(a, R.path("Y") + ".h5")
    elif k == "solve_given":
        L = m.nnet.L
        A = np.random.RandomState(op["s"]).randn(L + 3, L)
        m.nnet.solve_corr((A.T.dot(A) + np.eye(L)).astype(PREC[p]), A[:L, :1].dot(np.ones((1, c))).astype(PREC[p]))
    elif k == "get":
        for v in (m.nnet.get_B(), m.nnet.get_neurons(), str(m)):
            pass
        if m.nnet.HH is not None:
            m.nnet.get_corr()
    elif k == "other":
        gen.bystander(op["s"], p)
    elif k == "refused":
        bad(R, m, op, X, T, hp)


def bad(R, m, op, X, T, hp):
    b, c, d = op["bad"], R.case["c"], R.case["d"]
    Xd = np.hstack((X, X[:, :1]))
    Tc = np.hstack((T, T[:, :1]))
    calls = {
        "dims": lambda: m.train(Xd, T), "outs": lambda: m.train(X, Tc), "rows": lambda: m.train(X[1:], T),
        "strings": lambda: m.train(X, T.astype(str)), "3d": lambda: m.train(X[:, :, None], T),
        "two-cls": lambda: m.train(X, T, "c", "ml"), "wlen": lambda: m.train(X, T, "wc", w=np.ones(c + 1)),
        "nofile": lambda: m.load(os.path.join(R.dr, "none")), "pred-dims": lambda: m.predict(Xd),
        "badB": lambda: m.nnet.set_B(np.ones((m.nnet.L + 1, c))), "badcorr": lambda: m.nnet.set_corr(np.eye(m.nnet.L + 1), np.ones((m.nnet.L + 1, c))),
        "add-dims": lambda: m.add_data(Xd, T), "add-outs": lambda: m.add_data(X, Tc), "add-rows": lambda: m.add_data(X[1:], T),
        "neurons-W": lambda: m.add_neurons(2, "tanh", np.ones((d + 1, 2)), np.ones(2)), "neurons-f": lambda: m.add_neurons(2, "tan")}
    if not hp:
        Xv, Tv = R.sets[0]
        calls.update({"noXv": lambda: m.train(X, T, "V", Tv=Tv), "noTv": lambda: m.train(X, T, "V", Xv=Xv), "nok": lambda: m.train(X, T, "CV"),
                      "k2": lambda: m.train(X, T, "CV", k=2), "two-sel": lambda: m.train(X, T, "LOO", "V", Xv=Xv, Tv=Tv)})
    else:
        a, t = R.file(op["ds"])
        calls["nofile"] = lambda: m.train(os.path.join(R.dr, "none.h5"), t)
    if b == "conf" and m.classification is None:
        calls["conf"] = lambda: m.confusion(T, T)
    if b in calls:
        refused("refused", calls[b], b)


SUBS = [Sub("history", cases, chk, lambda c: sum(o["k"] in CHANGE for o in c["ops"]) >= 2,
            "at least two operations that train or set the solution", quick=7200, thorough=80000, shards=8)]
