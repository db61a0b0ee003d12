"""C08: a saved model loads back as the same model."""
import multiprocessing as mp
import os
import numpy as np
from core import Sub, Violation, asarray, close, same, require, refused, scratch
import gen
import ref
from c02 import ufunc, scale_of
from c03 import compare
from c04 import make_targets, weights
from gen import st, EPS, PREC

UF = ("sin", "arctan", "cos")


@st.composite
def someone(draw, types):
    return {"cls": draw(st.sampled_from(["ELM", "ELM", "HPELM"])), "acc": draw(st.sampled_from([None, None, "basic"])),
            "prec": draw(gen.precs()), "norm": draw(st.sampled_from([None, 0, 1e-12, 0.1, 1, 10])), "batch": draw(st.integers(1, 20)),
            "groups": draw(gen.neuron_groups(maxgroups=3, maxn=4, types=types, cap=65)),
            "cl": draw(st.sampled_from(["", "", "c", "wc", "ml", "WC"])), "w": draw(st.booleans()),
            "state": draw(st.sampled_from(["empty", "untrained", "trained", "trained", "accumulated", "pruned", "again"]))}


@st.composite
def cases(draw):
    d = draw(gen.wide(1, 4))
    c = draw(gen.wide(2, 4))
    n = max(c, draw(gen.rows(4, 25, every=20)))    # automatic class weights need every class
    return {"d": d, "c": c, "n": n, "xs": draw(gen.seeds()), "xk": "n", "ws": draw(gen.seeds()),
            "mode": draw(st.sampled_from(["r", "c", "wc", "ml"])), "T": draw(st.sampled_from(["r", "r", "c", "ml", "z"])),
            "ts": draw(st.sampled_from([0, 0, 0, 0, -40, 30])),
            "src": draw(someone(gen.STD + UF)), "dst": draw(someone(gen.STD)), "dd": draw(st.integers(1, 4)), "dc": draw(st.integers(2, 4)),
            "via": draw(st.sampled_from(["file", "bytes", "file-bytes", "bytes-file"])), "else": draw(st.integers(0, 5)) == 0, "gens": draw(st.integers(1, 2)),
            "over": draw(st.booleans())}


def data(case, d, c, off=0):
    X = np.round(gen.make_X(case["xs"] + off, case["n"], d) * 64) / 64     # exact in both precisions
    if case["T"] == "r":
        T = np.round(gen.make_T(case["xs"] + off, case["n"], c) * 64) / 64 * 2.0**case["ts"]
    elif case["T"] == "z":       # the solution is zero
        T = np.zeros((case["n"], c))
    elif case["T"] == "ml":
        T = gen.make_multilabel(case["xs"] + off, case["n"], c)
    else:
        T = gen.onehot(gen.make_labels(case["xs"] + off, case["n"], c, every=True), c)
    return X, T


def build(case, who, d, c, off=0):
    kw = {"accelerator": who["acc"]} if who["acc"] else {}
    cl = who["cl"]
    if cl.lower() == "wc" and case["T"] != "c":
        cl = "c"
    if who["w"]:
        kw["w"] = 0.5 + np.random.RandomState(case["ws"] + off).rand(c)
    m = gen.new_model(who["cls"], d, c, who["prec"], norm=who["norm"], batch=who["batch"], classification=cl, **kw)
    if who["state"] == "empty":
        return m
    for g in who["groups"]:
        n, f, W, B = gen.make_group(g, d, "n", who["prec"])
        m.add_neurons(n, ufunc(f) if f in UF else f, W, B)
    if who["state"] == "untrained":
        return m
    X, T = data(case, d, c, off)
    if who["state"] == "accumulated":
        m.add_data(X, T)
        return m
    args, kw = [], {}
    if case["mode"] != "r" and (case["T"] == "c" or case["mode"] == "ml"):
        args.append(case["mode"])
        if case["mode"] == "wc" and who["w"]:
            kw["w"] = 0.5 + np.random.RandomState(case["ws"] + off).rand(c)
    if who["state"] == "pruned" and who["cls"] == "ELM":
        args += ["V"]
        kw.update(Xv=X[::2], Tv=T[::2])
    m.train(X, T, *args, **kw)
    if who["state"] == "again":
        m.add_neurons(1, "lin", np.ones((d, 1)), np.zeros(1))
    return m


def describe(m):
    return {"neurons": [(n, f, np.array(W), np.array(B)) for n, f, W, B in m.nnet.get_neurons()],
            "B": None if m.nnet.get_B() is None else np.array(m.nnet.get_B()), "norm": m.nnet.norm,
            "cl": m.classification, "wc": None if m.wc is None else np.array(m.wc), "in": m.nnet.inputs, "out": m.nnet.outputs}


def same_model(key, got, want, prec=None):
    cast = (lambda v: v.astype(PREC[prec])) if prec else (lambda v: v)
    for k in ("in", "out", "norm", "cl"):
        require(got[k] == want[k], key + "-" + k, "%r, expected %r" % (got[k], want[k]))
    require((got["wc"] is None) == (want["wc"] is None), key + "-wc", "class weights %r, expected %r" % (got["wc"], want["wc"]))
    if want["wc"] is not None:
        same(key + "-wc", got["wc"], want["wc"])
    require(len(got["neurons"]) == len(want["neurons"]), key + "-neurons", "%d groups of neurons, expected %d"
            % (len(got["neurons"]), len(want["neurons"])))
    for a, b in zip(got["neurons"], want["neurons"]):
        require(a[0] == b[0] and (a[1] == b[1] or a[1] is b[1]), key + "-neurons", "%r instead of %r" % (a[:2], b[:2]))
        same(key + "-W", a[2], cast(b[2]))
        same(key + "-bias", a[3], cast(b[3]))
        require(a[2].dtype == cast(b[2]).dtype and a[3].dtype == cast(b[3]).dtype, key + "-precision", "%s" % a[2].dtype)
    require((got["B"] is None) == (want["B"] is None), key + "-B", "solution %s" % ("lost" if got["B"] is None else "appeared"))
    if want["B"] is not None:
        same(key + "-B", got["B"], cast(want["B"]))
        require(got["B"].dtype == cast(want["B"]).dtype, key + "-precision", "weights %s" % got["B"].dtype)


def transfer(m, to, case, path):
    src, dst = case["via"].split("-") if "-" in case["via"] else (case["via"], case["via"])
    if src == "bytes":
        b = m.dumps()
        require(isinstance(b, bytes), "dumps", "returned %s" % type(b))
        if dst == "file":
            with open(path, "wb") as f:
                f.write(b)
    else:
        if case["over"]:
            with open(path, "wb") as f:
                f.write(b"x" * 100000)
        m.save(path)
        if dst == "bytes":
            with open(path, "rb") as f:
                b = f.read()
    if dst == "bytes":
        to.loads(b)
    else:
        to.load(path)


class Elsewhere(object):
    """A process that has never seen the saved model and loads it."""
    proc = None

    @classmethod
    def start(cls):
        cls.conn, child = mp.Pipe()
        cls.proc = mp.get_context("fork").Process(target=cls.serve, args=(child, cls.conn))
        cls.proc.daemon = True
        cls.proc.start()
        child.close()

    @staticmethod
    def serve(conn, other):
        other.close()
        while True:
            try:
                cls, d, c, kw, data, Z = conn.recv()
            except EOFError:
                os._exit(0)
            try:
                m = gen.new_model(cls, d, c, **kw)
                m.load(data) if isinstance(data, str) else m.loads(data)
                r = describe(m)
                r["neurons"] = [(n, f if isinstance(f, str) else f.__name__, W, B) for n, f, W, B in r["neurons"]]
                conn.send((True, r, None if r["B"] is None else np.array(m.predict(Z))))
            except Exception as e:
                conn.send((False, "%s: %s" % (type(e).__name__, e), None))

    @classmethod
    def load(cls, *args):
        if cls.proc is None or not cls.proc.is_alive():
            cls.start()
        try:
            cls.conn.send(args)
            if not cls.conn.poll(30):
                raise Violation("elsewhere", "loading in another process does not end")
            return cls.conn.recv()
        except BaseException:
            cls.proc.kill()
            cls.proc = None
            raise


def chk(case):
    if Elsewhere.proc is None:
        Elsewhere.start()
    with scratch(case["xs"]) as dr:
        return run(case, dr)


def run(case, dr):
    src, dst = case["src"], case["dst"]
    d, c = case["d"], case["c"]
    a = build(case, src, d, c)
    X, T = data(case, d, c)
    Z, TZ = data(case, d, c, 5)
    want = describe(a)
    Ya = asarray(a.predict(Z), "predict").copy() if want["B"] is not None else None
    if src["state"] == "accumulated":
        corr = [np.array(v) for v in a.nnet.get_corr()]
    chain = [a]
    for g in range(case["gens"]):
        b = build(case, dst, case["dd"], case["dc"], off=3 + g)
        kind, batch, prec = type(b.nnet), b.batch, b.precision
        transfer(chain[-1], b, case, os.path.join(dr, "model%d" % g))
        require(type(b.nnet) is kind, "solver", "%s became %s" % (kind.__name__, type(b.nnet).__name__))
        require(b.batch == batch and b.precision is prec, "receiver", "batch or precision changed")
        chain.append(b)
        same_model("loaded", describe(b), want if g == 0 else describe(chain[-2]), dst["prec"])
    if case["else"]:     # in another process
        fn = os.path.join(dr, "elsewhere")
        a.save(fn)
        kw = {"prec": dst["prec"], "batch": dst["batch"]}
        if dst["acc"]:
            kw["accelerator"] = dst["acc"]
        ok, got, Y = Elsewhere.load(dst["cls"], case["dd"], case["dc"], kw, os.path.abspath(fn) if case["via"][:4] == "file" else a.dumps(), Z)
        require(ok, "elsewhere", str(got))
        names = dict(want, neurons=[(n, f if isinstance(f, str) else f.__name__, W, B) for n, f, W, B in want["neurons"]])
        same_model("elsewhere", got, names, dst["prec"])
        if Y is not None:
            close("elsewhere-predict", Y, chain[1].predict(Z), 1e-9 if dst["prec"] == "d" else 1e-4)
    same_model("saved", describe(a), want)   # saving changes nothing
    if src["state"] == "accumulated":
        for u, v in zip(a.nnet.get_corr(), corr):
            same("saved-sums", u, v)
    b = chain[-1]
    p = "s" if "s" in (src["prec"], dst["prec"]) else "d"
    eps = EPS[p]
    tags = ["src-" + src["state"], "dst-" + dst["state"], case["via"], "prec-%s%s" % (src["prec"], dst["prec"])]
    if not want["neurons"]:
        refused("empty", lambda: b.predict(Z), "predicting with an empty model")
    elif want["B"] is None:
        refused("untrained", lambda: b.predict(Z), "predicting with an untrained model")
    else:
        Yb = asarray(b.predict(Z), "predict")
        H = asarray(a.project(Z), "project")
        sH = scale_of([nn for nn in want["neurons"]], Z)
        tol = 60 * eps * (d + H.shape[1] + 2)
        close("predict", Yb, Ya, tol, scale=sH.dot(np.abs(want["B"].astype(float))) + 1e-300)
        if want["cl"] != "wc" or want["wc"] is not None:
            # the same error of the same predictions
            Yr = Ya.astype(PREC[dst["prec"]])
            Te = TZ if want["cl"] != "wc" or case["T"] == "c" else gen.onehot(np.argmax(TZ, 1), c)
            close("error", b.error(Te, Yr), ref.error(want["cl"], Te, Yr, want["wc"]), 1e-4 if p == "s" else 1e-11)
    if want["neurons"]:
        # continues and trains as the original
        f = gen.new_model("ELM", d, c, dst["prec"], [(n, fn, W.astype(PREC[dst["prec"]]), B.astype(PREC[dst["prec"]]))
                                                     for n, fn, W, B in want["neurons"]], norm=want["norm"])
        if case["xs"] % 2 and (want["cl"] != "wc" or (case["T"] == "c")):
            if want["cl"] == "wc":
                f.classification, f.wc = "wc", want["wc"]
            f.add_data(Z, TZ)
            f.nnet.solve()
            b.add_data(Z, TZ)
            b.nnet.solve()
        else:
            f.train(Z, TZ)
            b.train(Z, TZ)
        compare(f, b, X, dst["prec"], TZ, want["norm"], [], key="retrained")
        # independent of the original
        if want["B"] is not None:
            a.train(Z[:3], TZ[:3] * 2)
            Yb = asarray(b.predict(X), "predict").copy()
            a.add_neurons(1, "tanh", np.ones((d, 1)), np.ones(1))
            same("independent", b.predict(X), Yb)
    return {"tags": tags}


def big(i, d, c, n, L, **kw):
    one = lambda j, **k: dict({"cls": ("ELM", "HPELM")[(i + j) % 2], "acc": None, "prec": "d", "norm": 1, "batch": 20, "groups": [{"f": f, "n": k, "s": i + j + k} for f, k in L],
                               "cl": "", "w": False, "state": "trained"}, **k)
    return dict({"d": d, "c": c, "n": n, "xs": 100 + i, "xk": "n", "ws": i, "mode": "r", "T": "r", "ts": 0, "src": one(0, **kw), "dst": one(1), "dd": 2, "dc": 3,
                 "via": ("file", "bytes")[i % 2], "gens": 1 + i % 2, "else": True, "over": i % 3 == 0})


FIXED = [big(0, 4, 2, 400, [("tanh", 257)]), big(1, 300, 2, 50, [("sigm", 20), ("lin", 30)]), big(2, 3, 200, 300, [("tanh", 30)]), big(3, 20, 3, 700, [("tanh", 300), ("rbf_l2", 300), ("sin", 5)]),
         big(4, 3, 2, 500, [("rbf_l1", 270)], state="accumulated"), big(5, 3, 3, 300, [("tanh", 130), ("lin", 3)], state="pruned", cls="ELM"),
         big(6, 4, 12, 60, [("tanh", 60)], cl="wc", w=True, prec="s")]

SUBS = [Sub("saveload", cases, chk, lambda c: c["src"]["state"] not in ("empty", "untrained"), "the saved model holds data or a solution",
            quick=7200, thorough=60000, shards=4, fixed=FIXED)]
