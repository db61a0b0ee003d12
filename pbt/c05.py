"""C05: asynchronous training and prediction equal the synchronous ones, terminate and leave no process behind."""
import multiprocessing as mp
import os
import time
import numpy as np
from core import Sub, Violation, Hang, asarray, close, same, require, scratch
import gen
from c03 import compare
from c04 import wins, cut, wkw, make_targets, weights
from gen import st, EPS, PREC


@st.composite
def ops(draw, n):
    k = draw(st.sampled_from(["train", "predict", "predict", "add", "addfiles"]))
    return {"k": k, "win": draw(wins(n)), "slow": draw(st.sampled_from([0, 0, 1, 2, 3])), "long": draw(st.sampled_from([None] * 9 + ["first", "last", "end"])), "ss": draw(gen.seeds()),
            "slot": draw(st.integers(0, 1)), "batch": draw(st.one_of(st.none(), gen.batch_of(n)))}


@st.composite
def cases(draw):
    d = draw(gen.wide(1, 3))
    c = draw(gen.wide(1, 3))
    n = draw(gen.rows(1, 20, every=15))
    mode = draw(st.sampled_from(["r", "r", "c", "wc", "wa"])) if c > 1 else "r"
    return {"d": d, "c": c, "n": n, "mode": mode, "groups": draw(gen.neuron_groups(maxgroups=2, maxn=3, cap=40, every=25)),
            "xk": draw(st.sampled_from(["n", "int", "shift"])), "xs": draw(gen.seeds()), "prec": draw(gen.precs()),
            "norm": draw(st.sampled_from([0.1, 1, 10])), "batch": draw(gen.batch_of(n)),
            "fdt": draw(st.sampled_from([None, None, "float64", "float32", "int32", "int8", "uint8"])), "stx": draw(st.sampled_from(gen.STORAGE)), "stt": draw(st.sampled_from(gen.STORAGE)), "ws": draw(gen.seeds()),
            "ops": draw(st.lists(ops(n), min_size=1, max_size=3)), "acc": draw(st.sampled_from([None, None, "basic"]))}


LONG = 0.6


class SlowQueue(object):
    """Delays every operation a little and the one numbered `long` a lot."""

    def __init__(self, q, r, lo, long):
        self.q, self.r, self.lo, self.long, self.k = q, r, lo, long, 0

    def _nap(self):
        time.sleep(self.lo * self.r.rand())
        if self.k == self.long:
            time.sleep(LONG)
        self.k += 1

    def get(self, *a, **k):
        v = self.q.get(*a, **k)
        self._nap()
        return v

    def put(self, *a, **k):
        self._nap()
        return self.q.put(*a, **k)

    def __getattr__(self, name):
        return getattr(self.q, name)


class slowed(object):
    """Slows down the helper processes (1: reader, 2: writer) or the main process (3).

    Timeouts of the main process pass at once then: relative to them the helpers may take arbitrarily long."""

    def __init__(self, slow, seed, model, long=None, nb=1):
        self.slow, self.seed, self.model = slow, seed, model
        self.long = {None: None, "first": 0, "last": nb - 1, "end": nb}[long]
        self.lo = 0.02 if nb < 40 else 0.001

    def __enter__(self):
        import hpelm.hp_elm as H
        self.H, self.old = H, {}
        name = {1: "_ireader", 2: "_iwriter"}.get(self.slow)
        r = np.random.RandomState(self.seed)
        if name and hasattr(H, name):
            real = getattr(H, name)
            self.old[name] = real

            def slow(fX, *qs):
                rr = np.random.RandomState((self.seed + os.getpid()) % 2**31)
                return real(fX, *[SlowQueue(q, rr, self.lo, self.long) for q in qs])
            setattr(H, name, slow)
        if self.slow == 3:
            for meth in ("add_batch", "_predict"):
                if hasattr(self.model.nnet, meth):
                    f = getattr(self.model.nnet, meth)

                    cnt = [0]

                    def nap(*a, _f=f, _c=cnt, **k):
                        time.sleep(self.lo * 0.5 * r.rand())
                        if _c[0] == self.long:
                            time.sleep(LONG)
                        _c[0] += 1
                        return _f(*a, **k)
                    setattr(self.model.nnet, meth, nap)
        self.patched = []
        if self.slow:
            import multiprocessing.process as P
            import multiprocessing.queues as Q
            self.hurry(P.BaseProcess, "join", 0)
            self.hurry(Q.Queue, "get", 1)
            self.hurry(Q.Queue, "put", 2)

    def hurry(self, cls, name, pos):
        real = cls.__dict__.get(name)
        if real is None:
            return

        def short(me, *a, **k):
            a = list(a)
            if len(a) > pos and a[pos] is not None:
                a[pos] = min(a[pos], 0.05)
            if k.get("timeout") is not None:
                k["timeout"] = min(k["timeout"], 0.05)
            return real(me, *a, **k)
        setattr(cls, name, short)
        self.patched.append((cls, name, real))

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.H, k, v)
        for cls, name, real in self.patched:
            setattr(cls, name, real)
        for meth in ("add_batch", "_predict"):
            self.model.nnet.__dict__.pop(meth, None)


def at_return(out):
    try:
        return gen.read_h5(out)
    except Exception as e:
        raise Violation("predict-unfinished", "results cannot be read when predict_async() has returned: %s" % e)


def children_gone(key):
    t = time.time()
    while mp.active_children():
        if time.time() - t > 20:
            raise Violation(key, "helper processes still running after the call: %s" % mp.active_children())
        time.sleep(0.01)


def chk(case):
    try:
        with scratch(case["xs"]) as dr:
            return history(case, dr)
    finally:
        for ch in mp.active_children():
            ch.kill()


def history(case, dr):
    p, c, mode = case["prec"], case["c"], case["mode"]
    eps = EPS[p]
    X = gen.make_X(case["xs"], case["n"], case["d"], case["xk"], p)
    T = make_targets(case)
    if case["fdt"]:
        X = gen.as_type(X, case["fdt"])
        T = gen.as_type(T, case["fdt"]) if mode != "r" else T.astype("float32")
    fX = gen.write_h5(os.path.join(dr, "x.h5"), X, case["stx"])
    fT = gen.write_h5(os.path.join(dr, "t.h5"), T, case["stt"])
    nn = gen.make_neurons(case["groups"], case["d"], case["xk"], p)
    w = weights(case)
    kw0 = {"norm": case["norm"], "batch": case["batch"]}
    if case["acc"]:
        kw0["accelerator"] = case["acc"]
    if mode != "r":
        kw0["classification"] = "wc" if mode in ("wc", "wa") else mode
        if kw0["classification"] == "wc":
            kw0["w"] = w
    m = gen.new_model("HPELM", case["d"], c, p, nn, **kw0)
    a = gen.new_model("HPELM", case["d"], c, p, nn, **kw0)
    Z = gen.make_X(case["xs"] + 1, 5, case["d"], case["xk"], p)
    seen, nfiles, tags, multi = None, 0, set(), False
    onfile = None
    for step, op in enumerate(case["ops"]):
        k, win = op["k"], op["win"]
        if op["batch"]:
            m.batch = a.batch = op["batch"]
        Tw = cut(T, win)
        multi = multi or len(Tw) > m.batch
        if k == "predict" and seen is None:
            m.train(X, T)
            a.train(X, T)
            seen = T
        with slowed(op["slow"], op["ss"], m, op["long"], -(-len(Tw) // m.batch)):
            if k == "train":
                args, kw = ((mode,) if mode not in ("r", "wa") else ()), {}
                if mode == "wc":
                    kw["w"] = w
                if mode == "wa":
                    args = ("wc",)
                    if not np.all(Tw.sum(0) > 0):
                        kw["w"] = w
                m.train_async(fX, fT, *args, **dict(kw, **wkw(win)))
            elif k == "add":
                m.add_data_async(fX, fT, **wkw(win))
            elif k == "addfiles":
                h = [os.path.join(dr, "%s%d.h5" % (q, op["slot"])) for q in ("mHH", "mHT")]
                m.add_data_async(fX, fT, fHH=h[0], fHT=h[1], **wkw(win))
            else:
                out = os.path.join(dr, "my%d.h5" % op["slot"])
                m.predict_async(fX, out, **wkw(win))
                if op["slow"] == 2:
                    Y0 = at_return(out)
        if k == "predict" and op["slow"] == 2:
            children_gone(k)
            same("predict-unfinished", Y0, gen.read_h5(out), "the file changes after predict_async() returned")
        children_gone(k)
        tags.add(k)
        if k == "train":
            a.train(fX, fT, *args, **dict(kw, **wkw(win)))
            seen = Tw
        elif k == "add":
            a.add_data(fX, fT, **wkw(win))
            seen = Tw if seen is None else np.vstack((seen, Tw))
            for q in (a, m):
                q.nnet.solve()
        elif k == "addfiles":
            g = [os.path.join(dr, "%s%d.h5" % (q, op["slot"])) for q in ("aHH", "aHT")]
            a.add_data(fX, fT, fHH=g[0], fHT=g[1], **wkw(win))
            for f1, f2 in zip(h, g):
                A, B = gen.read_h5(f1), gen.read_h5(f2)
                close("addfiles", A, B, 50 * eps * (case["n"] + 3), scale=np.max(np.abs(B)) + np.max(np.abs(gen.read_h5(g[0])))**0.5 * np.linalg.norm(T) + 1)
            for q, f in ((a, g), (m, h)):
                q.solve_corr(*f)
            seen = Tw
            Y = asarray(a.predict(Z), "predict")
            close("addfiles-solution", m.predict(Z), Y, 1e-6 if p == "d" else 2e-2, scale=np.max(np.abs(Y)) + 1e-3)
            for q in (a, m):   # leave the accumulation behind
                q.nnet.reset()
            continue
        else:
            ref = os.path.join(dr, "ay%d.h5" % op["slot"])
            a.predict(fX, ref, **wkw(win))
            Y, W = gen.read_h5(out), gen.read_h5(ref)
            close("predict", Y, W, 1e-9 if p == "d" else 1e-3, scale=np.max(np.abs(W)) + 1e-3, note="step %d %s" % (step, op))
            continue
        compare(a, m, Z, p, seen, case["norm"], [], key=k)
    return {"tags": sorted(tags) + ["mode-" + mode, "several-batches" if multi else "one-batch"] +
            ["slow-%d" % s for s in sorted(set(op["slow"] for op in case["ops"]))]}


def big(i, n, batch, ops, **kw):
    """Thousands of rows: sizes at which buffers or files might change their form."""
    return dict({"d": 2, "c": 2, "n": n, "mode": "r", "groups": [{"f": "tanh", "n": 3, "s": i}], "xk": "n", "xs": 40 + i, "prec": "d", "norm": 0.1,
                 "batch": batch, "fdt": None, "stx": "carray", "stt": "carray", "ws": i, "acc": None,
                 "ops": [{"k": k, "win": [0, None], "slow": 0, "long": None, "ss": i, "slot": 0, "batch": None} for k in ops]}, **kw)


FIXED = [big(0, 1201, 1000, ["train", "predict"]), big(1, 3000, 2999, ["predict", "add"]), big(2, 5003, 251, ["addfiles", "predict"]),
         big(3, 2049, 2048, ["train", "add", "predict"], c=1, acc="basic"), big(4, 10007, 10000, ["predict", "addfiles"], prec="s"),
         big(5, 70001, 65536, ["train", "predict"], mode="c"), big(6, 70003, 4000, ["predict"], stx="chunk"),
         big(7, 1500, 100, ["train", "addfiles", "predict"], groups=[{"f": "sigm", "n": 70, "s": 1}, {"f": "lin", "n": 2, "s": 2}])]
FIXED += [big(20 + i, 2 * nb - i % 2, 2, ["train", "predict", "addfiles"], mode=("r", "c", "wa")[i % 3]) for i, nb in enumerate((32, 33, 64, 65, 100, 129, 257, 513, 1001, 1025))]

SUBS = [Sub("async", cases, chk, lambda c: c["n"] >= 3 and any(min(c["n"], o["win"][1] or 99) > (o["batch"] or c["batch"]) for o in c["ops"]),
            "at least three rows and an operation with more than one batch", quick=720, thorough=12000, shards=8, timeout=40, fixed=FIXED)]
ASSUMPTIONS = ["non-termination is judged by 40 s, retried with 100 s, for an operation that takes milliseconds"]
