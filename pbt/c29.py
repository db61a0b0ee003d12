"""C29: models do not influence each other, interleaved in one thread or in several threads; a trained model predicts in several threads."""
import os
import sys
import threading
import numpy as np
import tables
from core import Sub, Violation, close, require, scratch
import gen
from gen import st, PREC

OPS = ("neurons", "train", "train", "select", "predict", "predict", "project", "error", "confusion", "data", "solve", "weights", "save", "precision", "ufunc")
HOPS = ("neurons", "train", "train", "predict", "predict", "project", "error", "confusion", "data", "solve", "filed", "disk", "save", "async", "validation", "ufunc")
UF = (np.sin, np.arctan, np.sin, np.expm1)


@st.composite
def models(draw, hp):
    d, c = draw(st.integers(1, 3)), draw(st.integers(2, 3))     # often the same sizes
    return {"d": d, "c": c, "hp": hp, "prec": draw(gen.precs()), "acc": draw(st.sampled_from([None, None, "basic"])), "s": draw(st.integers(0, 5)), "batch": draw(st.integers(2, 40)),
            "norm": draw(st.sampled_from([None, 0.5, 1])), "cl": draw(st.sampled_from(["", "c", "wc", "ml"])), "data": draw(st.integers(0, 2)),
            "ops": draw(st.lists(st.tuples(st.sampled_from(HOPS if hp else OPS), st.integers(0, 3), st.sampled_from(["", "c", "wc", "ml"])), min_size=2, max_size=6))}


@st.composite
def cases(draw):
    ms = [draw(models(draw(st.booleans()))) for _ in range(draw(st.integers(2, 3)))]
    return {"m": ms, "order": draw(st.lists(st.integers(0, 2), max_size=18)), "s": draw(gen.seeds())}


class Data(object):
    """Data sets by size and number: models may get the same arrays and files."""
    def __init__(self, dr):
        self.dr, self.sets, self.own = dr, {}, []

    def get(self, d, c, k):
        if (d, c, k) not in self.sets:
            r = np.random.RandomState(100 * d + 10 * c + k)
            X = r.randn(30 + k, d)
            T = np.eye(c)[gen.make_labels(k, 30 + k, c, True)]
            v = {"X": X, "T": T, "Y": r.rand(30 + k, c)}
            if self.dr is not None:
                for n in ("X", "T", "Y"):
                    v["f" + n] = gen.write_h5(os.path.join(self.dr, "%s-%d-%d-%d.h5" % (n, d, c, k)), v[n])
                    self.own.append((tables.open_file(v["f" + n], "r"), v[n]))      # the program reads it too
            self.sets[d, c, k] = v
        return self.sets[d, c, k]

    def check(self):
        """The program's own handles of the files still work."""
        for h, a in self.own:
            require(h.isopen, "own-files", "a data file opened by the program was closed")
            for node in h.walk_nodes("/", "Array"):
                require(np.array_equal(node[:], a), "own-files", "data in the program's own file")

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        for h, _ in self.own:
            if h.isopen:
                h.close()


def dropped():
    m = gen.new_model("HPELM", 2, 2, "d", batch=5)
    m.add_neurons(2, "tanh")
    del m


def steps(spec, data, dr, tag, fn=None):
    """A generator that runs one operation of the model at a time and yields what it gives."""
    kw = {"accelerator": spec["acc"]} if spec["acc"] else {}
    if spec["norm"]:
        kw["norm"] = spec["norm"]
    d, c, hp = spec["d"], spec["c"], spec["hp"]
    m = gen.new_model("HPELM" if hp else "ELM", d, c, spec["prec"], batch=spec["batch"], classification=spec["cl"], **kw)
    r = np.random.RandomState(spec["s"])
    v = data.get(d, c, spec["data"])

    def path(n):
        return os.path.join(dr, "%s-%s" % (tag, n))

    def rnd(n):
        return r.randn(d, n), np.abs(r.randn(n)) + 0.5
    m.add_neurons(3, "tanh", *rnd(3))
    if fn is not None:
        m.add_neurons(1, fn, *rnd(1))
    yield None
    for op, q, mode in spec["ops"]:
        margs = (mode,) if mode else ()
        X, T = (v["fX"], v["fT"]) if hp and q % 2 else (v["X"], v["T"])
        res = None
        if op == "neurons":
            m.add_neurons(q + 1, gen.STD[q], *rnd(q + 1))
        elif op == "ufunc":
            m.add_neurons(q + 1, UF[q], *rnd(q + 1))
        elif op == "train":
            m.train(X, T, *margs)
        elif op == "select":
            m.train(v["X"], v["T"], "OP", ("V", "CV", "LOO", "V")[q], *margs, **({"k": 3} if q == 1 else {} if q == 2 else {"Xv": v["X"][::2], "Tv": v["T"][::2]}))
            m.ranking = None
        elif op == "predict":
            res = m.predict(v["X"] + q) if m.nnet.get_B() is not None else None
        elif op == "project":
            res = m.project(v["X"] - q)
        elif op == "error":
            res = m.error(v["T"], v["Y"]) if m.classification != "wc" or m.wc is not None else None
        elif op == "confusion":
            res = m.confusion(v["T"], v["Y"]) if m.classification else None
        elif op == "data":
            m.add_data(X, T)
            res = m.nnet.get_corr()[1]
        elif op == "solve":
            m.add_data(X, T)
            m.nnet.solve()
        elif op == "weights":
            m.nnet.set_B(r.randn(m.nnet.L, c).astype(PREC[spec["prec"]]))
        elif op == "precision":
            res = float(m.precision is np.float32)
        elif op == "save":
            if not any(isinstance(g[1], np.ufunc) for g in m.nnet.get_neurons()):
                m.save(path("m.pkl"))
                m.load(path("m.pkl"))
        elif op == "filed":
            if m.nnet.get_B() is not None:
                m.predict(v["fX"], path("Y.h5"))
                res = gen.read_h5(path("Y.h5"))
        elif op in ("disk", "validation"):
            for g in ("HH.h5", "HT.h5"):
                if os.path.exists(path(g)):
                    os.unlink(path(g))
            m.add_data(v["fX"], v["fT"], fHH=path("HH.h5"), fHT=path("HT.h5"))
            if op == "disk":
                m.solve_corr(path("HH.h5"), path("HT.h5"))
            else:
                m.wc = np.arange(1.0, c + 1)
                res = m.validation_corr(path("HH.h5"), path("HT.h5"), v["fX"], v["fT"], steps=3)[1]
        elif op == "async":
            m.train_async(v["fX"], v["fT"], *margs)
        yield (op, None if res is None else np.array(res, dtype=float))
    if m.nnet.get_B() is None:
        m.add_data(v["X"], v["T"])
        m.nnet.solve()
    yield ("final", np.array(m.predict(v["X"]), dtype=float))
    yield ("sums", np.array(m.project(v["X"]), dtype=float))


def judge(key, got, want, what):
    require(len(got) == len(want), key, "%s: %d results, %d alone" % (what, len(got), len(want)))
    for (op, a), (_, b) in zip(got, want):
        require((a is None) == (b is None), key, "%s: %s" % (what, op))
        if b is not None:
            if np.all(np.isfinite(b)):
                close(key, a, b, 1e-9 * max(1, np.abs(b).max()), note="%s: %s" % (what, op))


def alone(case, dr, data):
    want = []
    for i, spec in enumerate(case["m"]):
        want.append([x for x in steps(spec, data, dr, "alone%d" % i) if x is not None])
    return want


def chk(case):
    ms = case["m"]
    with scratch(case["s"]) as dr, Data(dr) as data:
        want = alone(case, dr, data)
        gs = [steps(spec, data, dr, "t%d" % i) for i, spec in enumerate(ms)]
        got = [[] for _ in ms]
        live = list(range(len(ms)))
        order = list(case["order"])
        while live:
            i = order.pop(0) % len(live) if order else 0
            i = live[i]
            try:
                x = next(gs[i])
            except StopIteration:
                live.remove(i)
                dropped()
                continue
            if x is not None:
                got[i].append(x)
        for i in range(len(ms)):
            judge("interleaved", got[i], want[i], "model %d of %d" % (i, len(ms)))
        data.check()
    return {"tags": sorted(set(o[0] for m in ms for o in m["ops"]))}


# ---------------------------------------------------------------- one within the other

@st.composite
def ncases(draw):
    return {"m": [draw(models(draw(st.booleans()))), draw(models(draw(st.booleans())))], "every": draw(st.integers(3, 90)), "s": draw(gen.seeds())}


def nchk(case):
    """The first model's neuron function uses the second model, whose operations then run within those of the first."""
    outer, inner = case["m"]
    with scratch(case["s"]) as dr, Data(dr) as data:
        data.get(outer["d"], outer["c"], outer["data"]), data.get(inner["d"], inner["c"], inner["data"])
        want = [[x for x in steps(outer, data, dr, "alone0", np.frompyfunc(np.tanh, 1, 1)) if x is not None], [x for x in steps(inner, data, dr, "alone1") if x is not None]]
        g, got, count, runs = steps(inner, data, dr, "n1"), [], [0], [True]

        def fn(v):
            count[0] += 1
            if count[0] % case["every"] == 0 and runs[0]:
                try:
                    x = next(g)
                    if x is not None:
                        got.append(x)
                except StopIteration:
                    runs[0] = False
                    dropped()
            return np.tanh(v)
        res = [x for x in steps(outer, data, dr, "n0", np.frompyfunc(fn, 1, 1)) if x is not None]
        judge("nested-outer", res, want[0], "a model whose neurons use another model")
        judge("nested-inner", got, want[1][:len(got)], "a model used by neurons of another one")
        data.check()
    return {"tags": ["all" if not runs[0] else "part"] + sorted(set(o[0] for o in outer["ops"]))}


# ---------------------------------------------------------------- in threads

@st.composite
def tcases(draw):
    ms = [draw(models(False)) for _ in range(draw(st.integers(2, 4)))]
    return {"m": ms, "s": draw(gen.seeds()), "times": draw(st.integers(1, 3))}


def threads(fns):
    """Runs the functions at the same time, switching as often as possible; returns their results."""
    out, errs = [None] * len(fns), []
    start = threading.Barrier(len(fns))

    def go(i):
        try:
            start.wait(20)
            out[i] = fns[i]()
        except BaseException as e:
            errs.append(e)
    old = sys.getswitchinterval()
    sys.setswitchinterval(2e-6)
    try:
        ts = [threading.Thread(target=go, args=(i,), daemon=True) for i in range(len(fns))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if errs:
        raise errs[0]
    return out


def tchk(case):
    with scratch(0) as dr:
        data = Data(None)
        for spec in case["m"]:
            data.get(spec["d"], spec["c"], spec["data"])
        want = alone(case, dr, data)
        for t in range(case["times"]):
            got = threads([lambda i=i, s=s: [x for x in steps(s, data, dr, "t%d-%d" % (t, i)) if x is not None] for i, s in enumerate(case["m"])])
            for i in range(len(want)):
                judge("threads", got[i], want[i], "model %d of %d" % (i, len(want)))
    return {"tags": sorted(set(o[0] for m in case["m"] for o in m["ops"]))}


# ---------------------------------------------------------------- one trained model, several threads

@st.composite
def pcases(draw):
    return {"d": draw(st.integers(1, 4)), "c": draw(st.integers(2, 3)), "groups": draw(gen.neuron_groups(maxgroups=4, maxn=8, cap=130)), "prec": draw(gen.precs()),
            "cls": draw(st.sampled_from(["ELM", "ELM", "HPELM"])), "acc": draw(st.sampled_from([None, "basic"])), "s": draw(gen.seeds()), "batch": draw(st.integers(1, 40)),
            "rows": draw(st.lists(st.sampled_from([1, 2, 20, 20, 20, 200]), min_size=2, max_size=6)), "do": draw(st.lists(st.sampled_from(["predict", "predict", "project", "error", "confusion"]), min_size=6, max_size=6)),
            "times": draw(st.integers(2, 8)), "uf": draw(st.booleans())}


def pchk(case):
    d, c = case["d"], case["c"]
    kw = {"accelerator": case["acc"]} if case["acc"] else {}
    m = gen.new_model(case["cls"], d, c, case["prec"], gen.make_neurons(case["groups"], d, "n", case["prec"]), batch=case["batch"], **kw)
    if case["uf"]:
        m.add_neurons(2, np.sin, np.ones((d, 2)), np.arange(2.0))
    r = np.random.RandomState(case["s"])
    m.nnet.set_B(r.randn(m.nnet.L, c).astype(PREC[case["prec"]]))
    m.classification = "c"
    fns = []
    for i, n in enumerate(case["rows"]):
        X, T = r.randn(n, d), np.eye(c)[r.randint(0, c, n)]
        do = case["do"][i]
        fns.append({"predict": lambda X=X: m.predict(X), "project": lambda X=X: m.project(X), "error": lambda X=X, T=T: m.error(T, m.predict(X)),
                    "confusion": lambda X=X, T=T: m.confusion(T, m.predict(X))}[do])
    want = [np.array(f(), dtype=float) for f in fns]
    got = threads([lambda f=f: [f() for _ in range(case["times"])] for f in fns])
    for i, w in enumerate(want):
        for g in got[i]:
            close("shared-model", g, w, 1e-9 * max(1, np.abs(w).max()), note="%s in thread %d of %d" % (case["do"][i], i, len(want)))
    return {"tags": [case["cls"], case["acc"] or "default"]}


def fm(ops, hp, s, **kw):
    return dict({"d": 2, "c": 2, "hp": hp, "prec": "d", "acc": None, "s": s, "batch": 11, "norm": 1, "cl": "", "data": 0, "ops": ops}, **kw)


ALLOPS = [[o, i % 4, ("", "c", "wc", "ml")[i % 4]] for i, o in enumerate(OPS)]
ALLHOPS = [[o, i % 4, ("", "c", "wc", "ml")[i % 4]] for i, o in enumerate(HOPS)]
FIXED = [{"m": [fm(ALLOPS[i:i + 4], False, 1), fm(ALLOPS[j:j + 4], False, 2, prec="s" if i % 2 else "d", data=k % 2)], "order": [0, 1] * 9, "s": 0}
         for k, (i, j) in enumerate((i, j) for i in (0, 4, 8, 11) for j in (0, 4, 8, 11))] + \
        [{"m": [fm(ALLHOPS[i:i + 4], True, 1), fm(ALLHOPS[j:j + 4], True, 2, data=k % 2)], "order": [0, 1] * 9, "s": 0} for k, (i, j) in enumerate((i, j) for i in (0, 4, 8, 12) for j in (0, 4, 8, 12))]

SUBS = [
    Sub("interleaved", cases, chk, lambda c: len(set(c["order"])) > 1, "the models take turns", quick=1100, thorough=25000, shards=4, timeout=60, fixed=FIXED),
    Sub("nested", ncases, nchk, lambda c: c["every"] < 60, "several operations of one model within those of the other", quick=700, thorough=15000, shards=4, timeout=60),
    Sub("threads", tcases, tchk, lambda c: True, "every case: two to four threads", quick=900, thorough=15000, shards=3, timeout=60),
    Sub("shared", pcases, pchk, lambda c: sum(n >= 20 for n in c["rows"]) >= 2, "two threads with twenty rows or more", quick=1500, thorough=20000, shards=3, timeout=60),
]
