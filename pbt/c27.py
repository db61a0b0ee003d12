"""C27: everything random comes from numpy's global generator and nothing else touches it."""
import json
import os
import subprocess
import sys
import numpy as np
from core import Sub, Violation, asarray, close, same, require, scratch
import gen
from gen import st, PREC, RBF

RANDOM = ("add", "add_W", "select", "rbf")
OPS = ("add", "add", "add_W", "given", "train", "select", "select", "selectOP", "predict", "project", "error", "confusion", "save", "rbf", "rbf", "normalize", "make", "data", "solve", "weights", "state")
HOPS = ("add", "add", "add_W", "given", "train", "train_async", "disk", "disk_async", "predict", "predict_async", "project", "error", "confusion", "save", "rbf", "validation", "solve_corr", "data", "make", "normalize", "filed")


@st.composite
def ops(draw, hp):
    return {"op": draw(st.sampled_from(HOPS if hp else OPS)), "f": draw(st.sampled_from(gen.STD)), "n": draw(st.integers(1, 8)), "m": draw(st.sampled_from(["", "c", "wc", "ml"])),
            "sel": draw(st.sampled_from(["V", "CV", "LOO"])), "k": draw(st.integers(3, 6)), "file": draw(st.booleans()), "metric": draw(st.sampled_from(["l1", "l2", "linf"]))}


@st.composite
def cases(draw, hp=None):
    hp = draw(st.booleans()) if hp is None else hp
    return {"hp": hp, "d": draw(st.integers(1, 5)), "c": draw(st.integers(2, 3)), "n": draw(st.integers(20, 45)), "prec": draw(gen.precs()), "s": draw(gen.seeds()),
            "seed": draw(st.integers(0, 2**32 - 2)), "batch": draw(st.integers(3, 50)), "acc": draw(st.sampled_from([None, "basic"])), "first": draw(ops(hp)),
            "ops": draw(st.lists(ops(hp), min_size=1, max_size=3 if hp else 6)), "warm": draw(st.integers(0, 9))}


def state():
    a = np.random.get_state()
    return (a[0], a[1].tobytes()) + tuple(a[2:])


class Generator(object):
    """Operations that are not random leave the generator alone; the others use it."""
    def before(self, k, o):
        self.state = state()

    def after(self, k, o):
        if o["op"] == "add" and o["f"] == "lin":
            pass    # not random, but what is drawn for other types may be drawn and thrown away
        elif o["op"] not in RANDOM:
            require(state() == self.state, "generator-used", "%s (step %d) changes the state of numpy's generator" % (o["op"], k))
        elif o["op"] != "select":
            require(state() != self.state, "generator-unused", "%s (step %d) draws nothing from numpy's generator" % (o["op"], k))


def run(case, dr, watch=None, extra=None):
    """The program: a list of (what, drawn values or None, numeric result or None) and the generator's state at the end."""
    watch = watch or Generator()
    d, c, n, p = case["d"], case["c"], case["n"], case["prec"]
    kw = {"accelerator": case["acc"]} if case["acc"] else {}
    m = gen.new_model("HPELM" if case["hp"] else "ELM", d, c, p, norm=1, batch=case["batch"], **kw)
    r = np.random.RandomState(case["s"])
    X = r.randn(n, d)
    y = gen.make_labels(case["s"], n, c, True)
    T = np.eye(c)[y]
    files = {k: gen.write_h5(os.path.join(dr, k + ".h5"), v) for k, v in (("X", X), ("T", T), ("Y", T[::-1]))}
    HH, HT = os.path.join(dr, "HH.h5"), os.path.join(dr, "HT.h5")
    out = []

    def trained():
        return m.nnet.get_B() is not None

    def do(k, o):
        op, f, q = o["op"], o["f"], o["n"]
        margs = (o["m"],) if o["m"] else ()
        drawn = res = None
        if op == "add":
            m.add_neurons(q, f)
        elif op == "add_W":
            m.add_neurons(q, "sigm" if f == "lin" else f, W=r.randn(d, q))
        elif op == "given":
            m.add_neurons(q, f, r.randn(d, q), np.abs(r.randn(q)) + 1)
        elif op == "train":
            m.train(*((files["X"], files["T"]) if case["hp"] else (X, T)), *margs)
        elif op == "train_async":
            m.train_async(files["X"], files["T"], *margs)
        elif op in ("disk", "disk_async"):
            for g in (HH, HT):
                if os.path.exists(g):
                    os.unlink(g)
            (m.add_data if op == "disk" else m.add_data_async)(files["X"], files["T"], fHH=HH, fHT=HT)
            res = gen.read_h5(HH)
        elif op in ("select", "selectOP"):
            k = {"k": o["k"]} if o["sel"] == "CV" else {"Xv": X[::2] + 0.25, "Tv": T[::2]} if o["sel"] == "V" else {}
            m.train(X, T, o["sel"], *(margs + (("OP",) if op == "selectOP" else ())), **k)
        elif op == "predict":
            if trained():
                res = m.predict(X)
        elif op == "predict_async":
            if trained():
                m.predict_async(files["X"], os.path.join(dr, "out.h5"))
                res = gen.read_h5(os.path.join(dr, "out.h5"))
        elif op == "project":
            res = m.project(X)
        elif op == "filed":     # everything from files to files
            if trained():
                m.predict(files["X"], os.path.join(dr, "out.h5"))
            m.project(files["X"], os.path.join(dr, "made.h5"))
            m.error(files["T"], files["Y"])
            if m.classification in ("c", "wc", "ml"):
                m.confusion(files["T"], files["Y"])
        elif op == "error":
            res = m.error(T, T[::-1] * 0.5)
        elif op == "confusion":
            if m.classification in ("c", "wc", "ml"):
                res = m.confusion(T, T[::-1])
        elif op == "save":
            g = os.path.join(dr, "model.pkl")
            m.save(g)
            m.load(g)
            if o["file"]:
                m.loads(m.dumps())
        elif op == "rbf":
            from hpelm.modules.rbf_param import rbf_param
            W, B = rbf_param(files["X"] if o["file"] else X, q, o["metric"])
            drawn = [W, B]
        elif op == "normalize":
            from hpelm.modules.hdf5_tools import normalize_hdf5
            g = gen.write_h5(os.path.join(dr, "norm.h5"), X)
            res = normalize_hdf5(g, batch=7)[0]
            if o["file"]:
                normalize_hdf5(g)
            if q % 2:
                normalize_hdf5(g, res, res * 0 + 2)
        elif op == "make":
            from hpelm.modules.hdf5_tools import make_hdf5
            how, src = ("array", "csv", "txt.gz", "npy", "shape", "txt.bz2")[(q + o["k"]) % 6], X
            if how == "shape":
                src = (4, q)
            elif how != "array":
                src = os.path.join(dr, "text." + how)
                (np.save if how == "npy" else np.savetxt)(src, X)
            make_hdf5(src, os.path.join(dr, "made.h5"), comp_level=o["k"] % 3)
        elif op == "data":
            m.add_data(X, T)
            res = m.nnet.get_corr()[0]
        elif op == "solve":
            m.add_data(X, T)
            m.nnet.solve()
        elif op == "weights":
            m.nnet.set_B(r.randn(m.nnet.L, c).astype(PREC[p]))
        elif op == "state":
            str(m), repr(m), m.nnet.get_B(), m.nnet.get_neurons()
        elif op in ("validation", "solve_corr"):
            for g in (HH, HT):
                if os.path.exists(g):
                    os.unlink(g)
            m.add_data(files["X"], files["T"], fHH=HH, fHT=HT)
            if op == "validation":
                m.classification = o["m"] or None
                m.wc = np.ones(c) if o["m"] == "wc" else None
                res = m.validation_corr(HH, HT, files["X"], files["T"], steps=4)[1]
            else:
                m.solve_corr(HH, HT)
        else:
            extra(op, m, dr, files)
        return drawn, res
    todo = [dict(case["first"], op="add", f="tanh", n=5), case["first"]] + case["ops"]
    for k, o in enumerate(todo):
        watch.before(k, o)
        drawn, res = do(k, o)
        watch.after(k, o)
        ns = m.nnet.get_neurons()
        out.append((o["op"], [np.asarray(v, dtype=float) for v in (drawn or [])] + [np.asarray(v, dtype=float).copy() for g in ns for v in (g[2], g[3])],
                    [np.asarray(v, dtype=float).copy() for v in ([res] if res is not None else []) + ([m.nnet.get_B()] if trained() else [])]))
    return out, state()


def disturb(case):
    """Other work in the same process between the two runs."""
    m = gen.new_model("ELM", 2, 1)
    m.add_neurons(1 + case["warm"], "tanh")
    X = np.random.rand(12, 2)
    m.train(X, X[:, :1])
    np.random.rand(case["warm"])


def chk(case):
    outs = []
    for i in range(2):
        with scratch(case["s"]) as dr:
            np.random.seed(case["seed"])
            outs.append(run(case, dr))
        disturb(case)
    tol = 1e-7 if case["prec"] == "d" else 2e-3
    compare(outs, tol)
    with scratch(case["s"]) as dr:
        np.random.seed(case["seed"] + 1)
        other = run(case, dr)
    require(other[1] != outs[0][1], "seeded-inside", "two seeds lead to the same state of the generator")
    require(not np.array_equal(other[0][0][1][0], outs[0][0][0][1][0]), "seed-ignored", "two seeds give the same default weights")
    return {"tags": sorted(set(o[0] for o in outs[0][0]))}


def compare(outs, tol):
    for k, (a, b) in enumerate(zip(outs[0][0], outs[1][0])):
        require(len(a[1]) == len(b[1]) and len(a[2]) == len(b[2]), "not-reproducible", "step %d, %s" % (k, a[0]))
        for u, v in zip(a[1], b[1]):
            same("not-reproducible", v, u, "step %d, %s, with the same seed" % (k, a[0]))
        for u, v in zip(a[2], b[2]):
            close("not-reproducible-result", v, u, tol, note="step %d, %s, with the same seed" % (k, a[0]))
    require(outs[0][1] == outs[1][1], "generator-state", "two runs leave the generator in different states")


# ---------------------------------------------------------------- in two processes

def pchk(case):
    outs = []
    for h in ("1", "77"):
        env = dict(os.environ, PYTHONHASHSEED=h)
        p = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0, %r); import bootstrap, c27; c27.child()" % os.path.dirname(os.path.abspath(__file__))],
                           input=json.dumps(case), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
        last = (p.stdout.strip().splitlines() or [""])[-1]
        if not last.startswith("OUT "):
            raise Violation("process", "%s %s" % (p.stdout[-500:], p.stderr[-1500:]))
        o = json.loads(last[4:])
        outs.append(([(k, [np.array(v) for v in a], [np.array(v) for v in b]) for k, a, b in o[0]], o[1]))
    compare(outs, 1e-7 if case["prec"] == "d" else 2e-3)
    return {"tags": sorted(set(o[0] for o in outs[0][0]))}


def child():
    import contextlib
    import io
    case = json.loads(sys.stdin.read())
    np.random.seed(case["seed"])
    with scratch(case["s"]) as dr, contextlib.redirect_stdout(io.StringIO()):
        try:
            out, s = run(case, dr)
        finally:
            import core
    core.cleanup()
    import hashlib
    print("OUT " + json.dumps(([(k, [v.tolist() for v in a], [v.tolist() for v in b]) for k, a, b in out], hashlib.sha1(repr(s).encode()).hexdigest())))


def rule(c):
    return any(o["op"] in ("select", "rbf", "add_W") or o["op"] == "add" and o["f"] != "lin" for o in [c["first"]] + c["ops"])


def fixed(i, names, hp, **kw):
    o = [{"op": q, "f": gen.STD[(i + j) % len(gen.STD)], "n": 2 + j, "m": ("", "c", "wc", "ml")[(i + j) % 4], "sel": ("V", "CV", "LOO")[i % 3], "k": 4, "file": j % 2 == 0, "metric": ("l1", "l2", "linf")[j % 3]} for j, q in enumerate(names)]
    return dict({"hp": hp, "d": 3, "c": 2, "n": 40, "prec": "d", "s": 70 + i, "seed": 1000 + i, "batch": 9, "acc": None, "first": o[0], "ops": o[1:], "warm": 3}, **kw)


FIXED = [fixed(i, ["select"] * 3, False) for i in range(6)] + [fixed(6 + i, ["selectOP"] * 2, False) for i in range(6)] + \
        [fixed(12 + i, [q, "train" if q != "train" else "data"], True) for i, q in enumerate(sorted(set(HOPS)))] + [fixed(40 + i, [q, "add"], False) for i, q in enumerate(sorted(set(OPS)))]

SUBS = [
    Sub("seed", lambda: cases(hp=False), chk, rule, "draws random numbers after the first neurons", quick=4000, thorough=60000, shards=4, fixed=[c for c in FIXED if not c["hp"]]),
    Sub("files", lambda: cases(hp=True), chk, rule, "draws random numbers after the first neurons", quick=450, thorough=8000, shards=2, timeout=60, fixed=[c for c in FIXED if c["hp"]]),
    Sub("process", cases, pchk, rule, "draws random numbers after the first neurons", quick=32, thorough=900, shards=2, timeout=90),
]
