"""C26: memory in use depends on the batch and on the model, not on the number of rows.

The same operation runs on a data set and on one with four times as many rows; the peak of what Python and numpy allocate, in this
process and in each helper process, must not grow along (tracemalloc sees all arrays).  Slow disks and slow solvers are simulated,
since an unbounded queue fills only when one side is slower."""
import glob
import multiprocessing.util
import os
import time
import tracemalloc
import numpy as np
from core import Sub, Violation, require, scratch
import gen
from gen import st, PREC

TIMES = 4
FILEOPS = ("train", "add_data", "disk", "predict", "project", "error", "confusion", "validation", "train_async", "add_async", "disk_async", "predict_async")
_env = {"dir": None, "read": 0, "write": 0}


class _Anchor(object):
    pass


_anchor = _Anchor()


def _in_child(_):
    """Runs in every helper process right after the fork."""
    if _env["dir"] is None or not tracemalloc.is_tracing():
        return
    import tables
    for name, delay in (("__getitem__", _env["read"]), ("__setitem__", _env["write"])):
        if delay:
            def slow(self, *a, _old=getattr(tables.Array, name), _delay=delay):
                time.sleep(_delay)
                return _old(self, *a)
            setattr(tables.Array, name, slow)
    tracemalloc.reset_peak()
    base = tracemalloc.get_traced_memory()[0]

    def dump():
        with open(os.path.join(_env["dir"], "peak-%d" % os.getpid()), "w") as f:
            f.write(str(tracemalloc.get_traced_memory()[1] - base))
    multiprocessing.util.Finalize(None, dump, exitpriority=100)


multiprocessing.util.register_after_fork(_anchor, _in_child)


def measured(fn, dr, read=0, write=0):
    """Peak memory of fn() above what is in use before it, here and in the hungriest helper process."""
    dr = os.path.abspath(dr)
    for f in glob.glob(os.path.join(glob.escape(dr), "peak-*")):
        os.unlink(f)
    _env.update(dir=dr, read=read, write=write)
    tracemalloc.start()
    try:
        tracemalloc.reset_peak()
        base = tracemalloc.get_traced_memory()[0]
        fn()
        here = tracemalloc.get_traced_memory()[1] - base
    finally:
        tracemalloc.stop()
        _env["dir"] = None
    there = [int(open(f).read() or 0) for f in glob.glob(os.path.join(glob.escape(dr), "peak-*"))]
    return here, max(there or [0]), len(there)


@st.composite
def cases(draw):
    d, c = draw(st.integers(8, 24)), draw(st.integers(8, 20))
    n = draw(st.integers(6000, 9000)) // (2 if draw(st.booleans()) else 1)
    return {"op": draw(st.sampled_from(FILEOPS)), "d": d, "c": c, "n": n, "batch": draw(st.integers(n // 60, n // 20)), "L": draw(st.integers(2, 40)),
            "f": draw(st.sampled_from(["tanh", "sigm", "lin", "rbf_l2"])), "mode": draw(st.sampled_from(["r", "r", "c", "wc", "wc", "ml"])), "prec": draw(gen.precs()),
            "st": draw(st.sampled_from(("carray", "carray", "array", "earray", "zip"))), "sp": draw(gen.precs()), "s": draw(gen.seeds()),
            "win": draw(st.sampled_from([None, None, "tail", "small"])), "slow": draw(st.sampled_from(["", "solver", "solver", "read", "write"])),
            "acc": draw(st.sampled_from([None, None, "basic"]))}


def table(s, n, d, kind="x"):
    """Rows repeat after 499, so a big matrix is made quickly."""
    r = np.random.RandomState(s)
    if kind == "c":
        A = np.eye(d)[np.append(np.arange(d), r.randint(0, d, 499 - d))]
    elif kind == "ml":
        A = (r.rand(499, d) < 0.4) * 1.0
    else:
        A = r.randn(499, d)
    return np.tile(A, (-(-n // 499), 1))[:n]


def slowed(m, delay):
    """The solver needs at least so long for every batch."""
    for name in ("add_batch", "_predict", "_project"):
        old = getattr(m.nnet, name, None)
        if old is not None:
            def slow(*a, _old=old, **k):
                time.sleep(delay)
                return _old(*a, **k)
            setattr(m.nnet, name, slow)


def chk(case):
    d, c, op, mode = case["d"], case["c"], case["op"], case["mode"]
    if op == "confusion" and mode == "r":
        mode = "c"
    kw = {"accelerator": case["acc"]} if case["acc"] else {}
    X0 = table(case["s"], 400, d)
    groups = [{"f": case["f"], "n": min(case["L"], d) if case["f"] == "lin" else case["L"], "s": case["s"]}]
    neurons = gen.make_neurons(groups, d, "n", case["prec"])
    L = sum(x[0] for x in neurons)
    delay = 0.002 if case["slow"] else 0
    kind = {"r": "x", "c": "c", "wc": "c", "ml": "ml"}[mode]

    def setup(n, dr, tag):
        m = gen.new_model("HPELM", d, c, case["prec"], neurons, batch=case["batch"], **kw)
        m.classification = None if mode == "r" else mode
        if mode == "wc" and op in ("error", "validation"):
            m.wc = np.ones(c)
        f = {}
        for k, w, kk, s in (("X", d, "x", 0), ("T", c, kind, 1), ("Y", c, kind, 2)):
            f[k] = gen.write_h5(os.path.join(dr, "%s%s.h5" % (k, tag)), table(case["s"] + s, n, w, kk).astype(PREC[case["sp"]]), case["st"])
        for k in ("HH", "HT", "out"):
            f[k] = os.path.join(dr, "%s%s.h5" % (k, tag))
        if op in ("predict", "predict_async", "project"):
            m.nnet.set_B(np.ones((L, c), dtype=PREC[case["prec"]]))
        if op == "validation":
            gen.write_h5(f["HH"], np.eye(L))
            gen.write_h5(f["HT"], np.ones((L, c)))
        if case["slow"] == "solver":
            slowed(m, delay)
        win = {}
        if case["win"] == "tail":
            win = {"istart": 7}
        elif case["win"] == "small":
            win = {"istart": n // 2, "icount": 3 * case["batch"]}
        targs = () if mode == "r" else (mode,)

        def run():
            if op == "train":
                m.train(f["X"], f["T"], *targs, **win)
            elif op == "train_async":
                m.train_async(f["X"], f["T"], *targs, **win)
            elif op == "add_data":
                m.add_data(f["X"], f["T"], **win)
            elif op == "add_async":
                m.add_data_async(f["X"], f["T"], **win)
            elif op == "disk":
                m.add_data(f["X"], f["T"], fHH=f["HH"], fHT=f["HT"], **win)
            elif op == "disk_async":
                m.add_data_async(f["X"], f["T"], fHH=f["HH"], fHT=f["HT"], **win)
            elif op == "predict":
                m.predict(f["X"], f["out"], **win)
            elif op == "predict_async":
                m.predict_async(f["X"], f["out"], **win)
            elif op == "project":
                m.project(f["X"], f["out"], **win)
            elif op == "error":
                m.error(f["T"], f["Y"], **win)
            elif op == "confusion":
                m.confusion(f["T"], f["Y"])
            elif op == "validation":
                m.validation_corr(f["HH"], f["HT"], f["X"], f["T"], steps=3)
        return run
    with scratch(case["s"]) as dr:
        setup(3 * case["batch"] + 8, dr, "w")()     # imports and caches
        rw = {"read": delay if case["slow"] == "read" else 0, "write": delay if case["slow"] == "write" else 0}
        small = measured(setup(case["n"], dr, "a"), dr, **rw)
        large = measured(setup(TIMES * case["n"], dr, "b"), dr, **rw)
    judge(case, small, large, (TIMES - 1) * case["n"] * 8 * min(d, c), op)
    return {"tags": [op, mode] + (["helpers"] if large[2] else [])}


def judge(case, small, large, size, what):
    """`size` is how much the smallest of the matrices that grow has grown."""
    for k, where in ((0, ""), (1, " in a helper process")):
        grown = large[k] - small[k]
        require(grown < 0.3 * size, "memory" + where.replace(" ", "-"), "%s: %d rows need %d kB at most%s, %d rows %d kB; batch %s"
                % (what, case["n"], small[k] // 1024, where, TIMES * case["n"], large[k] // 1024, case["batch"]))


# ---------------------------------------------------------------- arrays: the hidden representation is never made as a whole

@st.composite
def acases(draw):
    d, c = draw(st.integers(1, 6)), draw(st.integers(1, 4))
    n = draw(st.integers(1500, 3000))
    return {"op": draw(st.sampled_from(["ELM.train", "ELM.train", "ELM.add_data", "HPELM.train", "HPELM.predict", "HPELM.predict"])), "d": d, "c": c, "n": n,
            "batch": draw(st.integers(n // 40, n // 15)), "L": draw(st.integers(100, 150)), "f": draw(st.sampled_from(["tanh", "sigm", "rbf_l2", "rbf_linf"])),
            "groups": draw(st.integers(1, 3)), "mode": draw(st.sampled_from(["r", "c", "wc", "ml"])), "prec": draw(gen.precs()), "xp": draw(gen.precs()),
            "acc": draw(st.sampled_from([None, None, "basic"])), "s": draw(gen.seeds()), "early": draw(st.booleans())}


def achk(case):
    d, c, op, mode = case["d"], case["c"], case["op"], case["mode"]
    if c == 1:
        mode = "r"
    cls, meth = op.split(".")
    kw = {"accelerator": case["acc"]} if case["acc"] else {}
    neurons = gen.make_neurons([{"f": case["f"], "n": case["L"] // case["groups"], "s": case["s"] + i} for i in range(case["groups"])], d, "n", case["prec"])
    kind = {"r": "x", "c": "c", "wc": "c", "ml": "ml"}[mode]

    def setup(n):
        b = case["batch"]
        m = gen.new_model(cls, d, c, case["prec"], neurons, batch=b if case["early"] else 10 * b, **kw)
        X, T = table(case["s"], n, d).astype(PREC[case["xp"]]), table(case["s"] + 1, n, c, kind).astype(PREC[case["xp"]])
        targs = () if mode == "r" else (mode,)
        if meth == "predict":
            m.batch = b
            m.nnet.set_B(np.ones((m.nnet.L, c), dtype=PREC[case["prec"]]))
            return lambda: m.predict(X)
        if meth == "add_data":
            m.batch = b
            m.classification = None if mode == "r" else mode
            return lambda: m.add_data(X, T)
        return lambda: m.train(X, T, *targs, **({} if case["early"] else {"batch": b}))
    setup(3 * case["batch"])()
    with scratch() as dr:
        small = measured(setup(case["n"]), dr)
        large = measured(setup(TIMES * case["n"]), dr)
    # copies of the arguments and the result may grow
    judge(case, small, large, (TIMES - 1) * case["n"] * 8 * case["L"], op)
    require(large[0] < 0.5 * TIMES * case["n"] * 8 * case["L"], "memory-batch", "%s of %d rows in batches of %d with %d neurons needs %d kB"
            % (op, TIMES * case["n"], case["batch"], case["L"], large[0] // 1024))
    return {"tags": [op, mode]}


# ---------------------------------------------------------------- the tools

@st.composite
def tcases(draw):
    d = draw(st.integers(16, 30))
    n = draw(st.integers(2000, 5000))
    tool = draw(st.sampled_from(["normalize", "normalize", "given", "text", "text", "shape", "rbf", "rbf"]))
    if tool == "text":
        d, n = draw(st.integers(100, 250)), draw(st.integers(300, 500))
    return {"tool": tool, "d": d, "n": n, "batch": draw(st.integers(n // 60 + 1, n // 20)), "s": draw(gen.seeds()), "ext": draw(st.sampled_from(["csv", "txt"])),
            "delim": draw(st.sampled_from([",", ";", " "])), "comp": draw(st.sampled_from([0, 0, 3])), "k": draw(st.integers(1, 12)), "metric": draw(st.sampled_from(["l1", "l2", "linf"])),
            "st": draw(st.sampled_from(("carray", "array", "earray", "zip"))), "sp": draw(gen.precs()), "skip": draw(st.integers(0, 2)),
            "same": draw(st.sampled_from([False, False, True]))}


def tchk(case):
    from hpelm.modules.hdf5_tools import make_hdf5, normalize_hdf5
    from hpelm.modules.rbf_param import rbf_param
    d, tool = case["d"], case["tool"]

    def setup(n, dr, tag):
        f = os.path.join(dr, "data%s.h5" % tag)
        if tool == "text":
            src = os.path.join(dr, "data%s.%s" % (tag, case["ext"]))
            with open(src, "w") as g:
                g.write("header\n" * case["skip"])
                for row in table(case["s"], n, d):
                    g.write(case["delim"].join("%.4f" % v for v in row) + "\n")
            return lambda: make_hdf5(src, f, dtype=PREC[case["sp"]], delimiter=case["delim"], skiprows=case["skip"], comp_level=case["comp"])
        if tool == "shape":
            return lambda: make_hdf5((n, d), f, dtype=PREC[case["sp"]], comp_level=case["comp"])
        A = table(case["s"], n, d)
        if tool == "rbf" and case["same"]:  # hardly ever are two sampled rows different
            A[:] = A[0]
            A[[n // 3, n - 1]] += 1
        gen.write_h5(f, A.astype(PREC[case["sp"]]), case["st"])
        del A
        if tool == "rbf":
            return lambda: rbf_param(f, case["k"], case["metric"])
        if tool == "given":
            return lambda: normalize_hdf5(f, np.zeros(d), np.ones(d), batch=case["batch"])
        return lambda: normalize_hdf5(f, batch=case["batch"])
    with scratch(case["s"]) as dr:
        setup(40, dr, "w")()
        small = measured(setup(case["n"], dr, "a"), dr)
        large = measured(setup(TIMES * case["n"], dr, "b"), dr)
    judge(case, small, large, (TIMES - 1) * case["n"] * d * 8, tool)
    return {"tags": [tool]}


def fixed(i, op, mode, **kw):
    return dict({"op": op, "d": 10 + i % 5, "c": 9, "n": 7000, "batch": 200, "L": 20, "f": "tanh", "mode": mode, "prec": "ds"[i % 2], "st": ("carray", "earray", "array")[i % 3], "sp": "d",
                 "s": 50 + 10 * i, "win": None, "slow": "", "acc": None}, **kw)


FIXED = [fixed(i, op, mode) for i, (op, mode) in enumerate((op, mode) for op in FILEOPS for mode in ("r", "c", "wc", "ml") if mode in ("r", "wc") or op in ("error", "confusion"))]
FIXED += [fixed(60 + i, op, "r", slow=slow) for i, (op, slow) in enumerate((op, slow) for op in ("train_async", "disk_async", "predict_async") for slow in ("solver", "read", "write"))]

SUBS = [
    Sub("files", cases, chk, lambda c: c["op"].endswith("async") or c["win"] is None, "all of the data, or helper processes", quick=450, thorough=12000, shards=5, timeout=60, fixed=FIXED),
    Sub("arrays", acases, achk, lambda c: True, "every case: at least 15 batches and 100 neurons", quick=300, thorough=5000, shards=2, timeout=60),
    Sub("tools", tcases, tchk, lambda c: c["tool"] != "shape", "reads or writes actual values", quick=240, thorough=5000, shards=2, timeout=60),
]
