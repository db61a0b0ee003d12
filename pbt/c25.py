"""C25: a failed operation says so, and releases its files and processes, so that it can be repeated with corrected input."""
import multiprocessing as mp
import os
import pickle
import numpy as np
from core import Hang, Sub, Violation, close, require, same, scratch
import gen
import sel
from gen import st
from c04 import wins, wkw
from c05 import children_gone

INPUTS = {"train": "XT", "train_async": "XT", "disk": "XT", "disk_async": "XT", "predict": "X", "predict_async": "X", "project": "X", "error": "TY",
          "confusion": "TY", "solve_corr": "AB", "validation": "ABXT"}
OUTPUT = ("predict", "predict_async", "project")
KINDS = ("damaged", "damaged", "function", "interrupt", "killed", "killed", "missing", "garbage", "empty", "columns", "rows", "memory", "outdir", "outisdir", "noclass", "nothing")


OPS = sorted(INPUTS)


def kinds(op):
    return [k for k in KINDS if (k not in ("memory", "killed") or op.endswith("async")) and (k not in ("outdir", "outisdir", "nothing") or op in OUTPUT)
            and (k not in ("function", "interrupt") or "X" in INPUTS[op]) and (k not in ("noclass", "rows") or INPUTS[op] == "XT")]


@st.composite
def cases(draw):
    n = draw(gen.rows(2, 30, every=20, cap=1025))
    op = draw(st.sampled_from(OPS + ["validation", "disk", "train_async", "predict_async", "predict_async", "disk_async"]))
    return {"op": op, "kind": draw(st.sampled_from(kinds(op))), "n": n, "d": draw(st.integers(1, 3)), "c": draw(st.integers(2, 3)), "s": draw(gen.seeds()),
            "groups": draw(gen.neuron_groups(maxgroups=2, maxn=3)), "batch": draw(gen.batch_of(n)), "which": draw(st.integers(0, 3)),
            "row": draw(st.integers(0, n - 1)), "chunk": draw(st.integers(1, 8)), "trained": draw(st.booleans()), "win": draw(wins(n)),
            "acc": draw(st.sampled_from([None, None, "basic"])), "times": draw(st.sampled_from([1, 1, 2])), "exists": draw(st.booleans())}


class Interrupt(BaseException):
    """Stands for a keyboard interrupt."""


def picky(v):
    if v != v:
        raise ArithmeticError("not a number")
    if v > 1e30:
        raise Interrupt()
    return np.tanh(v)


PICKY = np.frompyfunc(picky, 1, 1)


def damaged(path, A, row, chunk):
    """A file whose part with the given row cannot be read; False if it can."""
    import tables
    with tables.open_file(path, "w") as h5:
        a = h5.create_carray(h5.root, "data", tables.Atom.from_dtype(A.dtype), A.shape, chunkshape=(min(chunk, len(A)), A.shape[1]),
                             filters=tables.Filters(fletcher32=True))
        a[:] = A
    raw = bytearray(open(path, "rb").read())
    k = raw.find(A[row].tobytes())
    if k < 0:
        return False
    raw[k] ^= 255
    open(path, "wb").write(bytes(raw))
    try:
        with tables.open_file(path, "r") as h5:
            h5.root.data[row:row + 1]
    except Exception:
        return True
    return False


def make(case, custom):
    kw = {"accelerator": case["acc"]} if case["acc"] else {}
    m = gen.new_model("HPELM", case["d"], case["c"], "d", gen.make_neurons(case["groups"], case["d"]), norm=1, batch=case["batch"], **kw)
    if custom:
        r = np.random.RandomState(case["s"])
        m.add_neurons(2, PICKY, r.randn(case["d"], 2), r.randn(2))
    return m


def rewrite(files, data, key):
    for k in sorted(files):
        if k in data:
            try:
                if os.path.isdir(files[k]):
                    os.rmdir(files[k])
                gen.write_h5(files[k], data[k])
            except Exception as e:
                raise Violation(key, "the file of %s cannot be made anew after the failure: %s" % (k, str(e)[-300:]))


class killer(object):
    """Kills one of the helper processes when the model computes a given batch."""

    def __init__(self, m, case):
        self.m, self.case, self.k = m, case, 0

    def __enter__(self):
        if self.case["kind"] == "killed":
            for meth in ("add_batch", "_predict"):
                real = getattr(self.m.nnet, meth)

                def deadly(*a, _f=real, **k):
                    ch = sorted(mp.active_children(), key=lambda p: p.pid)
                    if self.k == self.case["row"] // self.case["batch"] and ch:
                        ch[self.case["which"] % len(ch)].kill()
                    self.k += 1
                    return _f(*a, **k)
                setattr(self.m.nnet, meth, deadly)

    def __exit__(self, *a):
        for meth in ("add_batch", "_predict"):
            self.m.nnet.__dict__.pop(meth, None)


def call(m, case, f, win):
    op = case["op"]
    w = wkw(win)
    if op in ("train", "train_async"):
        a = ("wc",) if case["kind"] == "noclass" else ()
        kw = dict(w, w=np.arange(1, case["c"] + 1)) if a else w
        getattr(m, op)(f["X"], f["T"], *a, **kw)
        return m.nnet.get_B()
    if op in ("disk", "disk_async"):
        getattr(m, "add_data" if op == "disk" else "add_data_async")(f["X"], f["T"], fHH=f["HH"], fHT=f["HT"], **w)
        return np.hstack((gen.read_h5(f["HH"]), gen.read_h5(f["HT"])))
    if op in OUTPUT:
        getattr(m, op)(f["X"], f["out"], **w)
        return gen.read_h5(f["out"])
    if op == "error":
        return np.atleast_2d(m.error(f["T"], f["Y"], **w))
    if op == "confusion":
        return m.confusion(f["T"], f["Y"])
    if op == "solve_corr":
        m.solve_corr(f["A"], f["B"])
        return m.nnet.get_B()
    m.validation_corr(f["A"], f["B"], f["X"], f["T"], steps=[max(1, m.nnet.L - case["which"] % 2)])
    return m.nnet.get_B()


def chk(case):
    try:
        with scratch(case["s"]) as dr:
            return history(case, dr)
    finally:
        for ch in mp.active_children():
            ch.kill()


def history(case, dr):
    op, kind, n, d, c = (case[k] for k in ("op", "kind", "n", "d", "c"))
    r = np.random.RandomState(case["s"])
    data = {"X": r.randn(n, d), "T": np.eye(c)[r.randint(0, c, n)] + (0 if kind == "noclass" or op == "confusion" else 0.01 * r.randn(n, c)), "Y": r.rand(n, c)}
    custom = kind in ("function", "interrupt")
    m, a = make(case, custom), make(case, custom)
    L = m.nnet.L
    G = r.randn(3 * L, L)
    data["A"], data["B"] = G.T.dot(G) + np.eye(L), r.randn(L, c)
    Z = r.randn(5, d)
    files = {k: os.path.join(dr, "%s.h5" % k.lower()) for k in INPUTS[op]}
    files.update(HH=os.path.join(dr, "hh.h5"), HT=os.path.join(dr, "ht.h5"), out=os.path.join(dr, "out.h5"))
    X0, T0 = r.randn(20, d), r.randn(20, c)
    for q in (m, a):
        if case["trained"] or op in ("predict", "predict_async"):
            q.train(X0, T0)
        if op == "confusion" or (op.startswith("disk") and kind == "noclass"):
            q.classification = "c" if op == "confusion" else "wc"
            q.wc = np.arange(1, c + 1)
    before = m.predict(Z) if m.nnet.get_B() is not None else None
    rewrite({k: files[k] for k in INPUTS[op]}, data, "harness")
    if case["exists"] and op in OUTPUT:
        gen.write_h5(files["out"], r.randn(3, 3))
    win = case["win"] if op not in ("confusion", "solve_corr", "validation") else [0, None]
    last = n if win[1] is None else min(n, win[0] + win[1])
    row = win[0] + case["row"] % (last - win[0])

    # spoil one of the inputs
    names = INPUTS[op]
    x = names[case["which"] % len(names)]
    if op.startswith("disk") and kind in ("damaged", "garbage", "empty") and case["which"] > 1:  # of the matrices accumulated so far
        x = ("HH", "HT")[case["which"] % 2]
        for k, v in (("HH", data["A"]), ("HT", data["B"])):
            gen.write_h5(files[k], v)
    f, w, must = dict(files), win, True
    if kind == "damaged":
        A = data[{"HH": "A", "HT": "B"}.get(x, x)]
        if not damaged(files[x], A, row if len(A) == n else case["row"] % L, case["chunk"]):
            return {"nt": False, "tags": ["undamaged"]}
    elif custom:
        bad = data["X"].copy()
        bad[row] = np.nan if kind == "function" else 1e35 * np.sign(m.nnet.get_neurons()[-1][2][:, 0])
        gen.write_h5(files["X"], bad)
    elif kind == "missing":
        os.unlink(files[x])
    elif kind == "garbage":
        open(files[x], "wb").write(b"no HDF5 at all" * 100)
    elif kind == "empty":
        import tables
        tables.open_file(files[x], "w").close()
    elif kind == "columns":
        gen.write_h5(files[x], np.hstack((data[x], data[x])))
    elif kind == "rows":
        gen.write_h5(files[x], np.vstack((data[x], data[x])))
    elif kind == "memory":
        if op == "predict_async" or case["which"] < 3:
            f["X"] = data["X"]
        if op != "predict_async" and case["which"]:
            f["T"] = data["T"]
    elif kind == "killed":
        must = False
    elif kind == "outdir":
        f["out"] = os.path.join(dr, "no", "such", "out.h5")
    elif kind == "outisdir":
        if os.path.exists(files["out"]):
            os.unlink(files["out"])
        os.mkdir(files["out"])
    elif kind == "noclass":
        bad, must = data["T"].copy(), False
        bad[row] = 0
        gen.write_h5(files["T"], bad)
    else:
        w, must = [0, 0], False

    failed = 0
    for _ in range(case["times"]):
        try:
            with killer(m, case):
                res = call(m, case, f, w)
        except Hang:
            raise
        except (Exception, Interrupt):
            failed += 1
        else:
            require(not must, "not-reported", "%s with %s %s returned normally" % (op, kind, x))
            if kind == "killed":
                twin = {k: os.path.join(dr, "twin_" + os.path.basename(v)) for k, v in files.items()}
                rewrite({k: twin[k] for k in names}, data, "harness")
                close("not-reported", res, call(a, case, twin, win), 1e-8, note="%s returned normally though a helper process died" % op)
                return {"tags": ["finished"]}
        children_gone("processes-left")
    if not failed:
        return {"nt": False, "tags": ["accepted"]}
    if before is not None and (m.nnet.get_B() is not None or not op.startswith("train")):
        close("predicts-otherwise", m.predict(Z), before, 1e-9, note="after a failed %s" % op)
    elif before is not None:
        raise Violation("solution-lost", "after a failed %s" % op)

    # everything can be made anew and the operation succeeds
    rewrite(files, dict(data, out=np.zeros((2, 2))), "file-in-use")
    for k in ("HH", "HT"):
        if os.path.exists(files[k]):
            try:
                gen.write_h5(files[k], np.zeros((2, 2)))
            except Exception as e:
                raise Violation("file-in-use", "the file of %s cannot be made anew after the failure: %s" % (k, str(e)[-300:]))
            os.unlink(files[k])
    got = call(m, case, files, win)
    children_gone("processes-left-later")
    twin = {k: os.path.join(dr, "twin_" + os.path.basename(v)) for k, v in files.items()}
    rewrite({k: twin[k] for k in names}, data, "harness")
    want = call(a, case, twin, win)
    close("repeated", got, want, 1e-8, note="%s repeated after a failure (%s), compared to a model without the failure" % (op, kind))
    return {"tags": [op, kind]}


def big(i, op, kind, n, batch, row, **kw):
    return dict({"op": op, "kind": kind, "n": n, "d": 2, "c": 2, "s": 900 + i, "groups": [{"f": "tanh", "n": 3, "s": i}], "batch": batch, "which": i, "row": row,
                 "chunk": 5, "trained": True, "win": [0, None], "acc": None, "times": 1, "exists": False}, **kw)


FIXED = [big(0, "predict_async", "damaged", 200, 10, 0), big(1, "predict_async", "damaged", 200, 10, 199), big(2, "train_async", "damaged", 100, 10, 95),
         big(3, "train_async", "damaged", 100, 100, 50), big(4, "predict_async", "function", 300, 10, 150), big(5, "train_async", "function", 300, 10, 299),
         big(6, "disk_async", "damaged", 100, 10, 60), big(7, "disk_async", "function", 100, 10, 0), big(8, "predict_async", "memory", 50, 10, 0),
         big(9, "train_async", "memory", 50, 10, 0), big(10, "disk_async", "memory", 50, 10, 0), big(11, "train_async", "memory", 50, 10, 0),
         big(12, "predict", "function", 100, 10, 55, times=2), big(13, "project", "function", 100, 10, 55, times=2), big(14, "predict", "nothing", 20, 5, 0, times=2),
         big(15, "train_async", "noclass", 60, 10, 35), big(16, "disk_async", "noclass", 60, 10, 35), big(17, "project", "damaged", 60, 10, 59, exists=True),
         big(18, "predict_async", "killed", 200, 10, 50), big(19, "predict_async", "killed", 200, 10, 50), big(20, "train_async", "killed", 200, 10, 50),
         big(21, "predict_async", "killed", 200, 10, 199), big(22, "disk_async", "killed", 200, 10, 50), big(23, "predict_async", "interrupt", 200, 10, 50),
         big(24, "disk_async", "interrupt", 200, 10, 50), big(25, "project", "interrupt", 200, 10, 50),
         big(26, "validation", "damaged", 60, 10, 55), big(27, "validation", "damaged", 60, 10, 5), big(28, "validation", "function", 60, 10, 55),
         big(29, "validation", "interrupt", 60, 60, 3), big(30, "validation", "damaged", 60, 10, 55), big(31, "validation", "damaged", 60, 10, 55), big(32, "disk", "damaged", 30, 10, 1, which=2), big(33, "disk", "damaged", 30, 10, 1, which=3, times=2),
         big(34, "disk_async", "damaged", 30, 10, 1, which=2, times=2), big(35, "disk_async", "damaged", 30, 10, 0, which=3)]


FIXED += [big(100 + i, op, k, 40, 7, 7 * i, which=i // 3) for i, (op, k) in enumerate((op, k) for op in OPS for k in sorted(set(kinds(op))))]


# ---------------------------------------------------------------- the tools

TKINDS = {"make": ["ragged", "ragged", "word", "word", "blank", "missing", "3d", "strings", "zero", "negative", "broken-npy", "word-gz", "unknown", "header"],
          "normalize": ["damaged", "damaged", "damaged-given", "missing", "garbage", "empty", "means", "stds"],
          "rbf": ["constant", "constant", "damaged", "missing", "garbage", "empty", "none", "3d", "constant-array"],
          "load": ["missing", "garbage", "cut", "other", "directory"],
          "save": ["function", "function", "nodir", "directory"]}


@st.composite
def tcases(draw):
    tool = draw(st.sampled_from(["make", "make", "make", "normalize", "rbf", "load", "save"]))
    kinds = TKINDS[tool]
    return {"tool": tool, "kind": draw(st.sampled_from(kinds)), "n": draw(st.integers(2, 40)), "d": draw(st.integers(1, 4)), "s": draw(gen.seeds()), "row": draw(st.integers(0, 39)),
            "chunk": draw(st.integers(1, 8)), "times": draw(st.sampled_from([1, 1, 2])), "comp": draw(st.sampled_from([0, 0, 1, 9])),
            "metric": draw(st.sampled_from(["l1", "l2", "linf"])), "exists": draw(st.booleans()), "st": draw(st.sampled_from(gen.STORAGE))}


def tchk(case):
    with scratch(case["s"]) as dr:
        bad, good, must, target, verify = globals()["t_" + case["tool"]](case, dr)
        failed = 0
        for _ in range(case["times"]):
            try:
                bad()
            except Hang:
                raise
            except Exception:
                failed += 1
            else:
                require(not must, "not-reported", "%s with %s returned normally" % (case["tool"], case["kind"]))
        if not failed:
            return {"nt": False, "tags": ["accepted"]}
        if target and os.path.isfile(target):
            try:
                gen.write_h5(target, np.zeros((2, 2)))
            except Exception as e:
                raise Violation("file-in-use", "the file cannot be made anew after the failure: %s" % str(e)[-300:])
        verify(good())
        return {"tags": [case["tool"], case["kind"]]}


@st.composite
def mcases(draw):
    c = draw(sel.cases(norms=(1e-3, 1), precs=("d",), modes=("r", "c", "wc", "wa", "ml"), sels=("V", "V", "CV", "LOO", "basic", "add"), maxgroups=2, maxn=4))
    if c["sel"] == "add" and c["mode"] == "wa":     # these weights would be of the first part
        c["mode"] = "wc"
    return dict(c, kind=draw(st.sampled_from(["function", "function", "interrupt", "noclass"])), row=draw(st.integers(0, 10**4)), inv=draw(st.booleans()),
                trained=draw(st.booleans()), times=draw(st.sampled_from([1, 1, 2])))


def mchk(case):
    """Training of an in-memory model, with or without selection, fails at a row of the data; then it is repeated with correct data."""
    X, T = sel.data(case, case["n"])
    Xv, Tv = sel.data(case, case["nv"], off=1)
    r = np.random.RandomState(case["rs"])
    W, B = r.randn(case["d"], 2), r.randn(2)
    m, a = sel.build(case), sel.build(case)
    Z, X0, T0 = r.randn(5, case["d"]), r.randn(20, case["d"]), r.randn(20, case["c"])
    for q in (m, a):
        q.add_neurons(2, PICKY, W, B)
        if case["trained"]:
            q.train(X0, T0)
    before = m.predict(Z) if case["trained"] else None
    old = m.nnet.get_neurons()

    def train(q, X, T, Xv, Tv):
        args, kw = sel.mode_args(case)
        if case["sel"] == "add":       # data in parts
            q.nnet.reset()
            q.classification, q.wc = (str(args[0]).lower() if args else None), (np.array(kw["w"]) if "w" in kw else None)
            q.add_data(X[:len(X) // 2], T[:len(X) // 2])
            q.add_data(X[len(X) // 2:], T[len(X) // 2:])
            return q.nnet.solve()
        args += [] if case["sel"] == "basic" else [case["sel"]] + (["OP"] if case["op"] else [])
        if case["op"] and case["kmax"] is not None:
            kw["kmax"] = case["kmax"]
        kw.update({"V": dict(Xv=Xv, Tv=Tv), "CV": dict(k=case["k"])}.get(case["sel"], {}))
        np.random.seed(case["rs"] % 2**31)
        return q.train(X, T, *args, **kw)

    must = case["kind"] != "noclass"
    Xb, Tb, Xvb = X.copy(), T.copy(), Xv.copy()
    if must:
        bad = Xvb if case["sel"] == "V" and case["inv"] else Xb
        bad[case["row"] % len(bad)] = np.nan if case["kind"] == "function" else 1e35 * np.sign(W[:, 0])
    else:
        Tb[case["row"] % len(Tb)] = 0
    failed = 0
    for _ in range(case["times"]):
        try:
            train(m, Xb, Tb, Xvb, Tv)
        except Hang:
            raise
        except (Exception, Interrupt):
            failed += 1
        else:
            require(not must, "not-reported", "training (%s) returned normally though a neuron function failed" % case["sel"])
            return {"nt": False, "tags": ["accepted"]}
    if must:
        now = m.nnet.get_neurons()
        require(len(now) == len(old) and all(p[0] == q[0] and np.array_equal(p[2], q[2]) for p, q in zip(now, old)), "neurons-changed", "by a failed training")
        if before is not None:
            require(m.nnet.get_B() is not None, "solution-lost", "after a failed training")
            close("predicts-otherwise", m.predict(Z), before, 1e-9, note="after a failed training")
    e, f = train(m, X, T, Xv, Tv), train(a, X, T, Xv, Tv)
    if case["sel"] == "CV":
        close("repeated-error", np.atleast_1d(e), np.atleast_1d(f), 1e-8, note="test error of training repeated after a failure")
    require(m.nnet.L == a.nnet.L, "repeated-neurons", "%d neurons, %d in a model without the failure" % (m.nnet.L, a.nnet.L))
    close("repeated-training", m.predict(Z), a.predict(Z), 1e-8, note="training repeated after a failure, compared to a model without the failure")
    return {"tags": [case["sel"], case["kind"], case["mode"]]}


def lines(X):
    return [" ".join(repr(float(v)) for v in row) for row in X]


def t_make(case, dr):
    from hpelm.modules import make_hdf5
    import gzip
    k, n, d, row = case["kind"], case["n"], case["d"], case["row"] % case["n"]
    X = np.random.RandomState(case["s"]).randn(n, d)
    out = os.path.join(dr, "out.h5")
    if case["exists"]:
        gen.write_h5(out, np.zeros((1, 1)))
    kw = {"comp_level": case["comp"]}
    src, must, ok = X, True, X
    if k in ("ragged", "word", "blank", "header", "word-gz"):
        t = lines(X)
        if k == "ragged":
            row = max(row, 1)
            t[row] += " 1.5" if case["row"] % 2 or d == 1 else ""
            if t[row] == lines(X)[row]:
                t[row] = t[row].rsplit(" ", 1)[0]
        elif k in ("word", "word-gz"):
            t[row] = t[row].rsplit(" ", 1)[0] + " word" if d > 1 else "word"
        elif k == "blank":
            t, must = [], False
        else:
            t.insert(0, " ".join("xyzw"[:d]))
        src = os.path.join(dr, "a.txt" + (".gz" if k == "word-gz" else ""))
        op = (lambda: gzip.open(src, "wt")) if k == "word-gz" else (lambda: open(src, "w"))
        with op() as fh:
            fh.write("".join(v + "\n" for v in t))

        def good():
            with op() as fh:
                fh.write("".join(v + "\n" for v in lines(X)))
            return make_hdf5(src, out, **kw)
    else:
        def good():
            return make_hdf5(X, out, **kw)
        if k == "missing":
            src = os.path.join(dr, "nothing" + (".npy", ".txt", ".csv", ".gz")[case["row"] % 4])
        elif k == "3d":
            src = X[:, :, None]
        elif k == "strings":
            src = np.array([["word"] * d] * n)
        elif k in ("zero", "negative"):
            src, must = (((0, d), (n, 0), (0, 0)) if k == "zero" else ((-1, d), (n, -1), (-1, -1)))[case["row"] % 3], k == "negative"
        elif k == "broken-npy":
            src = os.path.join(dr, "a.npy")
            open(src, "wb").write(b"\x93NUMPY broken")
        elif k == "unknown":
            src = os.path.join(dr, "a.xls")
            open(src, "w").write("1 2\n")
    return (lambda: make_hdf5(src, out, **kw)), good, must, out, lambda _: same("stored", gen.read_h5(out), X)


def spoil(case, path, X):
    """Puts an unusable file in place; returns False if it is not unusable after all."""
    k = case["kind"]
    if k.startswith("damaged"):
        return damaged(path, X, case["row"] % case["n"], case["chunk"])
    if k == "garbage":
        open(path, "wb").write(b"no HDF5 at all" * 100)
    elif k == "empty":
        import tables
        tables.open_file(path, "w").close()
    elif k != "missing":
        gen.write_h5(path, X, case["st"])
    return True


def t_normalize(case, dr):
    from hpelm.modules import normalize_hdf5
    X = np.random.RandomState(case["s"]).randn(case["n"], case["d"]) * 3 + 1
    f = os.path.join(dr, "a.h5")
    must = spoil(case, f, X)
    kw = {}
    if case["kind"] in ("means", "stds", "damaged-given"):
        kw = {"mean": np.zeros(case["d"] + (case["kind"] == "means")), "std": np.ones(case["d"] + (case["kind"] == "stds"))}

    def good():
        gen.write_h5(f, X, case["st"])
        return normalize_hdf5(f)

    def verify(res):
        close("mean", res[0], X.mean(0), 1e-9)
        close("std", res[1], X.std(0), 1e-9)
        close("normalised", gen.read_h5(f), (X - X.mean(0)) / X.std(0), 1e-9)
    return (lambda: normalize_hdf5(f, **kw)), good, must, f, verify


def t_rbf(case, dr):
    from hpelm.modules.rbf_param import rbf_param
    k, n, d = case["kind"], case["n"], case["d"]
    X = np.random.RandomState(case["s"]).randn(n, d)
    f = os.path.join(dr, "a.h5")
    must = spoil(case, f, X) and k != "damaged"     # the damaged row may not be drawn
    num, src = 1 + case["row"] % 10, f
    if k == "constant":
        gen.write_h5(f, np.ones((n, d)), case["st"])
    elif k == "none":
        num, must = 0, False
    elif k == "3d":
        src = np.zeros((n, d, 2))
    elif k == "constant-array":
        src = np.ones((n, d))

    def good():
        gen.write_h5(f, X, case["st"])
        return rbf_param(f, 3, case["metric"])

    def verify(res):
        require(all(any(np.array_equal(w, x) for x in X) for w in np.asarray(res[0]).T), "centroids", "not rows of the data")
        require(np.all(np.asarray(res[1]) > 0), "widths", "not positive")
        gen.write_h5(f, X)      # and is not open
    return (lambda: rbf_param(src, num, case["metric"])), good, must, f, verify


def t_load(case, dr):
    k, d = case["kind"], case["d"]
    r = np.random.RandomState(case["s"])
    kw = {"precision": "d", "neurons": gen.make_neurons([{"f": "tanh", "n": 3, "s": case["s"]}], d)}
    cls = ("ELM", "HPELM")[case["row"] % 2]
    m = gen.new_model(cls, d, 1, "d", kw["neurons"])
    m.train(r.randn(20, d), r.randn(20, 1))
    f = os.path.join(dr, "model")
    m.save(f)
    raw = open(f, "rb").read()
    t = gen.new_model(cls, d, 1, "d", gen.make_neurons([{"f": "sigm", "n": 2, "s": case["s"]}], d))
    t.train(r.randn(20, d), r.randn(20, 1))
    Z = r.randn(4, d)
    before, want = t.predict(Z), m.predict(Z)
    if k == "missing":
        os.unlink(f)
    elif k == "directory":
        os.unlink(f)
        os.mkdir(f)
    else:
        open(f, "wb").write({"garbage": b"\x00no model" * 20, "cut": raw[:len(raw) * (case["row"] % 10) // 10], "other": pickle.dumps([1, 2, 3])}[k])

    def good():
        close("predicts-otherwise", t.predict(Z), before, 1e-9, note="after a failed load")
        if k == "directory":
            os.rmdir(f)
        open(f, "wb").write(raw)
        t.load(f)
        return t.predict(Z)

    def bad():
        if case["chunk"] % 2 and os.path.isfile(f):
            t.loads(open(f, "rb").read())
        else:
            t.load(f)
    return bad, good, True, None, lambda Y: close("loaded", Y, want, 1e-9)


def t_save(case, dr):
    k, d = case["kind"], case["d"]
    r = np.random.RandomState(case["s"])
    cls = ("ELM", "HPELM")[case["row"] % 2]
    ms = []
    for n in (3, 2):
        ms.append(gen.new_model(cls, d, 1, "d", gen.make_neurons([{"f": "tanh", "n": n, "s": case["s"] + n}], d), norm=1))
        if n == 3 and k == "function":
            ms[0].add_neurons(1, np.frompyfunc(lambda v: v * 2.0, 1, 1))    # these cannot be stored
        ms[-1].train(r.randn(20, d), r.randn(20, 1))
    Z = r.randn(4, d)
    f = os.path.join(dr, "model")
    first, want = ms[0].predict(Z), ms[1].predict(Z)
    if k == "nodir":
        f = os.path.join(dr, "no", "model")
    elif k == "directory":
        os.mkdir(f)
    elif case["exists"]:
        ms[1].save(f)

    def load():
        t = gen.new_model(cls, d, 1, "d", gen.make_neurons([{"f": "sigm", "n": 2, "s": case["s"]}], d))
        t.load(f)
        return t.predict(Z)

    def good():
        close("predicts-otherwise", ms[0].predict(Z), first, 1e-9, note="after a failed save")
        if k == "function" and case["exists"]:
            close("earlier-model-lost", load(), want, 1e-9, note="the model saved earlier to a file, after saving to it failed")
        if k == "nodir":
            os.mkdir(os.path.dirname(f))
        if k == "directory":
            os.rmdir(f)
        if k != "function":
            ms[0].save(f)
            close("saved", load(), first, 1e-9)
        ms[1].save(f)
        return load()
    return lambda: ms[0].save(f), good, True, None, lambda Y: close("saved", Y, want, 1e-9)


def tool(i, name, kind, **kw):
    return dict({"tool": name, "kind": kind, "n": 20, "d": 2, "s": 700 + i, "row": 7 + i, "chunk": 3, "times": 2, "comp": 0, "metric": "l2", "exists": False, "st": "carray"}, **kw)


TFIXED = [tool(0, "make", "ragged"), tool(1, "make", "ragged"), tool(2, "make", "word"), tool(3, "make", "strings"), tool(4, "make", "zero"), tool(5, "rbf", "constant"),
          tool(6, "normalize", "damaged"), tool(7, "make", "word", exists=True, comp=3), tool(8, "load", "cut"), tool(12, "load", "cut", row=20), tool(9, "rbf", "damaged", n=3, chunk=8),
          tool(10, "save", "function", exists=True), tool(11, "save", "function", exists=True, chunk=2), tool(13, "save", "function")]
TFIXED += [tool(20 + i, t, k, exists=bool(i % 2)) for i, (t, k) in enumerate((t, k) for t in sorted(TKINDS) for k in sorted(set(TKINDS[t])) * 2)]

SUBS = [Sub("operations", cases, chk, lambda c: c["kind"] not in ("noclass", "nothing"), "input on which the operation fails (or a helper process that dies), then the operation with corrected input",
            quick=220, thorough=6000, timeout=30, shards=4, fixed=FIXED),
        Sub("tools", tcases, tchk, lambda c: c["kind"] not in ("blank", "zero", "none"), "input on which the call fails, then the call with corrected input", quick=2400, thorough=30000, timeout=20, shards=4, fixed=TFIXED),
        Sub("training", mcases, mchk, lambda c: c["kind"] != "noclass", "training that fails at a row of the data, then with correct data", quick=2400, thorough=30000, timeout=30, shards=2)]
