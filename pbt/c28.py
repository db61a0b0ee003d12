"""C28: operations leave the process, its settings and the disk as they were, whether they succeed or fail."""
import csv
import gc
import locale
import logging
import os
import random
import signal
import sys
import tempfile
import warnings
import numpy as np
from core import Sub, Violation, Hang, require, scratch
import c27
import gen
from gen import st

BAD = ("bad_predict", "bad_train", "bad_neuron", "bad_missing", "bad_text", "bad_load", "bad_async", "bad_options", "bad_scaling", "overflow", "underflow", "new", "new", "text")
ALLOWED = {k + ".h5" for k in ("X", "T", "Y", "HH", "HT", "out", "norm", "made", "text", "cut")} | {"model.pkl", "HH.h5.lock", "HT.h5.lock", "text.csv", "text.txt.gz", "text.txt.bz2", "text.npy", "bad.pkl", "here", "temp"}


@st.composite
def cases(draw):
    case = draw(c27.cases())
    bad = st.sampled_from(BAD)
    for o in case["ops"]:
        if draw(st.booleans()):
            o["op"] = draw(bad)
    case["err"] = draw(st.sampled_from([None, "warn", "ignore", "call", "print"]))
    case["warn"] = draw(st.sampled_from([None, "always", "ignore"]))
    return case


def settings():
    s = {"numpy's error handling": (np.geterr(), np.geterrcall()), "numpy's print options": repr(sorted((k, v) for k, v in np.get_printoptions().items() if k != "override_repr")),
         "buffer size of numpy": np.getbufsize(), "warning filters": list(warnings.filters), "showwarning": warnings.showwarning, "working directory": os.getcwd(), "environment": dict(os.environ),
         "signal handlers": [signal.getsignal(i) for i in range(1, 32) if i not in (signal.SIGALRM,)], "locale": locale.setlocale(locale.LC_ALL), "stdout": sys.stdout, "stderr": sys.stderr, "stdin": sys.stdin,
         "recursion limit": sys.getrecursionlimit(), "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug()), "module path": list(sys.path), "excepthook": sys.excepthook,
         "logging": (logging.getLogger().level, list(logging.getLogger().handlers), logging.root.manager.disable), "csv dialects": (csv.list_dialects(), csv.field_size_limit()), "umask": umask(),
         "affinity": os.sched_getaffinity(0), "priority": os.getpriority(os.PRIO_PROCESS, 0), "temporary directory": tempfile.tempdir, "Python's generator": random.getstate(), "trace function": (sys.gettrace(), sys.getprofile())}
    return s


def umask():
    u = os.umask(0o22)
    os.umask(u)
    return u


def listing(top):
    return sorted(os.path.relpath(os.path.join(d, f), top) for d, _, fs in os.walk(top) for f in fs)


def opened(top):
    """Files below `top` this process has open."""
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if t.startswith(top + os.sep) and not t.endswith(".lock"):
            out.append(os.path.relpath(t, top))
    return sorted(out)


class World(object):
    def __init__(self, top):
        self.top = top

    def before(self, k, o):
        self.s = settings()

    def after(self, k, o):
        now = settings()
        for n in now:
            require(now[n] == self.s[n], "settings", "%s (step %d) changes the %s: %s, was %s" % (o["op"], k, n, str(now[n])[:200], str(self.s[n])[:200]))
        require(not listing(os.path.join(self.top, "here")), "stray-file", "%s (step %d) leaves %s in the working directory" % (o["op"], k, listing(os.path.join(self.top, "here"))))
        require(not listing(os.path.join(self.top, "temp")), "stray-file", "%s (step %d) leaves %s in the directory of temporary files" % (o["op"], k, listing(os.path.join(self.top, "temp"))))
        more = [f for f in listing(self.top) if f.split(os.sep)[0] not in ALLOWED]
        require(not more, "stray-file", "%s (step %d) leaves %s" % (o["op"], k, more))
        if opened(self.top):
            gc.collect()
        require(not opened(self.top), "left-open", "%s (step %d) leaves %s open" % (o["op"], k, opened(self.top)))


def extra(op, m, dr, files):
    """Operations that fail, or produce values at the limits."""
    X, T = gen.read_h5(files["X"]), gen.read_h5(files["T"])
    d, c = X.shape[1], T.shape[1]

    def fails(fn):
        try:
            fn()
        except Hang:
            raise
        except Exception:
            pass
    if op == "bad_predict":
        fails(lambda: m.predict(np.ones((4, d + 1))))
    elif op == "bad_train":
        fails(lambda: m.train(X[:-1], T))
    elif op == "bad_options":
        fails(lambda: m.train(X, T, "V", "CV", k=3))
    elif op == "bad_missing":
        fails(lambda: m.predict(os.path.join(dr, "none.h5")))
    elif op == "bad_neuron":
        b = gen.new_model("HPELM" if type(m).__name__ == "HPELM" else "ELM", d, c, batch=8)
        b.add_neurons(2, "tanh")
        b.add_neurons(1, np.frompyfunc(lambda v: 1 // 0, 1, 1))
        fails(lambda: b.train(X, T))
        if hasattr(b, "predict_async"):
            b.nnet.set_B(np.ones((3, c)))
            fails(lambda: b.predict(files["X"], os.path.join(dr, "out.h5")))
            fails(lambda: b.predict_async(files["X"], os.path.join(dr, "out.h5")))
            fails(lambda: b.train_async(files["X"], files["T"], "wc"))
            for g in ("HH.h5", "HT.h5"):
                if os.path.exists(os.path.join(dr, g)):
                    os.unlink(os.path.join(dr, g))
            fails(lambda: b.add_data_async(files["X"], files["T"], fHH=os.path.join(dr, "HH.h5"), fHT=os.path.join(dr, "HT.h5")))
    elif op == "bad_text":
        from hpelm.modules.hdf5_tools import make_hdf5
        src = os.path.join(dr, "text.csv")
        with open(src, "w") as f:
            f.write("1,2\n3,4\n5,x\n")
        fails(lambda: make_hdf5(src, os.path.join(dr, "text.h5"), delimiter=","))
    elif op == "bad_scaling":
        from hpelm.modules.hdf5_tools import normalize_hdf5
        g = gen.write_h5(os.path.join(dr, "norm.h5"), X)
        fails(lambda: normalize_hdf5(g, np.zeros(d + 1), np.ones(d)))
        fails(lambda: normalize_hdf5(g, ["a"] * d, np.ones(d)))
    elif op == "new":
        for a in (None, "basic"):
            b = gen.new_model("ELM" if len(X) % 2 else "HPELM", d, c, "ds"[len(X) % 3 == 0], batch=3, accelerator=a)
            b.add_neurons(3, "tanh", np.ones((d, 3)), np.ones(3))
            del b
        fails(lambda: gen.new_model("ELM", "x", c))
    elif op == "text":
        m.add_neurons(2, "sigm", np.ones((d, 2)), np.ones(2))
        assert str(m)
        repr(m)
    elif op == "bad_load":
        with open(os.path.join(dr, "bad.pkl"), "wb") as f:
            f.write(b"nothing")
        fails(lambda: gen.new_model("ELM", d, c).load(os.path.join(dr, "bad.pkl")))
    elif op == "bad_async":
        if hasattr(m, "predict_async"):
            fails(lambda: m.predict_async(files["T"] + "x", os.path.join(dr, "out.h5")))
            fails(lambda: m.train_async(files["X"], os.path.join(dr, "none.h5")))
    elif op in ("overflow", "underflow"):     # exponents at the limits
        b = gen.new_model("ELM", d, c)
        b.add_neurons(2, "sigm")
        b.add_neurons(1, "rbf_l2", np.zeros((d, 1)), np.array([1e-300 if op == "overflow" else 1e-3]))
        b.add_neurons(1, "tanh")
        b.project(X * (1e300 if op == "overflow" else -1e4))


def chk(case):
    with scratch(case["s"]) as d0:
        top = os.path.realpath(os.path.abspath(d0))
        for k in ("here", "temp"):
            os.mkdir(os.path.join(top, k))
        cwd, olddir, env = os.getcwd(), tempfile.tempdir, dict(os.environ)
        old, call = np.geterr(), np.geterrcall()
        sig = {i: signal.getsignal(i) for i in range(1, 32) if i not in (signal.SIGALRM, signal.SIGKILL, signal.SIGSTOP)}
        try:
            os.chdir(os.path.join(top, "here"))
            tempfile.tempdir = os.environ["TMPDIR"] = os.path.join(top, "temp")
            if case["err"]:
                if case["err"] == "call":
                    np.seterrcall(lambda *a: None)
                np.seterr(over=case["err"], under="ignore", divide=case["err"], invalid="ignore")
            with warnings.catch_warnings():
                if case["warn"] in ("always", "ignore"):
                    warnings.simplefilter(case["warn"])
                np.random.seed(case["seed"])
                c27.run(case, top, watch=World(top), extra=extra)
        finally:
            os.chdir(cwd)
            tempfile.tempdir = olddir
            os.environ.clear()
            os.environ.update(env)
            np.seterr(**old)
            np.seterrcall(call)
            for i, h in sig.items():
                if signal.getsignal(i) is not h and h is not None:
                    signal.signal(i, h)
    return {"tags": sorted(set(o["op"] for o in [case["first"]] + case["ops"]))}


def fixed(i, names, hp):
    return dict(c27.fixed(i, names, hp), err=(None, "warn", "call")[i % 3], warn=(None, "always")[i % 2])


FIXED = [fixed(i, [q, "add"], True) for i, q in enumerate(sorted(set(c27.HOPS)) + list(BAD))] + [fixed(40 + i, [q, "add"], False) for i, q in enumerate(sorted(set(c27.OPS)) + list(BAD))] + \
        [fixed(80 + i, ["select", "selectOP"], False) for i in range(6)]

SUBS = [
    Sub("world", cases, chk, lambda c: len(c["ops"]) >= 2, "at least three operations", quick=2400, thorough=30000, shards=6, timeout=60, fixed=FIXED),
]
