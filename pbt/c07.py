"""C07: concurrent workers neither lose nor double-count data.

Real processes run HPELM.add_data on one pair of matrices.  In `schedules` they stop at every file-system and lock operation
and a controller decides, as the case says, which one goes on (priorities with change points, as in PCT)."""
import errno
import os
import select
import signal
import sys
import time
import numpy as np
from core import Sub, Violation, Hang, asarray, close, require, scratch
import gen
from c04 import make_targets, weights
from c06 import ref_sums
from gen import st, EPS, PREC

SILENT = 0.7     # a worker that does not report for so long waits in a lock unknown to the harness
LIMIT = 25.0


@st.composite
def cases(draw, scheduled=True):
    d = draw(st.integers(1, 3))
    c = draw(st.integers(1, 2))
    k = draw(st.integers(2, 4)) if scheduled else draw(st.integers(2, 6))
    n = draw(st.integers(k, 16))
    cuts = sorted(draw(st.sets(st.integers(1, n - 1), min_size=k - 1, max_size=k - 1)))
    case = {"d": d, "c": c, "n": n, "mode": draw(st.sampled_from(["r", "r", "wc"])) if c > 1 else "r",
            "groups": draw(gen.neuron_groups(maxgroups=2, maxn=2, cap=33, every=25)), "xk": draw(st.sampled_from(["n", "int"])),
            "xs": draw(gen.seeds()), "prec": draw(gen.precs()), "norm": draw(st.sampled_from([None, 1e-3, 1, 10])),
            "ws": draw(gen.seeds()), "cuts": cuts, "pre": draw(st.sampled_from(["none", "none", "zero", "data"])),
            "workers": [{"acc": draw(st.sampled_from([None, None, None, "basic"])), "batch": draw(st.integers(1, 6)),
                         "route": draw(st.sampled_from(["arr", "arr", "arr", "file", "async"] if scheduled else
                                                       ["arr", "file", "file", "async"])),
                         "twice": draw(st.booleans()), "kill": draw(st.integers(0, 40)) == 23} for _ in range(k)]}
    for wk in case["workers"]:
        if wk["kill"] and wk["route"] == "async":
            wk["route"] = "file"   # its I/O processes would survive it
    if scheduled:
        case["prio"] = draw(st.permutations(list(range(k))))
        case["patience"] = draw(st.sampled_from([1, 1, 1, 2, 60]))
        case["changes"] = sorted(draw(st.lists(st.integers(0, 100), min_size=0, max_size=5)))
    return case


def sys_case(i, first, pre, twice=False):
    return {"d": 2, "c": 1, "n": 6, "mode": "r", "groups": [{"f": "tanh", "n": 2, "s": 5}], "xk": "n", "xs": 77, "prec": "d",
            "norm": 1, "ws": 0, "cuts": [3], "pre": pre,
            "workers": [{"acc": None, "batch": 4, "route": "arr", "twice": twice, "kill": False}] * 2,
            "prio": [first, 1 - first], "changes": [i], "patience": 1 if pre == "none" else 60}


# ------------------------------------------------------------------ worker side

class Agent(object):
    def __init__(self, rfd, wfd):
        self.pid, self.r, self.w, self.busy = os.getpid(), rfd, wfd, False
        self.skew, self.waits = 0.0, False

    def point(self, kind):
        if os.getpid() != self.pid or self.busy:
            return
        self.busy = True
        try:
            os.write(self.w, kind)
            if os.read(self.r, 1) != b"g":
                os._exit(99)
        finally:
            self.busy = False


def instrument(agent):
    import tables
    import fasteners

    def before(cls, name, kind):
        if cls is None or name not in cls.__dict__:
            return
        real = cls.__dict__[name]

        def wrapped(*a, **k):
            agent.point(kind)
            return real(*a, **k)
        setattr(cls, name, wrapped)

    before(tables.File, "__init__", b"o")
    before(tables.File, "close", b"c")
    for cls in (tables.Array, tables.CArray, tables.EArray):
        before(cls, "__getitem__", b"r")
        before(cls, "__setitem__", b"w")
    before(tables.Leaf, "flush", b"f")
    for name in ("isfile", "exists"):
        real = getattr(os.path, name)

        def wrapped(p, real=real):
            agent.point(b"e")
            return real(p)
        setattr(os.path, name, wrapped)
    # the clock of a worker that meets a locked file jumps: the holder may take arbitrarily long
    for name in ("monotonic", "time", "perf_counter"):
        def clock(real=getattr(time, name)):
            return real() + agent.skew
        setattr(time, name, clock)

    def my_sleep(s, real=time.sleep):
        if agent.waits and os.getpid() == agent.pid:
            agent.skew += s
        else:
            real(s)
    time.sleep = my_sleep
    lock = getattr(fasteners, "InterProcessLock", None)
    if lock is not None and hasattr(lock, "trylock"):
        init, trylock, unlock = lock.__init__, lock.trylock, lock.unlock

        def my_init(self, *a, **k):
            init(self, *a, **k)
            self.sleep_func = lambda s: None

        def my_trylock(self):
            agent.point(b"l")
            try:
                r = trylock(self)
                agent.waits = False
                return r
            except (IOError, OSError) as e:
                if e.errno in (errno.EACCES, errno.EAGAIN):
                    agent.skew += 3600
                    agent.waits = True
                    agent.point(b"B")
                raise

        def my_unlock(self):
            r = unlock(self)
            agent.point(b"U")
            return r
        lock.__init__, lock.trylock, lock.unlock = my_init, my_trylock, my_unlock


def work(case, wi, X, T, files, w, dr):
    wk = case["workers"][wi]
    p = case["prec"]
    nn = gen.make_neurons(case["groups"], case["d"], case["xk"], p)
    kw = {"accelerator": wk["acc"]} if wk["acc"] else {}
    if w is not None:
        kw.update(classification="wc", w=w)
    m = gen.new_model("HPELM", case["d"], case["c"], p, nn, norm=case["norm"], batch=wk["batch"], **kw)
    if wk["kill"]:
        m.nnet.add_batch = lambda *a, **k: os.kill(os.getpid(), signal.SIGKILL)
    cuts = [0] + case["cuts"] + [case["n"]]
    s, e = cuts[wi], cuts[wi + 1]
    spans = [(s, e)]
    if wk["twice"] and e - s > 1:
        spans = [(s, s + 1), (s + 1, e)]
    for s, e in spans:
        if wk["route"] == "arr":
            m.add_data(X[s:e], T[s:e], fHH=files[0], fHT=files[1])
        else:
            fn = m.add_data_async if wk["route"] == "async" else m.add_data
            fn(os.path.join(dr, "x%d.h5" % wi), os.path.join(dr, "t%d.h5" % wi), istart=s, icount=e - s, fHH=files[0], fHT=files[1])


def spawn(case, wi, X, T, files, w, dr, scheduled, others):
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid:
        os.close(r1)
        os.close(w2)
        return pid, w1, r2
    code = 1
    try:
        os.setpgid(0, 0)   # also its I/O processes
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(int(LIMIT * 3))
        os.close(w1)
        os.close(r2)
        for fd in others:
            os.close(fd)
        log = os.open(os.path.join(dr, "log%d" % wi), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        os.dup2(log, 1)
        os.dup2(log, 2)
        sys.stdout = sys.stderr = open(log, "w", closefd=False)
        if scheduled:
            agent = Agent(r1, w2)
            instrument(agent)
            agent.point(b"s")
        work(case, wi, X, T, files, w, dr)
        code = 0
    except BaseException:
        import traceback
        traceback.print_exc(file=sys.stderr)
        sys.stderr.flush()
    finally:
        os._exit(code)


# ------------------------------------------------------------------ controller

def control(case, procs):
    """Runs the workers one at a time; returns the number of steps and the kinds of preempted operations."""
    k = len(procs)
    prio = list(case["prio"])           # first = highest
    changes = set(case["changes"])
    alive, blocked, silent = set(range(k)), set(), set()
    step, trace = 0, []
    tries = [0] * k
    t0 = time.time()

    def wait(i, limit):
        fd = procs[i][2]
        ready, _, _ = select.select([fd], [], [], limit)
        if not ready:
            return None
        return os.read(fd, 1)

    for i in range(k):     # everyone reports that it has started
        if wait(i, 20) != b"s":
            alive.discard(i)
    while alive:
        if time.time() - t0 > LIMIT:
            raise Violation("deadlock", "workers %s do not complete" % sorted(alive))
        for i in list(silent):           # did a worker that waits elsewhere report?
            m = wait(i, 0)
            if m is not None:
                silent.discard(i)
                if m == b"":
                    alive.discard(i)
        ready = [i for i in prio if i in alive and i not in silent]
        if not ready:
            time.sleep(0.002)
            continue
        free = [i for i in ready if i not in blocked]
        if not free:
            if silent:
                time.sleep(0.002)
            blocked.clear()
            continue
        i = free[0]
        if step in changes:              # demote the one that would go on
            prio.remove(i)
            prio.append(i)
            trace.append(i)
            changes.discard(step)
            free = [j for j in prio if j in free]
            i = free[0]
        step += 1
        try:
            os.write(procs[i][1], b"g")
        except OSError:
            pass
        m = wait(i, SILENT)
        if m is None:
            silent.add(i)
        elif m == b"":
            alive.discard(i)
            blocked.clear()
        elif m == b"B":
            tries[i] += 1
            if tries[i] > case["patience"]:   # does it go on without the lock?
                blocked.add(i)
        elif m == b"U":
            blocked.clear()
            tries = [0] * k
    return step, trace


def reap(procs, kill=True):
    codes = []
    for pid, w1, r2 in procs:
        for fd in (w1, r2):
            try:
                os.close(fd)
            except OSError:
                pass
        if kill:
            for f in (os.killpg, os.kill):
                try:
                    f(pid, 9)
                except OSError:
                    pass
        try:
            codes.append(os.waitpid(pid, 0)[1])
        except OSError:
            codes.append(None)
    return codes


def chk(case):
    with scratch() as dr:
        return run(case, dr)


def run(case, dr):
    p, c, n = case["prec"], case["c"], case["n"]
    eps = EPS[p]
    X = gen.make_X(case["xs"], n, case["d"], case["xk"], p)
    T = make_targets(case).astype(PREC[p])
    w = weights(case) if case["mode"] == "wc" else None
    nn = gen.make_neurons(case["groups"], case["d"], case["xk"], p)
    norm = gen.default_norm(p) if case["norm"] is None else case["norm"]
    files = (os.path.join(dr, "HH.h5"), os.path.join(dr, "HT.h5"))
    H = gen.ref_H(nn, X)
    L = H.shape[1]
    T64 = T.astype(np.float64)
    HH, HT = norm * np.eye(L), np.zeros((L, c))
    cuts = [0] + case["cuts"] + [n]
    scale_rows = []
    for wi, wk in enumerate(case["workers"]):
        s, e = cuts[wi], cuts[wi + 1]
        if wk["route"] != "arr":
            gen.write_h5(os.path.join(dr, "x%d.h5" % wi), X)
            gen.write_h5(os.path.join(dr, "t%d.h5" % wi), T)
        if not wk["kill"]:
            a, b = ref_sums(H[s:e], T64[s:e], w, 0)
            HH, HT = HH + a, HT + b
    if case["pre"] != "none":
        P = np.zeros((L, L))
        Q = np.zeros((L, c))
        if case["pre"] == "data":
            P, Q = ref_sums(H[:2] * 0.5, T64[:2], w, 0)
        gen.write_h5(files[0], (P + norm * np.eye(L)).astype(PREC[p]))
        gen.write_h5(files[1], Q.astype(PREC[p]))
        HH, HT = HH + P, HT + Q
    scheduled = "prio" in case
    procs, t0 = [], time.time()
    codes = None
    try:
        for wi in range(len(case["workers"])):
            procs.append(spawn(case, wi, X, T, files, w, dr, scheduled, [fd for q in procs for fd in q[1:]]))
        if scheduled:
            steps, trace = control(case, procs)
        else:
            open_ = {q[2] for q in procs}
            while open_:
                if time.time() - t0 > LIMIT:
                    raise Violation("deadlock", "workers do not complete")
                for fd in select.select(list(open_), [], [], 1)[0]:
                    if os.read(fd, 1) == b"":
                        open_.discard(fd)
            steps, trace = 0, []
        codes = reap(procs, kill=False)
    finally:
        if codes is None:
            reap(procs)
    for wi, code in enumerate(codes):
        want = 9 if case["workers"][wi]["kill"] else 0
        if code != want:
            log = os.path.join(dr, "log%d" % wi)
            raise Violation("worker-failed", "worker %d of %d ended with status %s: %s"
                            % (wi, len(codes), code, open(log).read()[-800:] if os.path.exists(log) else ""))
    hn = np.linalg.norm(H, axis=0) * 2.5 + norm**0.5
    tn = np.linalg.norm(T64) * 2.5
    for f in files:
        require(os.path.exists(f), "sums", "no file %s" % os.path.basename(f))
    close("sums-HH", gen.read_h5(files[0]), HH, 30 * eps * (n + 5), scale=np.outer(hn, hn) + 1e-300)
    close("sums-HT", gen.read_h5(files[1]), HT, 30 * eps * (n + 5), scale=(hn * tn)[:, None] + 1e-300)
    # the matrices can be used
    m = gen.new_model("HPELM", case["d"], c, p, nn, norm=case["norm"])
    m.solve_corr(*files)
    require(np.all(np.isfinite(asarray(m.predict(X[:2]), "predict"))), "solve", "non-finite predictions")
    return {"tags": ["workers-%d" % len(codes), "pre-" + case["pre"], "switches-%d" % len(trace)] +
            sorted({wk["route"] for wk in case["workers"]}) + (["killed"] if any(wk["kill"] for wk in case["workers"]) else [])}


FIXED = [sys_case(i, first, pre) for pre in ("none", "zero") for i in range(0, 56) for first in (0, 1)]

SUBS = [Sub("schedules", cases, chk, lambda c: len(c["changes"]) >= 1, "at least one change of the running worker at a chosen operation",
            quick=840, thorough=16000, shards=8, timeout=90, fixed=FIXED),
        Sub("free", lambda: cases(scheduled=False), chk, lambda c: sum(not w["kill"] for w in c["workers"]) >= 2,
            "at least two workers run freely at the same time", quick=90, thorough=2400, shards=2, timeout=90, weight=0.1)]

ASSUMPTIONS = ["processes are preempted only at file-system, HDF5 and lock operations (all shared state lives in files)",
               "the file locks of the operating system work"]
