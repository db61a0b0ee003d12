"""Machinery shared by all checks: violations, comparisons, the Hypothesis driver, replay."""
import contextlib
import hashlib
import io
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

import numpy as np

warnings.filterwarnings("ignore")
np.seterr(all="ignore")

REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The property does not hold on this case."""

    def __init__(self, key, msg=""):
        super().__init__("%s: %s" % (key, msg))
        self.key = key


class Hang(Exception):
    pass


class Sub(object):
    """One executable statement of (a part of) a property.

    strategy()  -> Hypothesis strategy of JSON cases
    check(case) -> None or a dict {"nt": bool, "tags": [...]}; raises on a violation
    nt(case)    -> True if the case is non-trivial (counted in the evidence)
    """

    def __init__(self, name, strategy, check, nt, rule, quick=300, thorough=6000, timeout=60, shards=1, tags=None,
                 weight=1.0, fixed=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.nt = nt
        self.rule = rule
        self.quick = quick
        self.thorough = thorough
        self.timeout = timeout
        self.shards = shards
        self.tags = tags
        self.weight = weight
        self.fixed = fixed or []   # cases that are always run first


# ---------------------------------------------------------------- comparisons

def asarray(a, key, shape=None):
    try:
        a = np.asarray(a, dtype=np.float64)
    except Exception as e:
        raise Violation(key, "result is not a numeric array: %r (%s)" % (type(a), e))
    if shape is not None and a.shape != tuple(shape):
        raise Violation(key, "shape %s, expected %s" % (a.shape, tuple(shape)))
    return a


def close(key, got, want, tol, scale=None, note=""):
    """|got-want| <= tol*scale elementwise, scale defaults to max(1, max|want|)."""
    want = np.asarray(want, dtype=np.float64)
    got = asarray(got, key, want.shape)
    if want.size == 0:
        return
    if not np.all(np.isfinite(got)):
        raise Violation(key, "non-finite values in the result %s" % note)
    if scale is None:
        scale = max(1.0, float(np.max(np.abs(want))))
    err = np.abs(got - want)
    bad = err > tol * scale
    if np.any(bad):
        i = np.unravel_index(np.argmax(err / np.broadcast_to(scale, err.shape)), err.shape)
        raise Violation(key, "differs at %s: got %r, expected %r (tolerance %.3g) %s"
                        % (tuple(int(j) for j in i), float(got[i]), float(want[i]),
                           float(np.max(tol * np.broadcast_to(scale, err.shape)[i])), note))


def same(key, got, want, note=""):
    """Exactly equal arrays (NaN-free)."""
    want = np.asarray(want)
    try:
        got = np.asarray(got)
    except Exception as e:
        raise Violation(key, str(e))
    if got.shape != want.shape:
        raise Violation(key, "shape %s, expected %s %s" % (got.shape, want.shape, note))
    if not np.array_equal(got, want):
        i = np.argwhere(np.not_equal(got, want))[0]
        raise Violation(key, "differs at %s: got %r, expected %r %s" % (tuple(int(j) for j in i), got[tuple(i)], want[tuple(i)], note))


def require(cond, key, msg=""):
    if not cond:
        raise Violation(key, msg)


def refused(key, fn, what=""):
    """fn() must raise an ordinary exception."""
    try:
        r = fn()
    except Hang:
        raise
    except Exception:
        return
    raise Violation(key, "not refused: %s (returned %s)" % (what, str(r)[:80]))


# ---------------------------------------------------------------- running one case

_DEVNULL = open(os.devnull, "w")


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(_DEVNULL):
        yield


_scratch_root = None


def scratch_base():
    return "/dev/shm" if os.access("/dev/shm", os.W_OK) else None


def scratch_root():
    global _scratch_root
    if _scratch_root is None or not os.path.isdir(_scratch_root):
        base = os.environ.get("VERIF_SCRATCH") or scratch_base()
        _scratch_root = tempfile.mkdtemp(prefix="hpelm_pbt_", dir=base)
    return _scratch_root


def cleanup():
    global _scratch_root
    if _scratch_root and os.path.isdir(_scratch_root):
        shutil.rmtree(_scratch_root, ignore_errors=True)
    _scratch_root = None


NAMES = (None, None, "plain", "with space", "\u00fcnic\u00f6de \u5b57", "x.h5", "a.b,c;d", None, "relative", "bare")


@contextlib.contextmanager
def scratch(k=0):
    """An empty directory: of a name chosen by k, or as a path relative to the current directory, or the current directory itself."""
    d = tempfile.mkdtemp(dir=scratch_root())
    name = NAMES[k % len(NAMES)]
    cwd = os.getcwd()
    try:
        if name in ("relative", "bare"):
            os.mkdir(os.path.join(d, "sub dir"))
            os.chdir(os.path.join(d, "sub dir") if name == "bare" else d)
            yield "" if name == "bare" else "sub dir"
        elif name:
            os.mkdir(os.path.join(d, name))
            yield os.path.join(d, name)
        else:
            yield d
    finally:
        os.chdir(cwd)
        close_stray_h5()
        shutil.rmtree(d, ignore_errors=True)


def close_stray_h5():
    try:
        import tables
        tables.file._open_files.close_all()
    except Exception:
        pass


def _alarm(sig, frame):
    raise Hang()


def run_case(sub, case, retry=True):
    """Runs check(case); returns None or (key, message)."""
    signal.signal(signal.SIGALRM, _alarm)
    for limit in ((sub.timeout, 2.5 * sub.timeout) if retry else (2.5 * sub.timeout,)):
        err = io.StringIO()
        np.random.seed(12345)
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            with quiet(), contextlib.redirect_stderr(err):
                try:
                    info = sub.check(json.loads(json.dumps(case)))
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
            return None, info
        except Hang:
            close_stray_h5()
            res = ("hang", "did not terminate within %d s" % limit)
            continue
        except Violation as v:
            return (v.key, str(v)), None
        except (KeyboardInterrupt, MemoryError, SystemExit):
            raise
        except BaseException as e:
            if type(e).__module__.startswith("hypothesis"):
                raise
            tb = traceback.extract_tb(e.__traceback__)
            inrepo = [f for f in tb if "hpelm" in f.filename and "/pbt/" not in f.filename]
            where = "%s:%s" % (os.path.basename(inrepo[-1].filename), inrepo[-1].name) if inrepo else "harness"
            return ("exception", "%s: %s (in %s)\n%s" % (type(e).__name__, e, where,
                                                        "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:])), None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    return res, None


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def drive(sub, seed, n, budget, shrink_budget=40.0, known=lambda key, case: False, shard=(0, 1)):
    """Searches n generated cases; returns a statistics dict (with 'violation' if one was found)."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    st = {"sub": sub.name, "evaluations": 0, "nontrivial": set(), "samples": [], "tags": {}, "violation": None,
          "skipped": 0, "known": {}}
    t0 = time.time()
    state = {"best": None, "tfail": None}

    def one(case):
        now = time.time()
        if state["tfail"] is not None:
            if now - state["tfail"] > shrink_budget:
                return
        elif now - t0 > budget:
            st["skipped"] += 1
            return
        tc = time.time()
        bad, info = run_case(sub, case, retry=state["tfail"] is None)
        if state["tfail"] is None and time.time() - tc > st.get("slowest_s", 1.0):
            st["slowest_s"], st["slowest"] = round(time.time() - tc, 1), case
        if state["tfail"] is None:
            st["evaluations"] += 1
            nt = sub.nt(case)
            if info and "nt" in info:
                nt = nt and info["nt"]
            if nt:
                h = case_hash(case)
                if h not in st["nontrivial"]:
                    st["nontrivial"].add(h)
                    k = len(st["nontrivial"])
                    if k in (1, 10, 100, 1000) and len(st["samples"]) < 3:
                        st["samples"].append({"sub": sub.name, "case": case})
            for t in (info or {}).get("tags", []):
                st["tags"][t] = st["tags"].get(t, 0) + 1
        if bad is not None:
            if known(bad[0], case):
                st["known"][bad[0]] = st["known"].get(bad[0], 0) + 1
                return
            if state["tfail"] is None:
                state["tfail"] = time.time()
            state["best"] = (case, bad)
            raise Violation(bad[0], bad[1])

    for case in sub.fixed[shard[0]::shard[1]]:
        try:
            one(case)
        except Violation:
            break

    if state["best"] is None and n > 0:
        @hypothesis.seed(seed)
        @settings(max_examples=n, deadline=None, database=None, derandomize=False, report_multiple_bugs=False,
                  suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink), print_blob=False)
        @given(sub.strategy())
        def test(case):
            one(case)

        try:
            with open(os.devnull, "w") as dn, contextlib.redirect_stderr(dn), contextlib.redirect_stdout(dn):
                test()
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, MemoryError, SystemExit)):
                raise
            if state["best"] is None:  # not a failure of the case: an error of the machinery
                st["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    if state["best"] is not None:
        case, bad = state["best"]
        st["violation"] = {"case": case, "key": bad[0], "message": bad[1][-3000:]}
    st["nontrivial"] = sorted(st["nontrivial"])
    st["wall_s"] = time.time() - t0
    return st
