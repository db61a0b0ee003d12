"""C15: all CPU solvers agree through every operation: histories on several models against a reference state in double precision."""
import os
import numpy as np
from core import Sub, Violation, asarray, close, same, require, scratch
import gen
from c01 import check_fit
from c02 import scale_of
from gen import st, EPS, PREC

TYPES = gen.STD


@st.composite
def ops(draw):
    k = draw(st.sampled_from(["addn", "data", "data", "data", "wdata", "corr", "corr", "setcorr", "merge", "solve", "solve", "solve",
                              "solvecorr", "prune", "reset", "setB", "load", "other", "disk", "predict", "predict", "project", "neurons"]))
    op = {"k": k, "s": draw(gen.seeds())}
    if k == "addn":
        op["g"] = {"f": draw(st.sampled_from(TYPES)), "n": draw(gen.wide(1, 4, every=40)), "s": op["s"]}
    if k in ("data", "wdata", "disk"):
        op["n"] = draw(gen.rows(1, 12, every=40))
        op["b"] = draw(gen.batch_of(op["n"]))
    return op


def small(groups, sc):
    """Neurons of tiny activations."""
    return [dict(g, sc=sc, f="lin" if g["f"] in gen.RBF + ("sigm",) else g["f"]) for g in groups] if sc else groups


@st.composite
def cases(draw, accs=(None, "basic")):
    return {"d": draw(gen.wide(1, 4)), "c": draw(gen.wide(1, 3)), "prec": draw(gen.precs()),
            "norm": draw(st.sampled_from([1e-3, 0.1, 0.1, 1, 1, 10, 1e-9, 0])), "xk": draw(st.sampled_from(["n", "int"])),
            "groups": small(draw(gen.neuron_groups(maxgroups=3, maxn=3, cap=33)), draw(st.sampled_from([None] * 7 + [1e-5]))), "s": draw(gen.seeds()),
            "ops": draw(st.lists(ops(), min_size=3, max_size=14))}


class State(object):
    """The reference: neurons by type, sums, weights, all in double precision."""

    def __init__(self, case):
        self.case = case
        self.groups = []      # [func, W, B]
        self.HH = self.HT = self.B = None
        self.rows = 0
        self.tn = 0.0
        self.dead = set()
        self.Bacc = 0.0       # relative accuracy of B

    def add(self, n, f, W, B):
        for g in self.groups:
            if g[0] == f:
                g[1], g[2] = np.hstack((g[1], W)), np.hstack((g[2], B))
                break
        else:
            self.groups.append([f, W, B])
        self.HH = self.HT = self.B = None

    @property
    def L(self):
        return sum(g[1].shape[1] for g in self.groups)

    def H(self, X):
        return np.hstack([gen.act(f, X, W, B) for f, W, B in self.groups])

    def amp(self, X):
        return scale_of([(W.shape[1], f, W, B) for f, W, B in self.groups], np.asarray(X, dtype=float))

    def start(self):
        self.HH = self.case["norm"] * np.eye(self.L)
        self.HT = np.zeros((self.L, self.case["c"]))
        self.dg = np.ones(self.L) * self.case["norm"]
        self.rows, self.tn = 0, 0.0
        self.log, self.norm = [], self.case["norm"]

    def data(self, X, T, w=None):
        if self.HH is None:
            self.start()
        ww = np.ones(len(X)) if w is None else w
        H = self.H(X)
        self.HH = self.HH + (H * ww[:, None]).T.dot(H)
        self.HT = self.HT + (H * ww[:, None]).T.dot(np.asarray(T, dtype=float))
        A = self.amp(X)
        self.dg = self.dg + np.sum(ww[:, None] * np.maximum(A, np.abs(H))**2, 0)
        self.rows += len(X)
        self.log.append([np.asarray(X, dtype=float), np.asarray(T, dtype=float), ww])
        self.tn = np.sqrt(self.tn**2 + np.sum(ww[:, None] * np.asarray(T, dtype=float)**2))


def chk(case, accs=(("ELM", None), ("ELM", "basic"), ("HPELM", None), ("HPELM", "basic"))):
    with scratch(case["s"]) as dr:
        return run(case, dr, accs)


def make(case, cls, acc, neurons=()):
    kw = {"accelerator": acc} if acc else {}
    return gen.new_model(cls, case["d"], case["c"], case["prec"], neurons, norm=case["norm"], **kw)


def run(case, dr, accs):
    p, d, c = case["prec"], case["d"], case["c"]
    eps = EPS[p]
    ref = State(case)
    ms = [make(case, cls, acc) for cls, acc in accs]

    def addn(g):
        n, f, W, B = gen.make_group(g, d, case["xk"], p)
        ref.add(n, f, W, B)
        for m in ms:
            m.add_neurons(n, f, W.copy(), B.copy())

    def check_corr(key):
        k = 40 * eps * (ref.rows + d + 5)
        s = np.sqrt(ref.dg)
        for m, (cls, acc) in zip(ms, accs):
            HH, HT = (asarray(v, key).copy() for v in m.nnet.get_corr())
            note = "%s %s" % (cls, acc)
            close(key + "-HH", HH, ref.HH, k, scale=np.outer(s, s), note=note)
            close(key + "-HT", HT, ref.HT, k, scale=(s * (ref.tn + 1e-300))[:, None], note=note)
            close(key + "-symmetric", HH, HH.T, k, scale=np.outer(s, s), note=note)

    def check_B(key, get):
        # condition of the system decides whether the weights are determined to the precision
        cnd = gen.cond(ref.HH)
        acc_ = 60 * eps * (ref.rows + ref.L + d + 5) * cnd * float(np.max(ref.dg)) / np.linalg.norm(ref.HH, 2)
        if not acc_ <= 0.02:    # then the fit decides
            if ref.log:
                w = np.sqrt(np.hstack([v[2] for v in ref.log]))[:, None]
                Hw = w * np.vstack([ref.H(v[0]) for v in ref.log])
                Tw = w * np.vstack([v[1] for v in ref.log])
                for m, a in zip(ms, accs):
                    B = asarray(get(m), key, ref.HT.shape)
                    require(np.all(np.isfinite(B)), key + "-finite", "non-finite weights %s" % (a,))
                    check_fit(Hw, B, Tw, ref.norm, p, a[1] is None)
            return None
        want = np.linalg.solve(ref.HH, ref.HT)
        sc = np.linalg.norm(want, axis=0) + ref.tn / np.sqrt(np.linalg.norm(ref.HH, 2)) + 1e-300
        for m, a in zip(ms, accs):
            close(key, asarray(get(m), key, want.shape), want, acc_, scale=sc[None, :], note=str(a))
        return want

    for g in case["groups"]:
        addn(g)
    used, others = set(), []
    for step, op in enumerate(case["ops"]):
        k = op["k"]
        r = np.random.RandomState(op["s"])
        if k == "addn":
            if op["g"]["f"] in ref.dead:
                continue
            addn(op["g"])
        elif k in ("data", "wdata", "disk"):
            X = gen.make_X(op["s"], op["n"], d, case["xk"], p)
            T = gen.make_T(op["s"], op["n"], c, p) * (op["s"] % 9 > 0)      # targets are sometimes all zero, and the weights then
            w = None
            if k == "wdata":
                w = r.randint(1, 5, op["n"]) * 0.5
                for i, m in enumerate(ms):
                    m.nnet.add_batch(gen.laid(X, op["s"] + i), gen.laid(T, op["s"] // 7 + i), w.astype(PREC[p]))
            elif k == "data":
                for i, m in enumerate(ms):
                    m.batch = op["b"]
                    m.add_data(gen.laid(X, op["s"] + i), gen.laid(T, op["s"] // 7 + i))
            else:
                ref.HH = None      # parts on disk start from zero
                for i, (m, (cls, acc)) in enumerate(zip(ms, accs)):
                    m.batch = op["b"]
                    if cls == "HPELM":
                        f = [os.path.join(dr, "%s_%d_%d.h5" % (n, step, i)) for n in ("HH", "HT")]
                        m.add_data(X, T, fHH=f[0], fHT=f[1])
                    else:
                        m.nnet.reset()
                        m.add_data(X, T)
            ref.data(X, T, w)
            check_corr(k)
        elif k in ("corr", "setcorr", "merge", "solve", "solvecorr"):
            if ref.HH is None:
                continue
            if k == "corr":
                check_corr("get_corr")
            elif k in ("setcorr", "merge"):
                got = [[np.array(v) for v in m.nnet.get_corr()] for m in ms]
                f = 1
                if k == "merge":   # the sums of two equal halves
                    f = 2
                for i, m in enumerate(ms):
                    HH, HT = got[(i + 1) % len(ms)]
                    HH, HT = HH * f, HT * f
                    m.nnet.set_corr(HH, HT)
                    HH[:] = 7
                    HT[:] = 7
                for v in ref.log:
                    v[2] = v[2] * f
                ref.norm *= f
                ref.HH, ref.HT, ref.dg, ref.tn = ref.HH * f, ref.HT * f, ref.dg * f, ref.tn * f**0.5
                check_corr(k)
            elif k == "solve":
                for m in ms:
                    m.nnet.solve()
                ref.B = check_B("solve", lambda m: m.nnet.get_B())
                check_corr("sums-after-solve")
                if ref.B is None:      # ill-conditioned: continue from known weights
                    op = dict(op, k="setB")
                    k = "setB"
                    used.add("ill")
                else:
                    ref.B = np.array(ms[0].nnet.get_B(), dtype=np.float64)
                    for m in ms:
                        m.nnet.set_B(ref.B)
            else:
                before = [None if m.nnet.get_B() is None else np.array(m.nnet.get_B()) for m in ms]
                check_B("solve_corr", lambda m: m.nnet.solve_corr(*m.nnet.get_corr()))
                for m, b in zip(ms, before):
                    now = m.nnet.get_B()
                    require((now is None) == (b is None), "solve_corr-state", "solving given matrices set the weights")
                    if b is not None:
                        same("solve_corr-state", now, b)
                check_corr("sums-after-solve_corr")
        elif k == "prune":
            if not all(hasattr(m.nnet, "_prune") for m in ms) or ref.L < 2:
                continue
            keep = r.permutation(ref.L)[:r.randint(1, ref.L + 1)]
            for m in ms:
                m.nnet._prune(keep.copy())
            o = 0
            for g in ref.groups:
                n = g[1].shape[1]
                ix = [int(i) - o for i in keep if o <= i < o + n]
                g[1], g[2] = g[1][:, ix], g[2][ix]
                o += n
                if not ix:
                    ref.dead.add(g[0])
            ref.HH = ref.HT = ref.B = None
        elif k == "reset":
            for m in ms:
                m.nnet.reset()
            ref.HH = ref.HT = None
        if k == "setB":
            B = (r.randn(ref.L, c) * (op["s"] % 4 > 0)).astype(PREC[p])
            for m in ms:
                B2 = B.copy()
                m.nnet.set_B(B2)
                B2[:] = 7
            ref.B = B.astype(np.float64)
        elif k == "load":
            sums = [None if ref.HH is None else [np.array(v) for v in m.nnet.get_corr()] for m in ms]
            old = ms
            ms = []
            for i in range(len(old)):
                j = (i + 1) % len(old)
                new = gen.new_model(accs[i][0], d, c, p, **({"accelerator": accs[i][1]} if accs[i][1] else {}))
                new.loads(old[j].dumps())
                if sums[j] is not None:
                    new.nnet.set_corr(*sums[j])
                ms.append(new)
            if ref.HH is not None:
                check_corr("loaded")
        elif k == "other":
            others.append(gen.bystander(op["s"], p))
        used.add(k)
        # after every operation: the same network, weights, projections and predictions
        Z = gen.make_X(op["s"] + 1, 3, d, case["xk"], p)
        HZ, A = ref.H(Z), ref.amp(Z)
        tol = 40 * eps * (d + 3)
        for m, a in zip(ms, accs):
            note = "%s after %s" % (a, k)
            got = [(n, f, np.asarray(W), np.asarray(b)) for n, f, W, b in m.nnet.get_neurons() if n > 0]
            want = [g for g in ref.groups if g[1].shape[1] > 0]
            require([(n, f) for n, f, _, _ in got] == [(g[1].shape[1], g[0]) for g in want], "neurons",
                    "%s, expected %s %s" % ([x[:2] for x in got], [(g[1].shape[1], g[0]) for g in want], note))
            for x, g in zip(got, want):
                same("neuron-weights", x[2], g[1], note)
                same("neuron-biases", x[3], g[2], note)
            require(m.nnet.L == ref.L, "L", "%r neurons, expected %d %s" % (m.nnet.L, ref.L, note))
            close("project", m.project(Z), HZ, tol, scale=A, note=note)
            B = m.nnet.get_B()
            require((B is None) == (ref.B is None), "weights", "weights %s %s" % ("lost" if B is None else "present", note))
            if B is not None:
                B = asarray(B, "weights", ref.B.shape)
                same("weights", B, ref.B.astype(PREC[p]), note)
                close("predict", m.predict(Z), HZ.dot(ref.B), tol + 10 * eps * ref.L, scale=A.dot(np.abs(ref.B)) + 1e-300, note=note)
    return {"tags": sorted(used) + ["prec-" + p]}


def big(i, d, c, L, n, ops, **kw):
    return dict({"d": d, "c": c, "prec": "d", "norm": 1, "xk": "n", "groups": [{"f": f, "n": k, "s": i + k} for f, k in L], "s": 7 + i,
                 "ops": [dict({"k": k, "s": 60 + 2 * i + j}, **({"n": n, "b": max(1, n * 2 // 3)} if k in ("data", "wdata", "disk") else {})) for j, k in enumerate(ops)]}, **kw)


FULL = ["data", "solve", "wdata", "corr", "solve", "setcorr", "solvecorr", "predict", "load", "disk", "solve", "prune", "data", "solve"]
FIXED = [big(0, 4, 2, [("tanh", 257)], 400, FULL), big(1, 10, 3, [("sigm", 150), ("lin", 10), ("rbf_l2", 150)], 500, FULL), big(2, 3, 140, [("tanh", 20)], 60, FULL),
         big(3, 2, 1, [("tanh", 5)], 40001, FULL), big(4, 2, 2, [("tanh", 270)], 300, FULL, prec="s", norm=10), big(5, 200, 2, [("lin", 20), ("tanh", 20)], 100, FULL)]

SUBS = [Sub("history", cases, chk, lambda c: sum(o["k"] in ("solve", "setcorr", "merge", "prune", "load", "disk") for o in c["ops"]) >= 2,
            "at least two operations that change the state of the solver", quick=12000, thorough=150000, shards=8, fixed=FIXED)]
