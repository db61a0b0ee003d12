"""C06: training accumulated on disk in parts equals training at once."""
import os
import numpy as np
from core import Sub, Violation, Hang, asarray, close, require, scratch, refused
import gen
import c01
from c03 import compare
from c04 import make_targets, weights
from gen import st, EPS, PREC


@st.composite
def cases(draw):
    d = draw(gen.wide(1, 4))
    c = draw(gen.wide(1, 3))
    n = draw(gen.rows(1, 30, every=15))
    mode = draw(st.sampled_from(["r", "r", "wc"])) if c > 1 else "r"
    groups = draw(gen.neuron_groups(maxgroups=3, maxn=3, cap=65, every=20))
    if draw(st.integers(0, 5)) == 0:
        groups = groups + [dict(groups[0])]
    cuts = sorted(set(draw(st.lists(st.integers(1, max(1, n - 1)), max_size=4))) - {n})
    k = len(cuts) + 1
    return {"d": d, "c": c, "n": n, "mode": mode, "groups": groups, "xk": draw(st.sampled_from(["n", "int", "shift"])),
            "xs": draw(gen.seeds()), "prec": draw(gen.precs()), "norm": draw(st.sampled_from([None, 1e-3, 0.1, 1, 10])),
            "ws": draw(gen.seeds()), "cuts": cuts, "order": draw(st.permutations(list(range(k)))),
            "stx": draw(st.sampled_from(gen.STORAGE)),
            "parts": [{"model": draw(st.sampled_from(["fresh", "fresh", "reuse", "loaded", "dirty"])),
                       "acc": draw(st.sampled_from([None, None, "basic"])),
                       "route": draw(st.sampled_from(["arr", "arr", "file", "file", "async"])),
                       "batch": draw(st.one_of(gen.batch_of(n), st.integers(1, 4) if n < 64 else gen.batch_of(n))),
                       "fail": draw(st.sampled_from([None, None, None, "readX", "readT", "compute", "shapeL", "shapeC", "notfound"])),
                       "at": draw(st.one_of(st.integers(0, 3), st.integers(-3, -1), st.integers(0, 40))), "solve": draw(st.booleans())} for _ in range(k)],
            "final": draw(st.sampled_from(["fresh", "last", "loaded"])), "facc": draw(st.sampled_from([None, "basic"]))}


class Faulty(object):
    """A matrix that fails to be read at the k-th access."""

    def __init__(self, A, at):
        self.A, self.at, self.k = A, at, 0
        self.dtype, self.shape, self.ndim = A.dtype, A.shape, A.ndim

    def __len__(self):
        return len(self.A)

    def _count(self):
        self.k += 1
        if self.k > self.at:
            raise IOError("injected read failure")

    def __getitem__(self, i):
        self._count()
        return self.A[i]

    def __array__(self, *a, **k):
        self._count()
        return np.array(self.A)


def ref_sums(H, T, w, norm):
    ww = np.ones(len(H)) if w is None else w[np.argmax(T, 1)]
    return (H * ww[:, None]).T.dot(H) + norm * np.eye(H.shape[1]), (H * ww[:, None]).T.dot(T)


def chk(case):
    with scratch(case["xs"]) as dr:
        return run(case, dr)


def run(case, dr):
    p, c, mode, n = case["prec"], case["c"], case["mode"], case["n"]
    eps = EPS[p]
    X = gen.make_X(case["xs"], n, case["d"], case["xk"], p)
    T = make_targets(case).astype(PREC[p])
    w = weights(case) if mode == "wc" else None
    nn = gen.make_neurons(case["groups"], case["d"], case["xk"], p)
    norm = gen.default_norm(p) if case["norm"] is None else case["norm"]
    fHH, fHT = os.path.join(dr, "HH.h5"), os.path.join(dr, "HT.h5")

    def fresh(acc=None, neurons=nn, cc=c, **kw):
        if acc:
            kw["accelerator"] = acc
        if mode == "wc" and cc == c:
            kw.update(classification="wc", w=w)
        return gen.new_model("HPELM", case["d"], cc, p, neurons, norm=case["norm"], **kw)

    one = gen.new_model("ELM", case["d"], c, p, nn, norm=case["norm"])
    H = asarray(one.project(X), "project").astype(np.float64)
    T64 = T.astype(np.float64)
    hn = np.linalg.norm(gen.model_amp(one, X), axis=0) * 2 + norm**0.5   # sqrt of the largest class weight is below 2
    tn = np.linalg.norm(T64) * 2
    L = H.shape[1]
    cuts = [0] + case["cuts"] + [n]
    done = []
    last = None
    tags = set()

    def stored(key):
        return asarray(gen.read_h5(fHH), key, (L, L)), asarray(gen.read_h5(fHT), key, (L, c))

    def check_sums(key):
        HH, HT = stored(key)
        idx = np.array(done, dtype=int)
        rHH, rHT = ref_sums(H[idx], T64[idx], w, norm)
        close(key + "-HH", HH, rHH, 30 * eps * (n + 3), scale=np.outer(hn, hn) + 1e-300)
        close(key + "-HT", HT, rHT, 30 * eps * (n + 3), scale=(hn * tn)[:, None] + 1e-300)

    for pi in case["order"]:
        part = case["parts"][pi]
        s, e = cuts[pi], cuts[pi + 1]
        Xp, Tp = gen.laid(X[s:e], case["xs"] + pi), gen.laid(T[s:e], case["ws"] + pi)
        route = part["route"]
        kind = part["model"]
        if kind == "reuse" and last is not None:
            m = last
        elif kind == "loaded":
            lastacc = part["acc"]
            m = fresh(part["acc"], neurons=())
            m.loads(fresh(None).dumps())
        else:
            m = fresh(part["acc"])
            if kind == "dirty":
                m.add_data(X[:1] * 3, T[:1])
            lastacc = part["acc"]
        m.batch = part["batch"]
        tags.update([kind, route])
        if part["fail"]:
            before = [gen.read_h5(f) for f in (fHH, fHT)] if done else None
            tags.add("fail-" + part["fail"])
            f = part["fail"]
            nb = -(-(e - s) // part["batch"])
            at = part["at"] % nb
            if f == "readX":
                refused("fail", lambda: m.add_data(Faulty(Xp, at), Tp, fHH=fHH, fHT=fHT), "failing read")
            elif f == "readT":
                refused("fail", lambda: m.add_data(Xp, Faulty(Tp, at), fHH=fHH, fHT=fHT), "failing read")
            elif f == "compute":
                real = m.nnet.add_batch
                cnt = [0]

                def bad(*a, **k):
                    cnt[0] += 1
                    if cnt[0] > at:
                        raise MemoryError("injected")
                    return real(*a, **k)
                m.nnet.add_batch = bad
                try:
                    m.add_data(Xp, Tp, fHH=fHH, fHT=fHT)
                except MemoryError:
                    pass
                m.nnet.__dict__.pop("add_batch", None)
                if cnt[0] <= at:
                    return {"nt": False, "tags": ["fault-not-reached"]}
            elif f == "shapeL" and done:
                nn2 = list(nn) + [(1, "lin", np.ones((case["d"], 1)), np.zeros(1))]
                m2 = fresh(part["acc"], neurons=nn2)
                refused("mismatch", lambda: m2.add_data(Xp, Tp, fHH=fHH, fHT=fHT), "matrices with another number of neurons")
            elif f == "shapeC" and done:
                m2 = fresh(part["acc"], cc=c + 1)
                T2 = np.hstack((Tp, Tp[:, :1]))
                refused("mismatch", lambda: m2.add_data(Xp, T2, fHH=fHH, fHT=fHT), "matrices with another number of outputs")
            elif f == "notfound":
                refused("mismatch", lambda: m.add_data(os.path.join(dr, "nothing.h5"), os.path.join(dr, "nothing2.h5"), fHH=fHH, fHT=fHT),
                        "missing data files")
            if before is not None:
                A, B = stored("after-failure")
                require(np.array_equal(A, before[0]) and np.array_equal(B, before[1]), "after-failure",
                        "a failed part (%s) changed the stored matrices" % f)
        if route == "arr":
            m.add_data(Xp, Tp, fHH=fHH, fHT=fHT)
        else:
            fX = gen.write_h5(os.path.join(dr, "x.h5"), X, case["stx"])
            fT = gen.write_h5(os.path.join(dr, "t.h5"), T, case["stx"])
            fn = m.add_data_async if route == "async" else m.add_data
            fn(fX, fT, istart=s, icount=e - s, fHH=fHH, fHT=fHT)
        done += list(range(s, e))
        check_sums("part")
        if part["solve"]:
            m.solve_corr(fHH, fHT)
        last = m
    # final solution
    if case["final"] == "last":
        m = last
    elif case["final"] == "loaded":
        m = fresh(case["facc"], neurons=())
        m.loads(fresh(None).dumps())
    else:
        m = fresh(case["facc"])
    m.solve_corr(fHH, fHT)
    HH, HT = stored("final")
    one.train(X, T, *(("wc",) if w is not None else ()), **({"w": w} if w is not None else {}))
    k = gen.cond(HH)
    well = k * eps * (L + n) < (1e-4 if p == "d" else 1e-2)
    Z = gen.make_X(case["xs"] + 1, 5, case["d"], case["xk"], p)
    B = asarray(m.nnet.get_B(), "weights", (L, c))
    if well:
        Y1, Y2 = asarray(one.predict(Z), "predict"), asarray(m.predict(Z), "predict")
        s = np.linalg.norm(HH)
        sc = np.linalg.norm(gen.model_amp(one, Z), axis=1)[:, None] * (np.linalg.norm(B) * max(1, np.sum(hn**2) / s) + np.linalg.norm(hn) * tn / s) + 1e-300
        close("solution", Y2, Y1, 30 * eps * (L + n) * k, scale=sc)
    else:
        require(np.all(np.isfinite(B)), "solution", "non-finite weights")
        fast = (case["facc"] if case["final"] != "last" else lastacc) is None
        if w is None:
            c01.check_fit(H, B, T, norm, p, fast)
    return {"tags": sorted(tags) + ["well" if well else "ill", "prec-" + p, "final-" + case["final"]]}


def big(i, n, cuts, L, **kw):
    parts = [{"model": ["fresh", "loaded", "reuse"][(i + j) % 3], "acc": None, "route": ["arr", "file", "async"][(i + j) % 3], "batch": max(1, n // 3 + j), "fail": None,
              "at": 0, "solve": j % 2 == 0} for j in range(len(cuts) + 1)]
    return dict({"d": 3, "c": 2, "n": n, "mode": "r", "groups": [{"f": f, "n": k, "s": i + k} for f, k in L], "xk": "n", "xs": 20 + i, "prec": "d", "norm": 1, "ws": i,
                 "cuts": cuts, "order": list(range(len(cuts) + 1))[::1 if i % 2 else -1], "stx": gen.STORAGE[i % 5], "parts": parts, "final": "fresh", "facc": None}, **kw)


FIXED = [big(0, 600, [200, 500], [("tanh", 257)]), big(1, 70001, [1, 65537], [("tanh", 4)]), big(2, 700, [300], [("sigm", 200), ("rbf_l2", 110)], c=1),
         big(3, 300, [100, 101, 102, 250], [("tanh", 20)], c=140), big(4, 40001, [20000], [("lin", 3)], mode="wc"), big(5, 400, [100], [("tanh", 270)], prec="s", norm=10),
         big(6, 60, list(range(2, 60, 2)), [("tanh", 5)])]
FIXED += [big(20 + i, 40, [15], [("tanh", L - L // 3), ("sigm", L // 3)], norm=10) for i, L in enumerate((128, 129, 200, 300, 363, 500, 512, 513, 700, 1001, 1025))]

SUBS = [Sub("parts", cases, chk, lambda c: len(c["cuts"]) >= 1 and c["n"] >= 4, "at least two parts and four rows",
            quick=1920, thorough=30000, shards=8, fixed=FIXED)]
