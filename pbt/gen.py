"""Case strategies (plain JSON) and their expansion into data, neurons and models."""
import numpy as np

try:
    from hypothesis import strategies as st
except ImportError:  # replaying does not need it
    st = None

STD = ("lin", "sigm", "tanh", "rbf_l1", "rbf_l2", "rbf_linf")
RBF = ("rbf_l1", "rbf_l2", "rbf_linf")
METRIC = {"rbf_l1": "cityblock", "rbf_l2": "euclidean", "rbf_linf": "chebyshev"}
PREC = {"d": np.float64, "s": np.float32}
EPS = {"d": float(np.finfo(np.float64).eps), "s": float(np.finfo(np.float32).eps)}

# ---------------------------------------------------------------- strategies


def seeds():
    return st.integers(0, 10**6)


def precs():
    return st.sampled_from(["d", "d", "d", "s"])


BIGN = ((64, 65, 100, 101), (127, 128, 129, 255, 256, 257), (300, 500, 512, 999, 1000), (1001, 1024, 1025, 1500, 2000, 2001),
        (2049, 3000, 4096, 4097, 5001))
WIDE = (10, 16, 17, 20, 33, 40, 64, 65, 100, 128, 130)


@st.composite
def rows(draw, lo, hi, every=12, cap=2001):
    """Number of rows: mostly lo..hi, sometimes at and around sizes where buffers, blocks and batches end."""
    if draw(st.integers(0, every - 1)) == every - 1:
        sizes = [[k for k in b if hi < k <= cap] for b in BIGN]
        return draw(st.sampled_from(draw(st.sampled_from([b for b in sizes if b]))))
    return draw(st.integers(lo, hi))


@st.composite
def wide(draw, lo, hi, every=15, cap=40):
    """Number of inputs, outputs or neurons: mostly lo..hi, sometimes many."""
    if draw(st.integers(0, every - 1)) == every - 1:
        return draw(st.sampled_from([k for k in WIDE if hi < k <= cap]))
    return draw(st.integers(lo, hi))


def batch_of(n):
    """Batch sizes for n rows; at most about 60 batches of very many rows."""
    if n < 64:
        return st.integers(1, n + 3)
    if n <= 520:      # rarely hundreds of batches
        return st.one_of(st.integers(n // 60, n // 4), st.integers(n // 4, n + 3), st.sampled_from([n - 1, n, n // 2, (n - 1) // 2, 1000]), st.integers(1, 4))
    return st.one_of(st.integers(n // 60, n // 4), st.integers(n // 4, n + 3), st.sampled_from([n - 1, n, n // 2, (n - 1) // 2, 1000]))


def batches(nmax=30):
    return st.one_of(st.integers(1, 6), st.integers(1, nmax + 5), st.just(1000))


@st.composite
def neuron_groups(draw, dmax=None, maxgroups=4, maxn=6, types=STD, min_total=1, cap=0, every=40):
    k = draw(st.integers(1, maxgroups))
    out = []
    for _ in range(k):
        f = draw(st.sampled_from(types))
        n = draw(wide(1, maxn, every=every, cap=cap)) if cap else draw(st.integers(1, maxn))
        out.append({"f": f, "n": n, "s": draw(seeds())})
    return out


def xkinds():
    # shape of input data: standard normal, shifted, integers, small, large
    return st.sampled_from(["n", "n", "n", "shift", "int", "small", "big"])


def norms():
    return st.sampled_from([None, None, 0, 1e-9, 1e-6, 1e-3, 0.1, 1, 7.5, 100])


# ---------------------------------------------------------------- expansion

def make_X(seed, n, d, kind="n", prec="d"):
    r = np.random.RandomState(seed)
    X = r.randn(n, d)
    if kind == "shift":
        X = X * 2 + r.randn(d) * 3
    elif kind == "int":
        X = r.randint(-4, 5, (n, d)).astype(float)
    elif kind == "small":
        X = X * 1e-3
    elif kind == "big":
        X = X * 1e3
    elif kind == "huge":
        X = np.round(X * 1e7)
    elif kind == "ones":
        X = r.randint(0, 2, (n, d)).astype(float)
    return X.astype(PREC[prec])


def xscale(kind):
    return {"n": 1.0, "shift": 3.0, "int": 3.0, "small": 1e-3, "big": 1e3, "huge": 1e7, "ones": 1.0}[kind]


def make_T(seed, n, c, prec="d", scale=1.0):
    r = np.random.RandomState(seed + 7919)
    return (r.randn(n, c) * scale).astype(PREC[prec])


def make_labels(seed, n, c, every=False):
    """Class labels; with every=True each class occurs (n >= c)."""
    r = np.random.RandomState(seed + 104729)
    p = r.dirichlet(np.ones(c))
    y = r.choice(c, size=n, p=p)
    if every and n >= c:
        y[r.permutation(n)[:c]] = np.arange(c)
    return y


def onehot(y, c, prec="d"):
    return np.eye(c, dtype=PREC[prec])[y]


def make_multilabel(seed, n, c, prec="d"):
    r = np.random.RandomState(seed + 15485863)
    return (r.rand(n, c) < 0.4).astype(PREC[prec])


def make_group(g, d, kind="n", prec="d"):
    """(number, func, W, B) of a neuron group: activations of order one for data of the given kind."""
    r = np.random.RandomState(g["s"])
    n, f = g["n"], g["f"]
    sc = xscale(kind)
    W = r.randn(d, n)
    B = r.randn(n)
    if g.get("dead") and f not in RBF:   # neurons that do not react to the data
        W[:, :g["dead"]] = 0
        B[:g["dead"]] = 0
    if f in RBF:
        W = W * sc
        B = (0.5 + r.rand(n)) * 2 * sc**2 * {"rbf_l1": d * d, "rbf_l2": 2 * d, "rbf_linf": 2}[f]
    else:
        W = W / sc / np.sqrt(d)
    if g.get("sc"):    # nearly linear neurons of small activations
        W, B = W * g["sc"], B * g["sc"]
    return n, f, W.astype(PREC[prec]), B.astype(PREC[prec])


def make_neurons(groups, d, kind="n", prec="d"):
    return [make_group(g, d, kind, prec) for g in groups]


def ref_neurons(neurons):
    """Merged per type in order of first addition: list of (func, W, B)."""
    out = []
    for n, f, W, B in neurons:
        for i, (f0, W0, B0) in enumerate(out):
            if f0 == f:
                out[i] = (f0, np.hstack((W0, W)), np.hstack((B0, B)))
                break
        else:
            out.append((f, W, B))
    return out


def act(f, X, W, B):
    """Documented function of one neuron type, in double precision (independent of scipy's cdist)."""
    X = np.asarray(X, dtype=np.float64)
    W = np.asarray(W, dtype=np.float64)
    B = np.asarray(B, dtype=np.float64)
    if f in RBF:
        if X.shape[0] * X.shape[1] * W.shape[1] > 10**6 and W.shape[1] > 1:
            return np.hstack([act(f, X, W[:, [j]], B[[j]]) for j in range(W.shape[1])])
        D = np.abs(X[:, :, None] - W[None, :, :])
        if f == "rbf_l1":
            d2 = D.sum(1)**2
        elif f == "rbf_l2":
            d2 = (D**2).sum(1)
        else:
            d2 = D.max(1)**2
        return np.exp(-d2 / B)
    Z = np.einsum("ij,jk->ik", X, W) + B
    if f == "lin":
        return Z
    if f == "sigm":
        return 1 / (1 + np.exp(Z))
    if f == "tanh":
        return np.tanh(Z)
    return np.asarray(f(Z), dtype=np.float64)


def ref_H(neurons, X):
    return np.hstack([act(f, X, W, B) for f, W, B in ref_neurons(neurons)])


def amp(neurons, X):
    """What one rounding error at the neurons' input makes of their output, in units of the last place: |x||w|+|b| for the projections
    (a linear neuron may cancel to a small activation), |H| (1 + |log H|) for the radial types; at least the activations."""
    X = np.asarray(X, dtype=np.float64)
    out = []
    for f, W, B in ref_neurons(neurons):
        H = np.abs(act(f, X, W, B))
        if isinstance(f, str) and f in RBF:
            out.append(H * (1 - np.log(H + 1e-300)))
        else:
            out.append(np.maximum(H, np.abs(X).dot(np.abs(np.asarray(W, dtype=np.float64))) + np.abs(np.asarray(B, dtype=np.float64))))
    return np.hstack(out)


def model_amp(m, X):
    return amp([g for g in m.nnet.get_neurons() if g[0] > 0], X)


def total(groups):
    return sum(g["n"] for g in groups)


# ---------------------------------------------------------------- models

def new_model(cls, d, c, prec="d", neurons=(), **kw):
    import hpelm
    M = {"ELM": hpelm.ELM, "HPELM": hpelm.HPELM}[cls]
    kw.setdefault("precision", {"d": ("double", "double", "64", np.float64), "s": ("single", "single", "32", np.float32)}[prec][(d + 2 * c) % 4])
    kw.setdefault("tprint", -1 if kw.get("batch", 0) % 3 == 1 else 5)    # reports its progress after every batch, or never
    m = M(d, c, **kw)
    for n, f, W, B in neurons:
        m.add_neurons(n, f, np.array(W), np.array(B))
    return m


def bystander(s, prec="d"):
    """Another model, of another kind, precision and size, is made, trained, used and forgotten."""
    r = np.random.RandomState(s % 2**31)
    d, c = r.randint(1, 5), r.randint(1, 4)
    groups = [{"f": STD[r.randint(6)], "n": r.randint(1, 5), "s": s + i} for i in range(r.randint(1, 4))]
    p = "sd"["sd".index(prec) - (s % 4 > 0)]
    kw = {"accelerator": "basic"} if s % 3 == 0 else {}
    m = new_model(("ELM", "HPELM")[s % 2], d, c, p, make_neurons(groups, d, "n", p), norm=7.5, batch=1 + s % 5, tprint=3, **kw)
    if s % 5 == 0:
        m.add_neurons(2, np.sin, r.randn(d, 2), r.randn(2))
    X, T = r.randn(9, d), onehot(r.randint(0, c, 9), c)
    if s % 7:
        m.train(X, T, *(("wc",) if c > 1 else ()), **({"w": np.arange(1, c + 1)} if c > 1 else {}))
        m.predict(X)
        m.error(T, m.predict(X))
    if s % 6 == 0:
        if hasattr(m.nnet, "_prune"):
            m.nnet._prune([0])
    return m


def solve_ref(H, T, norm, w=None):
    """Regularised (weighted) least squares in double precision; returns B, HH (with norm), HT."""
    H = np.asarray(H, dtype=np.float64)
    T = np.asarray(T, dtype=np.float64)
    ww = np.ones(len(H)) if w is None else np.asarray(w, dtype=np.float64)
    HH = (H * ww[:, None]).T.dot(H) + norm * np.eye(H.shape[1])
    HT = (H * ww[:, None]).T.dot(T)
    # augmented QR-type solution, more accurate than the normal equations
    A = np.vstack((H * np.sqrt(ww)[:, None], np.sqrt(norm) * np.eye(H.shape[1])))
    b = np.vstack((T * np.sqrt(ww)[:, None], np.zeros((H.shape[1], T.shape[1]))))
    B = np.linalg.lstsq(A, b, rcond=None)[0]
    return B, HH, HT


def cond(HH):
    s = np.linalg.svd(HH, compute_uv=False)
    return float(s[0] / s[-1]) if s[-1] > 0 else np.inf


def default_norm(prec):
    return 50 * EPS[prec]


# ---------------------------------------------------------------- data types and memory layouts

def as_type(A, dt):
    """Matrix in another numeric type; values are rounded and cut to its range."""
    if dt == "bool":
        return A > 0.5
    dt = np.dtype(dt)
    if dt.kind in "iu":
        i = np.iinfo(dt)
        return np.round(np.clip(A, max(i.min, -2.0**31), min(i.max, 2.0**31))).astype(dt)
    return A.astype(dt)


def blank(n, c, lay, dtype, fill):
    """An array of n rows in some memory layout, filled with one value."""
    if lay == "F":
        A = np.empty((n, c), dtype=dtype, order="F")
    elif lay == "cols":
        A = np.empty((n, 2 * c), dtype=dtype)[:, ::2]
    elif lay == "rows":
        A = np.empty((3 * n, c), dtype=dtype)[1::3]
    elif lay == "back":
        A = np.empty((n, c), dtype=dtype)[::-1]
    elif lay == "part":
        A = np.empty((n + 4, c + 2), dtype=dtype)[3:n + 3, 1:c + 1]
    else:
        A = np.empty((n, c), dtype=dtype)
    A[:] = fill
    return A


LAYS = ("C", "C", "F", "cols", "rows", "back", "part")
LAYOUTS = ("C", "F", "strided", "reversed", "transposed", "readonly")


def layout(X, lay):
    """The same matrix in some memory layout."""
    n, d = X.shape
    if lay == "F":
        return np.asfortranarray(X)
    if lay == "strided":
        Y = np.zeros((2 * n, 3 * d), dtype=X.dtype)
        Y[::2, ::3] = X
        return Y[::2, ::3]
    if lay == "reversed":
        return np.ascontiguousarray(X[::-1, ::-1])[::-1, ::-1]
    if lay == "transposed":
        return np.ascontiguousarray(X.T).T
    if lay == "readonly":
        X = X.copy()
        X.flags.writeable = False
        return X
    return np.ascontiguousarray(X)


def laid(A, k):
    """The same matrix in a memory layout chosen by k, mostly the usual one."""
    return layout(A, (("C",) * 6 + LAYOUTS)[k % 12])

# ---------------------------------------------------------------- HDF5 files

def write_h5(path, A, how="carray", dtype=None):
    """Writes a matrix to HDF5 in several storage layouts, independently of the toolbox."""
    import tables
    A = np.asarray(A) if dtype is None else np.asarray(A).astype(dtype)
    with tables.open_file(path, "w") as h5:
        if how == "array":
            h5.create_array(h5.root, "whatever", A)
        elif how == "earray":
            a = h5.create_earray(h5.root, "x", tables.Atom.from_dtype(A.dtype), (0, A.shape[1]))
            a.append(A)
        elif how == "zip":
            a = h5.create_carray(h5.root, "data", tables.Atom.from_dtype(A.dtype), A.shape,
                                 filters=tables.Filters(complevel=5, shuffle=True))
            a[:] = A
        elif how == "chunk":
            a = h5.create_carray(h5.root, "data", tables.Atom.from_dtype(A.dtype), A.shape,
                                 chunkshape=(max(1, min(3, A.shape[0])), A.shape[1]))
            a[:] = A
        else:
            a = h5.create_carray(h5.root, "data", tables.Atom.from_dtype(A.dtype), A.shape)
            a[:] = A
    return path


def read_h5(path):
    import tables
    with tables.open_file(path, "r") as h5:
        nodes = [n for n in h5.walk_nodes("/") if not isinstance(n, tables.Group)]
        if len(nodes) != 1:
            raise AssertionError("%d matrices in %s" % (len(nodes), path))
        return nodes[0][:]


STORAGE = ("carray", "array", "earray", "zip", "chunk")
