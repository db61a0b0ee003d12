"""C20: make_hdf5 stores exactly the given matrix."""
import bz2
import gzip
import os
import numpy as np
from core import Sub, Violation, asarray, close, same, require, refused, scratch
import gen
from gen import st
from c02 import layout

DTYPES = ("float64", "float64", "float32", "int64", "int32", "int16", "int8", "uint8", "float16")
SRC = ("array", "npy", "txt", "csv", "txt.gz", "csv.bz2", "csv.gz", "txt.bz2", "shape")


@st.composite
def cases(draw):
    src = draw(st.sampled_from(SRC))
    big = draw(st.integers(0, 19)) == 19
    return {"src": src, "n": draw(st.one_of(st.just(1), st.integers(1, 8), st.integers(1, 300), gen.rows(1, 8, every=2))), "d": draw(st.one_of(st.just(1), st.integers(1, 6), st.integers(1, 40)) if not big else st.sampled_from([100, 257, 1000])),
            "s": draw(gen.seeds()), "vals": draw(st.sampled_from(["int", "int", "float", "wide", "dec"])), "sdt": draw(st.sampled_from(["float64", "float64", "float32", "int64", "bool", "int8", ">f8", ">f4"])),
            "dt": draw(st.sampled_from(DTYPES)), "dtdef": draw(st.booleans()), "delim": draw(st.sampled_from([",", ";", "\t", " "])), "skip": draw(st.integers(0, 4)),
            "comp": draw(st.integers(0, 9)), "one": draw(st.booleans()), "lay": draw(st.sampled_from(["C", "F", "strided", "reversed", "readonly"])),
            "exists": draw(st.booleans()), "huge": draw(st.booleans()), "crlf": draw(st.booleans()), "nl": draw(st.booleans()), "dtkind": draw(st.sampled_from(["type", "dtype", "str"])), "hdr": draw(st.sampled_from(["words", "numbers", "empty"]))}


def values(case):
    r = np.random.RandomState(case["s"])
    n, d = case["n"], case["d"]
    dt = np.dtype("float64" if case["dtdef"] else case["dt"])
    if case["sdt"] == "bool" and case["src"] in ("array", "npy"):
        return r.randint(0, 2, (n, d)).astype(bool), dt
    if case["vals"] == "int" or dt.kind in "iu" or "int" in case["sdt"]:
        if case.get("huge"):      # all of the range of the type
            t = dt if dt.kind in "iu" else np.dtype("int64")
            top = np.iinfo(t).max // 2
            if case["src"] in ("array", "npy") and case["sdt"] in ("int64", "float64") or case["src"] not in ("array", "npy", "shape"):
                return r.randint(0 if dt.kind == "u" else -top, top, (n, d), dtype=np.int64) if dt != np.float16 else r.randint(-100, 101, (n, d)), dt
        lo = 0 if dt.kind == "u" else -100
        return r.randint(lo, 101, (n, d)), dt
    X = r.randn(n, d)
    if case["vals"] == "wide" and dt != np.float16:
        X = X * 10.0**r.randint(-30, 30, (n, d))
    elif case["vals"] == "dec":
        X = np.round(X, 2)
    return X, dt


def text(X, case):
    intlike = X.dtype.kind in "iu"
    eol = "\r\n" if case["crlf"] else "\n"
    hdr = [{"words": case["delim"].join("name%d" % j for j in range(X.shape[1])), "numbers": case["delim"].join("7.5" for _ in range(X.shape[1] + i % 2)), "empty": ""}[case["hdr"]]
           for i in range(case["skip"])]
    rows = [case["delim"].join(str(int(v)) if intlike else repr(float(v)) for v in row) for row in X]
    s = eol.join(hdr + rows)
    return s + (eol if case["nl"] else "")


def chk(case):
    from hpelm.modules import make_hdf5
    X, dt = values(case)
    src = case["src"]
    kw = {"comp_level": case["comp"]} if case["comp"] else {}
    if not case["dtdef"]:
        kw["dtype"] = {"type": dt.type, "dtype": dt, "str": dt.name}[case["dtkind"]]
    with scratch(case["s"]) as dr:
        out = os.path.join(dr, "out.h5")
        if case["exists"]:
            gen.write_h5(out, np.ones((3, 2)))
        one = case["one"] and case["d"] == 1
        if src in ("array", "npy"):
            if "int" in case["sdt"] or case["sdt"] in ("float32", ">f8", ">f4"):
                X = X.astype(case["sdt"])
            A = layout(X, case["lay"])
            if one:
                A = A[:, 0]
            if src == "npy":
                np.save(os.path.join(dr, "in.npy"), A)
                A = os.path.join(dr, "in.npy")
        elif src == "shape":
            A = (case["n"], case["d"])
            X = np.zeros(A)
        else:
            A = os.path.join(dr, "in." + src)
            s = text(X, case).encode()
            op = gzip.open if A.endswith("gz") else bz2.open if A.endswith("bz2") else open
            with op(A, "wb") as f:
                f.write(s)
            kw["skiprows"] = case["skip"]
            if not (case["delim"] == " " and case["one"]):    # a space is the default
                kw["delimiter"] = case["delim"]
            elif case["skip"] == 0:
                del kw["skiprows"]
        make_hdf5(A, out, **kw)
        Y = gen.read_h5(out)
        require(Y.dtype == dt, "dtype", "%s, expected %s" % (Y.dtype, dt))
        same("contents", Y, X.astype(dt), "from %s" % src)
        import tables
        with tables.open_file(out, "r") as h5:
            node, = [v for v in h5.walk_nodes("/") if not isinstance(v, tables.Group)]
            require(len(node.shape) == 2, "dimensions", str(node.shape))
            if case["comp"]:
                require(node.filters.complevel > 0 or node.nrows == 0, "compression", "not compressed")
            require(getattr(node.attrs, "mean", None) is None and getattr(node.attrs, "std", None) is None, "attributes", "marked as normalised")
        # can be used as model data
        if dt != np.float16 and case["vals"] != "wide":
            m = gen.new_model("HPELM", case["d"], 1, "d", [(1, "lin", np.ones((case["d"], 1)), np.zeros(1))], batch=1 + case["s"] % 7)
            H = asarray(m.project(out), "project", (len(X), 1))
            close("usable", H[:, 0], X.astype(dt).astype(np.float64).sum(1), 1e-12 * case["d"], scale=1 + np.abs(X.astype(dt).astype(float)).sum(1))
    return {"tags": [src, str(dt)]}


BAD = ("3d", "ext", "comp10", "none", "tuple3", "list", "missing", "missing-gz")


@st.composite
def bcases(draw):
    return {"bad": draw(st.sampled_from(BAD)), "n": draw(st.integers(1, 5)), "d": draw(st.integers(1, 5)), "s": draw(gen.seeds())}


def bchk(case):
    from hpelm.modules import make_hdf5
    n, d = case["n"], case["d"]
    X = gen.make_X(case["s"], n, d)
    with scratch() as dr:
        out = os.path.join(dr, "out.h5")
        p = lambda q: os.path.join(dr, q)
        open(p("x.dat"), "w").write("1 2\n")
        calls = {"3d": lambda: make_hdf5(X[:, :, None], out), "ext": lambda: make_hdf5(p("x.dat"), out), "comp10": lambda: make_hdf5(X, out, comp_level=10 + case["s"] % 5),
                 "none": lambda: make_hdf5(None, out), "tuple3": lambda: make_hdf5((n, d, 2), out), "list": lambda: make_hdf5(X.tolist(), out),
                 "missing": lambda: make_hdf5(p("none.txt"), out), "missing-gz": lambda: make_hdf5(p("none.txt.gz"), out)}
        refused("refused", calls[case["bad"]], case["bad"])
        make_hdf5(X, out)      # and the name is still usable
        same("after-refusal", gen.read_h5(out), X)
    return {"tags": [case["bad"]]}


def big(i, src, n, d, **kw):
    return dict({"src": src, "n": n, "d": d, "s": i, "vals": "float", "sdt": "float64", "dt": "float64", "dtdef": True, "delim": ",", "skip": i % 2, "comp": 0,
                 "one": False, "lay": "C", "exists": False, "crlf": False, "nl": True, "dtkind": "type", "hdr": "words"}, **kw)


FIXED = [big(0, "array", 70001, 3), big(1, "npy", 140000, 2, comp=3), big(2, "csv", 70001, 2), big(3, "txt.gz", 66000, 1, one=True), big(4, "shape", 70001, 2),
         big(5, "array", 33000, 70, dtdef=False, dt="float32"), big(6, "txt", 5000, 40), big(7, "npy", 10, 70001), big(8, "csv.bz2", 10001, 9, vals="int"),
         big(9, "array", 300000, 1, one=True), big(10, "array", 20000, 5, lay="F"), big(11, "npy", 4097, 17, lay="F", sdt="float32")]
FIXED += [big(20 + 3 * i + j, src, n, 2, vals=("float", "int")[i % 2]) for i, n in enumerate((64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2001, 2047, 2048, 2049,
                                                                                             4095, 4096, 4097, 5000, 5001, 8192, 8193, 9999, 10000, 10001, 16385, 20001, 32769)) for j, src in enumerate(("csv", "txt") + (("txt.gz", "array") if i % 3 == 0 else ()))]

SUBS = [
    Sub("convert", cases, chk, lambda c: c["src"] != "array" or not c["dtdef"] or c["d"] == 1 or c["comp"] > 0, "anything but an uncompressed double array",
        quick=9000, thorough=100000, shards=6, fixed=FIXED),
    Sub("refuse", bcases, bchk, lambda c: True, "every case", quick=600, thorough=2000),
]
