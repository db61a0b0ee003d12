"""C10: the confusion matrix counts every sample in its cell."""
import os
import numpy as np
from core import Sub, Violation, asarray, close, require, scratch
import gen
import ref
import c09
from gen import st


def cases():
    return c09.cases().filter(lambda c: c["mode"] != "r")


def chk(case):
    T, Y = c09.data(case)
    if case["mode"] == "wa" and not np.all(T.sum(0) > 0):
        return {"nt": False}
    m, w = c09.model(case, T)
    mode = {"wa": "wc"}.get(case["mode"], case["mode"])
    n, c = T.shape
    with scratch(case["s"]) as dr:
        t, y = gen.laid(T, case["s"]), gen.laid(Y, case["s"] // 7)
        if case["src"] == "file":   # also the in-memory model reads files here
            t = gen.write_h5(os.path.join(dr, "t.h5"), T, case["sty"])
            y = gen.write_h5(os.path.join(dr, "y.h5"), Y, case["sty"])
        C = asarray(m.confusion(t, y), "confusion", (c, c)).copy()
        C2 = asarray(m.confusion(t, y), "confusion", (c, c))
    close("confusion", C, ref.confusion(mode, T, Y), 0, note=str(C.tolist()))
    close("repeat", C2, C, 0)
    if mode in ("c", "wc"):
        require(C.sum() == n, "total", "entries sum to %s, not %d" % (C.sum(), n))
    if mode == "c":
        close("error", float(m.error(T, Y)), 1 - np.trace(C) / n, 1e-11)
    return {"tags": ["mode-" + case["mode"], case["cls"], "src-" + case["src"], "batches" if case["batch"] < n else "one-batch"]}


SUBS = [Sub("confusion", cases, chk, lambda c: c["n"] >= 3 and c["batch"] < c["n"], "at least three rows in more than one batch",
            quick=4800, thorough=60000, shards=4, fixed=[f for f in c09.FIXED if f["mode"] != "r"])]
