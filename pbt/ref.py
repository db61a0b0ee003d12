"""Reference definitions written out as plain loops."""
import numpy as np


def _argmax(row):
    best, j = None, 0
    for i, v in enumerate(row):
        if best is None or v > best:
            best, j = v, i
    return j


def error(mode, T, Y, wc=None):
    T = np.asarray(T, dtype=np.float64)
    Y = np.asarray(Y, dtype=np.float64)
    n, c = T.shape
    if mode in (None, "r"):
        s = 0.0
        for i in range(n):
            for j in range(c):
                s += (T[i, j] - Y[i, j])**2
        return s / (n * c)
    if mode == "c":
        return sum(1 for i in range(n) if _argmax(T[i]) != _argmax(Y[i])) / float(n)
    if mode == "ml":
        return sum(1 for i in range(n) for j in range(c) if (T[i, j] > 0.5) != (Y[i, j] > 0.5)) / float(n * c)
    if mode == "wc":
        wc = np.asarray(wc, dtype=np.float64)
        num = 0.0
        for k in range(c):
            rows = [i for i in range(n) if _argmax(T[i]) == k]
            if rows:
                num += wc[k] * sum(1 for i in rows if _argmax(Y[i]) != k) / float(len(rows))
        return num / wc.sum()
    raise ValueError(mode)


def confusion(mode, T, Y):
    T = np.asarray(T, dtype=np.float64)
    Y = np.asarray(Y, dtype=np.float64)
    n, c = T.shape
    C = np.zeros((c, c))
    for i in range(n):
        if mode in ("c", "wc"):
            C[_argmax(T[i]), _argmax(Y[i])] += 1
        else:
            for a in range(c):
                for b in range(c):
                    if T[i, a] > 0.5 and Y[i, b] > 0.5:
                        C[a, b] += 1
    return C
