"""Numpy stand-in for pycuda and scikit-cuda: documented semantics (explicit memory order and type rules, column-major BLAS that
updates one triangle, kernels over linear memory).  Anything not covered raises Unsupported, which makes a case inconclusive."""
import re
import sys
import types

import numpy as np


class Unsupported(BaseException):
    pass


class Memory(object):
    """Linear device memory."""

    def __init__(self, nbytes):
        self.bytes = np.full(int(nbytes), 0x7f, dtype=np.uint8)   # garbage, not zeros


class Pointer(object):
    def __init__(self, mem, offset):
        self.mem, self.offset = mem, offset

    def view(self, dtype, count):
        nb = int(count) * np.dtype(dtype).itemsize
        if self.offset + nb > len(self.mem.bytes):
            raise RuntimeError("device memory access out of range")
        return self.mem.bytes[self.offset:self.offset + nb].view(dtype)


class GPUArray(object):
    __array_ufunc__ = None

    def __init__(self, shape, dtype, order="C", _a=None, _mem=None):
        if _a is None:
            shape = tuple(int(s) for s in (shape if hasattr(shape, "__len__") else (shape,)))
            dtype = np.dtype(dtype)
            n = int(np.prod(shape))
            _mem = Memory(n * dtype.itemsize)
            _a = _mem.bytes.view(dtype).reshape(shape, order=order)
        self._a, self._mem = _a, _mem

    shape = property(lambda s: s._a.shape)
    dtype = property(lambda s: s._a.dtype)
    size = property(lambda s: s._a.size)
    ndim = property(lambda s: s._a.ndim)
    nbytes = property(lambda s: s._a.nbytes)
    strides = property(lambda s: s._a.strides)
    flags = property(lambda s: s._a.flags)
    T = property(lambda s: GPUArray(None, None, _a=s._a.T, _mem=s._mem))
    _block = property(lambda s: (32, 1, 1))
    _grid = property(lambda s: (max(1, -(-s._a.size // 32)), 1))

    @property
    def ptr(self):
        off = self._a.__array_interface__["data"][0] - self._mem.bytes.__array_interface__["data"][0] if self._a.size else 0
        return Pointer(self._mem, off)

    gpudata = ptr

    def get(self, *a, **k):
        if a or k:
            raise Unsupported("get with arguments")
        return self._a.copy(order="K")

    def set(self, ary, **k):
        if ary.shape != self.shape or ary.dtype != self.dtype:
            raise ValueError("ary and self must be the same size and dtype")
        self._a[...] = ary

    def copy(self):
        return to_gpu(self._a)

    def __array__(self, *a, **k):
        raise TypeError("GPUArray cannot be converted implicitly, use get()")

    def __len__(self):
        return len(self._a)

    def fill(self, v):
        self._a.fill(v)
        return self

    def reshape(self, *s, **k):
        if not self._a.flags.forc:
            raise RuntimeError("only contiguous arrays may be reshaped")
        return GPUArray(None, None, _a=self._a.reshape(*s), _mem=self._mem)

    def ravel(self):
        return self.reshape(self.size)

    def transpose(self, *a):
        return GPUArray(None, None, _a=self._a.transpose(*a), _mem=self._mem)

    def astype(self, dt):
        return to_gpu(self._a.astype(dt))

    def __getitem__(self, i):
        return GPUArray(None, None, _a=self._a[i], _mem=self._mem)

    def __setitem__(self, i, v):
        dst = self._a[i]
        if isinstance(v, GPUArray):
            v = v._a
        if isinstance(v, np.ndarray) and v.ndim:
            if v.dtype != dst.dtype:
                raise ValueError("dtype mismatch in assignment")
            if v.shape != dst.shape:
                raise ValueError("cannot assign shape %s to %s" % (v.shape, dst.shape))
        dst[...] = v

    def _op(self, o, f, inplace=False):
        if isinstance(o, GPUArray):
            if o.shape != self.shape:
                raise ValueError("shapes differ")
            v = f(self._a, o._a)
        elif np.isscalar(o) or (isinstance(o, np.ndarray) and o.ndim == 0):
            v = f(self._a, np.asarray(o, dtype=self.dtype))
        else:
            raise TypeError("unsupported operand %s" % type(o))
        if inplace:
            self._a[...] = v
            return self
        return to_gpu(v.astype(self.dtype))

    def __add__(self, o): return self._op(o, np.add)
    def __radd__(self, o): return self._op(o, np.add)
    def __sub__(self, o): return self._op(o, np.subtract)
    def __mul__(self, o): return self._op(o, np.multiply)
    def __rmul__(self, o): return self._op(o, np.multiply)
    def __truediv__(self, o): return self._op(o, np.divide)
    def __neg__(self): return self._op(-1, np.multiply)
    def __iadd__(self, o): return self._op(o, np.add, True)
    def __isub__(self, o): return self._op(o, np.subtract, True)
    def __imul__(self, o): return self._op(o, np.multiply, True)
    def __itruediv__(self, o): return self._op(o, np.divide, True)


def to_gpu(ary, *a, **k):
    if isinstance(ary, GPUArray):
        ary = ary._a
    if not isinstance(ary, np.ndarray):
        raise TypeError("to_gpu needs a numpy array, not %s" % type(ary))
    order = "F" if ary.flags.f_contiguous and not ary.flags.c_contiguous else "C"
    out = GPUArray(ary.shape, ary.dtype, order=order)
    out._a[...] = ary
    return out


def _order(*arrs):
    o = set(bool(a.flags.c_contiguous) for a in arrs)
    if len(o) > 1:
        raise ValueError("unsupported combination of input order")
    for a in arrs:
        if not a.flags.forc:
            raise ValueError("array is not contiguous")


def _types(*arrs):
    for a in arrs:
        if not isinstance(a, GPUArray):
            raise TypeError("expected a GPUArray, got %s" % type(a))
    if len(set(a.dtype for a in arrs)) > 1:
        raise TypeError("arrays of different types")


def _tr(a, t):
    t = t.lower()
    if t not in "ntc":
        raise ValueError("transposition %r" % t)
    return a if t == "n" else a.T


def add_dot(a, b, c, transa="N", transb="N", alpha=1.0, beta=1.0, handle=None):
    _types(a, b, c)
    _order(a, b, c)
    A, B = _tr(a._a, transa), _tr(b._a, transb)
    if A.shape[1] != B.shape[0] or c.shape != (A.shape[0], B.shape[1]):
        raise ValueError("objects are not aligned")
    # both precisions are computed as such
    c._a[...] = (np.dot(A, B) * c.dtype.type(alpha) + c.dtype.type(beta) * (c._a if beta else 0)).astype(c.dtype)
    return c


def dot(a, b, transa="N", transb="N", handle=None, out=None):
    _types(a, b)
    _order(a, b)
    if a.ndim != 2 or b.ndim != 2:
        raise Unsupported("dot of vectors")
    A, B = _tr(a._a, transa), _tr(b._a, transb)
    if A.shape[1] != B.shape[0]:
        raise ValueError("objects are not aligned")
    if out is None:
        out = GPUArray((A.shape[0], B.shape[1]), a.dtype, order="C" if a.flags.c_contiguous else "F")
    return add_dot(a, b, out, transa, transb, 1.0, 0.0)


def eye(n, dtype=np.float32, handle=None):
    return to_gpu(np.eye(int(n), dtype=dtype))


def _matvec(f):
    def op(x, a, axis=None, out=None, stream=None):
        _types(x, a)
        n, m = x.shape
        if a.ndim == 1:
            k = a.shape[0]
            if axis is None:
                axis = 0 if k == n else 1
        elif a.ndim == 2 and 1 in a.shape:
            k = a.size
            ax = 0 if a.shape[1] == 1 and a.shape[0] != 1 else 1 if a.shape[0] == 1 and a.shape[1] != 1 else axis
            if axis is None:
                axis = ax if ax is not None else 0
            if ax is not None and ax != axis:
                raise ValueError("vector does not fit the axis")
        else:
            raise ValueError("invalid shape of the vector")
        if k != (n, m)[axis]:
            raise ValueError("vector dimension must match matrix")
        v = a._a.reshape((n, 1) if axis == 0 else (1, m))
        if out is None:
            out = GPUArray(x.shape, x.dtype, order="C" if x.flags.c_contiguous else "F")
        out._a[...] = f(x._a, v)
        return out
    return op


def _cu(f):
    def op(x, out=None, stream=None):
        if out is None:
            out = GPUArray(x.shape, x.dtype, order="C" if x.flags.c_contiguous else "F")
        out._a[...] = f(x._a)
        return out
    return op


def _syrk(dt):
    def syrk(handle, uplo, trans, n, k, alpha, A, lda, beta, C, ldc):
        if not (isinstance(A, Pointer) and isinstance(C, Pointer)):
            raise TypeError("expected device pointers")
        up, tr = uplo in ("U", "u", 1), trans in ("T", "t", "C", "c", 1, 2)
        rows, cols = (k, n) if tr else (n, k)
        if lda < max(1, rows) or ldc < max(1, n):
            raise ValueError("invalid leading dimension")
        Am = A.view(dt, lda * cols).reshape(cols, lda).T[:rows] if cols else np.zeros((rows, 0), dt)   # column-major
        Cm = C.view(dt, ldc * n).reshape(n, ldc).T[:n]
        R = (dt(alpha) * (Am.T.dot(Am) if tr else Am.dot(Am.T)) + (dt(beta) * Cm if beta else 0)).astype(dt)
        tri = np.triu_indices(n) if up else np.tril_indices(n)
        Cm[tri] = R[tri]
    return syrk


class Function(object):
    """A kernel with one pointer argument that assigns to its own element."""

    def __init__(self, src, name):
        m = re.search(r"void\s+%s\s*\(\s*(double|float)\s*\*\s*(\w+)\s*\)\s*\{(.*?)\}\s*$" % name, src.strip(), re.S)
        if not m:
            raise Unsupported("kernel signature")
        self.dtype = {"double": np.float64, "float": np.float32}[m.group(1)]
        arg, body = m.group(2), m.group(3)
        st = [re.sub(r"\s+", " ", s).strip() for s in re.sub(r"//[^\n]*|/\*.*?\*/", "", body, flags=re.S).split(";") if s.strip()]
        if len(st) != 2:
            raise Unsupported("kernel body")
        i = re.match(r"^(?:const )?(?:unsigned|int|unsigned int|size_t|long) (\w+) = (.*)$", st[0])
        if not i or re.sub(r"\s", "", i.group(2)) not in ("blockDim.x*blockIdx.x+threadIdx.x", "blockIdx.x*blockDim.x+threadIdx.x", "threadIdx.x+blockIdx.x*blockDim.x",
                                                          "threadIdx.x+blockDim.x*blockIdx.x"):
            raise Unsupported("kernel index")
        el = r"%s\s*\[\s*%s\s*\]" % (arg, i.group(1))
        a = re.match(r"^%s\s*=(.*)$" % el, st[1])
        if not a:
            raise Unsupported("kernel assignment")
        expr = re.sub(el, " x ", a.group(1))
        if not re.match(r"^[\sx0-9.+\-*/()a-z]*$", re.sub(r"\b(expf?|tanhf?)\b", "", expr)):
            raise Unsupported("kernel expression")
        self.code = compile(expr.strip(), "kernel", "eval")
        self.prepared = None

    def prepare(self, types):
        if types != "P":
            raise Unsupported("kernel arguments")
        self.prepared = types
        return self

    def prepared_call(self, grid, block, ptr):
        if self.prepared is None:
            raise RuntimeError("function is not prepared")
        if isinstance(ptr, GPUArray):
            ptr = ptr.gpudata
        if not isinstance(ptr, Pointer):
            raise TypeError("expected a device pointer")
        n = int(np.prod(grid)) * int(np.prod(block))
        item = np.dtype(self.dtype).itemsize
        n = min(n, (len(ptr.mem.bytes) - ptr.offset) // item)    # threads beyond the allocation touch its padding
        x = ptr.view(self.dtype, n)
        x[...] = eval(self.code, {"exp": np.exp, "expf": np.exp, "tanh": np.tanh, "tanhf": np.tanh, "x": x})

    def __call__(self, *a, **k):
        raise Unsupported("unprepared call")


class SourceModule(object):
    def __init__(self, src, *a, **k):
        self.src = src

    def get_function(self, name):
        return Function(self.src, name)


def module(name, **names):
    m = types.ModuleType(name)
    m.__path__ = []
    m.__dict__.update(names)

    def missing(attr):
        if attr.startswith("__"):
            raise AttributeError(attr)
        raise Unsupported("%s.%s" % (name, attr))
    m.__getattr__ = missing
    sys.modules[name] = m
    return m


def install():
    if "pycuda" in sys.modules:
        return
    g = module("pycuda.gpuarray", GPUArray=GPUArray, to_gpu=to_gpu, empty=lambda shape, dtype=np.float64, order="C", **k: GPUArray(shape, dtype, order),
               zeros=lambda shape, dtype=np.float64, order="C", **k: GPUArray(shape, dtype, order).fill(0),
               empty_like=lambda a, **k: GPUArray(a.shape, a.dtype), zeros_like=lambda a, **k: GPUArray(a.shape, a.dtype).fill(0))
    cm = module("pycuda.cumath", tanh=_cu(np.tanh), exp=_cu(np.exp))
    comp = module("pycuda.compiler", SourceModule=SourceModule)
    auto = module("pycuda.autoinit")
    module("pycuda", gpuarray=g, cumath=cm, compiler=comp, autoinit=auto)
    lin = module("skcuda.linalg", init=lambda *a, **k: None, dot=dot, add_dot=add_dot, eye=eye)
    mis = module("skcuda.misc", zeros=lambda shape, dtype=np.float64, order="C", **k: GPUArray(shape, dtype, order).fill(0),
                 ones=lambda shape, dtype=np.float64, order="C", **k: GPUArray(shape, dtype, order).fill(1),
                 zeros_like=lambda a: GPUArray(a.shape, a.dtype).fill(0), init=lambda *a, **k: None,
                 add_matvec=_matvec(np.add), mult_matvec=_matvec(np.multiply), div_matvec=_matvec(np.divide))
    cub = module("skcuda.cublas", cublasCreate=lambda: 1, cublasDestroy=lambda h: None, cublasSsyrk=_syrk(np.float32), cublasDsyrk=_syrk(np.float64))
    module("skcuda", linalg=lin, misc=mis, cublas=cub)
