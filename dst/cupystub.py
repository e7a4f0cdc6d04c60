"""A simulated GPU: cupy and cupyx.scipy.sparse, computed by numpy and scipy.

It keeps the documented differences between CuPy and NumPy that decide what
callers see: device arrays are a type of their own, host arrays are taken in
by array() and asarray() only and refused everywhere else, nothing is brought
back to the host implicitly (get() and asnumpy() do), and indexing, iterating
and reducing give 0-dimensional device arrays, which are changed in place by
in-place operators, instead of scalars."""
import operator
import sys
import types

import numpy as np
from scipy import sparse as sp


def _in(x):
    """What a device function computes with; refuses host arrays."""
    if isinstance(x, ndarray):
        return x._a
    if isinstance(x, np.ndarray):
        raise TypeError(f"Unsupported type {type(x)}")
    if isinstance(x, list):
        return [_in(y) for y in x]
    if isinstance(x, tuple):
        return tuple(_in(y) for y in x)
    return x


def _out(x):
    if isinstance(x, (np.ndarray, np.generic)):
        return ndarray._of(np.asarray(x))
    if isinstance(x, tuple):
        return tuple(_out(y) for y in x)
    if isinstance(x, list):
        return [_out(y) for y in x]
    return x


def _device(f):
    def function(*a, **k):
        return _out(f(*_in(a), **{n: _in(v) for n, v in k.items()}))
    function.__name__ = getattr(f, "__name__", "function")
    return function


class ndarray:
    __array_priority__ = 100

    def __init__(self, shape, dtype=float, *a, **k):
        self._a = np.zeros(shape, dtype)

    @classmethod
    def _of(cls, a):
        x = cls.__new__(cls)
        x._a = a
        return x

    def get(self, *a, **k):
        return np.array(self._a)

    def __array__(self, *a, **k):
        raise TypeError("Implicit conversion to a NumPy array is not allowed. Please use `.get()` to construct a "
                        "NumPy array explicitly.")

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return _device(getattr(ufunc, method))(*inputs, **kwargs)

    def __array_function__(self, func, kinds, args, kwargs):
        return _device(func)(*args, **kwargs)

    shape = property(lambda self: self._a.shape)
    dtype = property(lambda self: self._a.dtype)
    ndim = property(lambda self: self._a.ndim)
    size = property(lambda self: self._a.size)
    nbytes = property(lambda self: self._a.nbytes)
    itemsize = property(lambda self: self._a.itemsize)
    T = property(lambda self: self._of(self._a.T))
    real = property(lambda self: self._of(self._a.real))
    imag = property(lambda self: self._of(self._a.imag))
    flat = property(lambda self: self._of(self._a.reshape(-1)))

    def __getitem__(self, i):
        i = _in(i)
        r = self._a[i]
        if not isinstance(r, np.ndarray):          # a view of one element, not a scalar
            r = self._a[i + (...,) if isinstance(i, tuple) else (i, ...)]
        return self._of(r)

    def __setitem__(self, i, v):
        self._a[_in(i)] = _in(v)

    def __iter__(self):
        if self._a.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        return (self[i] for i in range(len(self._a)))

    def __len__(self):
        return len(self._a)

    def __bool__(self):
        return bool(self._a)

    def __int__(self):
        return int(self._a)

    def __index__(self):
        return operator.index(self._a)

    def __float__(self):
        return float(self._a)

    def __complex__(self):
        return complex(self._a)

    def __format__(self, spec):
        return format(self._a.item() if self._a.ndim == 0 else self._a, spec)

    def __str__(self):
        return str(self._a)

    def __repr__(self):
        return repr(self._a)

    def item(self, *a):
        return self._a.item(*a)

    def tolist(self):
        return self._a.tolist()

    def __copy__(self):
        return self._of(self._a.copy())

    def __deepcopy__(self, memo):
        return self._of(self._a.copy())

    def __reduce__(self):
        return _restore, (self._a,)


def _restore(a):
    return ndarray._of(a)


def _method(name):
    def method(self, *a, **k):
        return _out(getattr(self._a, name)(*_in(a), **{n: _in(v) for n, v in k.items()}))
    method.__name__ = name
    return method


def _operator(name):
    def method(self, other):
        if isinstance(other, np.ndarray):
            raise TypeError(f"Unsupported type {type(other)}")
        if isinstance(other, spmatrix):
            return NotImplemented
        r = getattr(self._a, name)(_in(other))
        return r if r is NotImplemented else _out(r)
    method.__name__ = name
    return method


def _inplace(name, plain):
    def method(self, other):
        if isinstance(other, np.ndarray):
            raise TypeError(f"Unsupported type {type(other)}")
        plain(self._a, _in(other), out=self._a)
        return self
    method.__name__ = name
    return method


for _n in ("dot transpose conj conjugate reshape ravel flatten astype copy sum prod mean min max any all nonzero argmax argmin "
           "round swapaxes squeeze trace diagonal take fill clip cumsum cumprod repeat sort argsort std var put __abs__ __neg__ "
           "__pos__ __invert__").split():
    setattr(ndarray, _n, _method(_n))
for _n in "add sub mul truediv floordiv mod pow matmul and or xor lshift rshift".split():
    setattr(ndarray, f"__{_n}__", _operator(f"__{_n}__"))
    setattr(ndarray, f"__r{_n}__", _operator(f"__r{_n}__"))
for _n in "eq ne lt le gt ge".split():
    setattr(ndarray, f"__{_n}__", _operator(f"__{_n}__"))
ndarray.__hash__ = None
for _n, _f in (("add", np.add), ("sub", np.subtract), ("mul", np.multiply), ("truediv", np.true_divide),
               ("floordiv", np.floor_divide), ("mod", np.remainder), ("pow", np.power)):
    setattr(ndarray, f"__i{_n}__", _inplace(f"__i{_n}__", _f))
ndarray.__module__ = "cupy"


def _host(a):
    """array() and asarray() take host data as well."""
    if isinstance(a, ndarray):
        return a._a
    if isinstance(a, (list, tuple)):
        return type(a)(_host(x) for x in a)
    return a


def array(obj, dtype=None, copy=True, order="K", subok=False, ndmin=0):
    return ndarray._of(np.array(_host(obj), dtype=dtype, ndmin=ndmin))


def asarray(a, dtype=None, order=None):
    if isinstance(a, ndarray) and dtype is None:
        return a
    return ndarray._of(np.array(_host(a), dtype=dtype))


# ---------------------------------------------------------------- sparse
class spmatrix:
    __array_priority__ = 101
    format = None

    def __init__(self, arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, spmatrix):
            m = arg._m
        elif isinstance(arg, ndarray):
            if arg.ndim > 2:
                raise ValueError("Only two-dimensional arrays are supported.")
            m = sp.csr_matrix(arg._a)
        elif sp.issparse(arg):
            m = arg
        elif isinstance(arg, tuple):
            m = sp.csr_matrix(_in(arg), shape=shape)
        else:
            raise ValueError("Unsupported initializer format")
        m = m.asformat(self.format or "csr")
        if dtype is not None:
            m = m.astype(dtype)
        if m.dtype.char not in "?fdFD":
            raise ValueError("Only bool, float32, float64, complex64 and complex128 are supported")
        self._m = sp.csr_matrix(m) if self.format is None else m.copy()

    @staticmethod
    def _of(m):
        cls = {"csr": csr_matrix, "csc": csc_matrix, "coo": coo_matrix, "dia": dia_matrix}.get(m.format)
        if cls is None:
            m, cls = m.tocsr(), csr_matrix
        x = cls.__new__(cls)
        x._m = m
        return x

    shape = property(lambda self: self._m.shape)
    dtype = property(lambda self: self._m.dtype)
    nnz = property(lambda self: self._m.nnz)
    ndim = 2
    T = property(lambda self: self._of(self._m.T))
    H = property(lambda self: self._of(self._m.T.conj()))
    data = property(lambda self: ndarray._of(self._m.data))
    indices = property(lambda self: ndarray._of(self._m.indices))
    indptr = property(lambda self: ndarray._of(self._m.indptr))

    def get(self, stream=None):
        return self._m.copy()

    def __array__(self, *a, **k):
        raise TypeError("Implicit conversion to a NumPy array is not allowed.")

    __array_ufunc__ = None

    def __len__(self):
        raise TypeError("sparse matrix length is ambiguous; use getnnz() or shape[0]")

    def toarray(self, order=None, out=None):
        return ndarray._of(self._m.toarray())

    def todense(self, order=None, out=None):
        return ndarray._of(self._m.toarray())

    def nonzero(self):
        return tuple(ndarray._of(x) for x in self._m.nonzero())

    def _times(self, other, right=False):
        if isinstance(other, spmatrix):
            r = other._m @ self._m if right else self._m @ other._m
        elif isinstance(other, ndarray):
            r = other._a @ self._m if right else self._m @ other._a
        elif np.isscalar(other):
            r = self._m * other
        else:
            return NotImplemented
        return self._of(r.asformat("csr") if sp.issparse(r) and r.format not in ("csr", "csc") else r) if sp.issparse(r) else _out(r)

    def dot(self, other):
        r = self._times(other)
        if r is NotImplemented:
            raise TypeError(f"Unsupported type {type(other)}")
        return r

    def __mul__(self, other):
        return self._times(other)

    def __rmul__(self, other):
        return self._times(other, True)

    __matmul__, __rmatmul__ = __mul__, __rmul__

    def __add__(self, other):
        return self._of(sp.csr_matrix(self._m + other._m)) if isinstance(other, spmatrix) else NotImplemented

    def __sub__(self, other):
        return self._of(sp.csr_matrix(self._m - other._m)) if isinstance(other, spmatrix) else NotImplemented

    def __neg__(self):
        return self._of(-self._m)

    def __truediv__(self, x):
        return self._of(self._m / x)

    def __abs__(self):
        return self._of(abs(self._m))

    def __getitem__(self, i):
        r = self._m.tocsr()[_in(i)]
        return self._of(r) if sp.issparse(r) else _out(r)

    def __reduce__(self):
        return spmatrix._of, (self._m,)


def _sparse_method(name):
    def method(self, *a, **k):
        r = getattr(self._m, name)(*_in(a), **k)
        return self._of(r) if sp.issparse(r) else _out(np.asarray(r) if isinstance(r, np.matrix) else r)
    method.__name__ = name
    return method


for _n in ("transpose conj conjugate astype copy tocsr tocsc tocoo todia asformat getnnz sum multiply power diagonal reshape "
           "getH eliminate_zeros sum_duplicates sort_indices max min mean").split():
    setattr(spmatrix, _n, _sparse_method(_n))


def _kind(f):
    return type(f + "_matrix", (spmatrix,), {"format": f, "__module__": "cupyx.scipy.sparse._" + f})


csr_matrix, csc_matrix, coo_matrix, dia_matrix = map(_kind, ("csr", "csc", "coo", "dia"))


def _spin(x):
    if isinstance(x, spmatrix):
        return x._m
    if isinstance(x, (list, tuple)):
        return type(x)(map(_spin, x))
    return _in(x)


def _sparse_function(f):
    def function(*a, **k):
        r = f(*map(_spin, a), **k)
        return spmatrix._of(r) if sp.issparse(r) else _out(r)
    return function


def kron(A, B, format=None):
    def one(x):
        return x if isinstance(x, spmatrix) else coo_matrix(x)
    return spmatrix._of(sp.kron(one(A)._m, one(B)._m, "coo").asformat(format or "coo"))


def eye(m, n=None, k=0, dtype="d", format=None):
    return spmatrix._of(sp.eye(m, n, k, dtype=np.dtype(dtype), format=format))


def install():
    if "cupy" in sys.modules and getattr(sys.modules["cupy"], "_dst", False):
        return
    cp = types.ModuleType("cupy")
    cp._dst = True
    for k in dir(np):
        if k.startswith("_"):
            continue
        try:
            v = getattr(np, k)
        except Exception:
            continue
        if isinstance(v, type) or not callable(v):
            setattr(cp, k, v)
        else:
            setattr(cp, k, _device(v))
    cp.ndarray, cp.array, cp.asarray = ndarray, array, asarray
    cp.ascontiguousarray = cp.asanyarray = asarray
    cp.asnumpy = lambda a, *x, **k: a.get() if isinstance(a, (ndarray, spmatrix)) else np.asarray(a)
    cp.get_array_module = lambda *a: cp if any(isinstance(x, (ndarray, spmatrix)) for x in a) else np
    cp.linalg = types.ModuleType("cupy.linalg")
    for k in dir(np.linalg):
        if callable(getattr(np.linalg, k)) and not isinstance(getattr(np.linalg, k), type):
            setattr(cp.linalg, k, _device(getattr(np.linalg, k)))
    cp.random = np.random
    cx = types.ModuleType("cupyx")
    cxs = types.ModuleType("cupyx.scipy")
    css = types.ModuleType("cupyx.scipy.sparse")
    css.spmatrix = spmatrix
    css.csr_matrix, css.csc_matrix, css.coo_matrix, css.dia_matrix = csr_matrix, csc_matrix, coo_matrix, dia_matrix
    css.kron, css.eye = kron, eye
    css.identity = lambda n, dtype="d", format=None: eye(n, n, dtype=dtype, format=format)
    css.issparse = css.isspmatrix = lambda x: isinstance(x, spmatrix)
    css.isspmatrix_csr = lambda x: isinstance(x, csr_matrix)
    for k in ("vstack", "hstack", "bmat", "diags", "spdiags", "tril", "triu"):
        setattr(css, k, _sparse_function(getattr(sp, k)))
    cx.scipy = cxs
    cxs.sparse = css
    cxs.get_array_module = cp.get_array_module
    sys.modules.update({"cupy": cp, "cupyx": cx, "cupyx.scipy": cxs, "cupyx.scipy.sparse": css, "cupy.linalg": cp.linalg})
