"""Further numpy functions, expressed by the ones of npshim."""
import numpy as np

from . import npshim as ns
from . import scalar as sc
from .npshim import SHIM, asarray, has_sym, shimfn
from .scalar import S, Unsupported


@shimfn
def putmask(a, mask, values):
    v = asarray(values).reshape(-1)
    m = SHIM.broadcast_to(asarray(mask), a.shape)
    for k, i in enumerate(np.ndindex(*a.shape)):
        if bool(m[i]):
            a[i] = v[k % v.size]


@shimfn
def place(arr, mask, vals):
    v = asarray(vals).reshape(-1)
    m = SHIM.broadcast_to(asarray(mask), arr.shape)
    k = 0
    for i in np.ndindex(*arr.shape):
        if bool(m[i]):
            arr[i] = v[k % v.size]
            k += 1


@shimfn
def cumulative_sum(x, axis=None, dtype=None, out=None, include_initial=False):
    if include_initial or out is not None:
        raise Unsupported("cumulative_sum with these arguments")
    return SHIM.cumsum(x, axis=axis)


@shimfn
def cumulative_prod(x, axis=None, dtype=None, out=None,
                    include_initial=False):
    if include_initial or out is not None:
        raise Unsupported("cumulative_prod with these arguments")
    return SHIM.cumprod(x, axis=axis)


@shimfn
def iterable(y):
    if isinstance(y, S):
        return False
    try:
        iter(y)
    except TypeError:
        return False
    return True


@shimfn
def isreal(x):
    return SHIM.imag(asarray(x)) == 0


@shimfn
def iscomplex(x):
    return SHIM.imag(asarray(x)) != 0


@shimfn(names=["isposinf", "isneginf"])
def isposinf(x):
    return SHIM.isinf(x)


@shimfn
def real_if_close(a, tol=100):
    a = asarray(a)
    if not SHIM.iscomplexobj(a):
        return a
    raise Unsupported("real_if_close of complex numbers")


@shimfn
def require(a, dtype=None, requirements=None, **k):
    return asarray(a, dtype=dtype)


@shimfn
def diag_indices_from(arr):
    return np.diag_indices(arr.shape[0], arr.ndim)


@shimfn
def tril_indices_from(arr, k=0):
    return np.tril_indices(arr.shape[-2], k=k, m=arr.shape[-1])


@shimfn
def triu_indices_from(arr, k=0):
    return np.triu_indices(arr.shape[-2], k=k, m=arr.shape[-1])


@shimfn
def matvec(a, x, **k):
    return SHIM.einsum("...ij,...j->...i", asarray(a), asarray(x))


@shimfn
def vecmat(x, a, **k):
    return SHIM.einsum("...i,...ij->...j", SHIM.conj(asarray(x)), asarray(a))


@shimfn
def vecdot(a, b, axis=-1, **k):
    return SHIM.sum(SHIM.conj(asarray(a)) * asarray(b), axis=axis)


def cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    if k:
        raise Unsupported("cov with these arguments")
    m = SHIM.atleast_2d(asarray(m))
    if not rowvar and m.shape[0] != 1:
        m = m.T
    if y is not None:
        m = SHIM.concatenate([m, SHIM.atleast_2d(asarray(y))], axis=0)
    d = m - SHIM.mean(m, axis=1, keepdims=True)
    if ddof is None:
        ddof = 0 if bias else 1
    return SHIM.squeeze(SHIM.dot(d, SHIM.conj(d.T)) / (m.shape[1] - ddof))


def corrcoef(x, y=None, rowvar=True):
    c = cov(x, y, rowvar)
    if c.ndim == 0:
        return c / c
    d = SHIM.sqrt(SHIM.real(SHIM.diagonal(c)))
    return c / d[:, None] / d[None, :]


def quantile(a, q, axis=None, keepdims=False, method="linear", **k):
    if k or method != "linear" or np.ndim(q) or keepdims or has_sym(q):
        raise Unsupported("quantile with these arguments")
    a = asarray(a)
    if axis is None:
        a, axis = SHIM.ravel(a), 0
    a = SHIM.moveaxis(SHIM.sort(a, axis=axis), axis, 0)
    h = float(q) * (a.shape[0] - 1)
    i = min(int(h), a.shape[0] - 2) if a.shape[0] > 1 else 0
    if a.shape[0] == 1:
        return a[0]
    return a[i] + (h - i) * (a[i + 1] - a[i])


def partition(a, kth, axis=-1, **k):
    return SHIM.sort(a, axis=axis)


ns.SHIM_FUNCS.update(
    cov=cov, corrcoef=corrcoef, quantile=quantile, nanquantile=quantile,
    percentile=lambda a, q, **k: quantile(a, q / 100, **k),
    nanpercentile=lambda a, q, **k: quantile(a, q / 100, **k),
    partition=partition)


@shimfn
def polyadd(a, b):
    a, b = asarray(a), asarray(b)
    n = max(a.shape[0], b.shape[0])
    return SHIM.concatenate([SHIM.zeros(n - a.shape[0]), a]) + \
        SHIM.concatenate([SHIM.zeros(n - b.shape[0]), b])


@shimfn
def polysub(a, b):
    return polyadd(a, -asarray(b))


@shimfn
def polymul(a, b):
    return SHIM.convolve(asarray(a), asarray(b))


@shimfn
def polyder(p, m=1):
    p = asarray(p)
    for _ in range(m):
        n = p.shape[0] - 1
        p = p[:-1] * np.arange(n, 0, -1)
    return p


@shimfn
def polyint(p, m=1, k=None):
    if m != 1 or k is not None:
        raise Unsupported("polyint with these arguments")
    p = asarray(p)
    n = p.shape[0]
    return SHIM.concatenate([p / np.arange(n, 0, -1), SHIM.zeros(1)])


@shimfn
def poly(seq):
    r = asarray([1.])
    for z in asarray(seq):
        r = SHIM.convolve(r, asarray([1., -z]))
    return r


@shimfn
def logspace(start, stop, num=50, endpoint=True, base=10.0, dtype=None,
             axis=0):
    v = SHIM.linspace(start, stop, num, endpoint=endpoint)
    return SHIM.exp(v * sc.s_log(S.lift(base)))


@shimfn
def geomspace(start, stop, num=50, endpoint=True, dtype=None, axis=0):
    v = SHIM.linspace(sc.s_log(S.lift(start)), sc.s_log(S.lift(stop)), num,
                      endpoint=endpoint)
    return SHIM.exp(v)


@shimfn
def apply_over_axes(func, a, axes):
    a = asarray(a)
    for x in np.atleast_1d(axes):
        r = func(a, int(x))
        a = r if r.ndim == a.ndim else SHIM.expand_dims(r, int(x))
    return a


def nanfun(name):
    return lambda *a, **k: getattr(SHIM, name)(*a, **k)


for _k in ("cumsum", "cumprod", "prod", "std", "var", "median"):
    ns.SHIM_FUNCS["nan" + _k] = nanfun(_k)


def vector_norm(x, axis=None, keepdims=False, ord=2):
    x = asarray(x)
    if axis is None:
        if keepdims:
            raise Unsupported("vector_norm with these arguments")
        x, axis = SHIM.ravel(x), 0
    return ns.l_norm(x, ord=ord, axis=axis, keepdims=keepdims)


def matrix_norm(x, keepdims=False, ord="fro"):
    return ns.l_norm(asarray(x), ord=ord, axis=(-2, -1), keepdims=keepdims)


def slogdet(a):
    d = ns.l_det(a)
    m = sc.s_abs(S.lift(d))
    return d / m, sc.s_log(m)


SHIM.linalg.__dict__.update(
    vector_norm=vector_norm, matrix_norm=matrix_norm, slogdet=slogdet,
    matmul=lambda a, b: SHIM.matmul(a, b),
    outer=lambda a, b: SHIM.outer(a, b),
    cross=lambda a, b, axis=-1: SHIM.cross(a, b, axis=axis),
    diagonal=lambda a, offset=0: SHIM.diagonal(a, offset, -2, -1),
    matrix_transpose=lambda a: SHIM.matrix_transpose(a),
    tensordot=lambda a, b, axes=2: SHIM.tensordot(a, b, axes=axes),
    vecdot=lambda a, b, axis=-1: vecdot(a, b, axis=axis),
    trace=lambda a, offset=0, dtype=None: SHIM.trace(a, offset, -2, -1))
