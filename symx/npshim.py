"""numpy for symbolic scalars.

``SymArray`` is an ndarray subclass holding ``S`` objects: views, strides,
aliasing, in-place operations, indexing and broadcasting are numpy's own, only
the element arithmetic is symbolic.  A tag carries the dtype the real program
would have ('f' float64, 'c' complex128, 'b' bool); casts follow numpy's rules
for that dtype (complex into a float array discards or raises as numpy does).
"""
import builtins
import itertools
import math
import types

import numpy as np
import scipy.special as sps

from . import scalar as sc
from .scalar import S, SymBool, Unsupported

NDVIEW = np.ndarray


# ---------------------------------------------------------------------------
# shim scalar classes: `float`, `complex`, ... as seen by the code under test

class _FloatMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, S):
            return not x.c
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, c):
        if c is cls:
            return True
        return issubclass(c, cls._real)

    def __eq__(cls, o):
        if isinstance(o, np.dtype):
            return o == cls._real
        return cls is o or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


class symfloat(metaclass=_FloatMeta):
    _real = float
    _tag = "f"

    def __new__(cls, x=0.0):
        if isinstance(x, np.ndarray):
            if x.size != 1:
                raise TypeError(
                    "only length-1 arrays can be converted to Python scalars")
            x = x.reshape(-1)[0]
        if isinstance(x, S):
            if x.c and sc.p_im(x.p):
                raise TypeError("float() argument must be a real number")
            return S(sc.p_re(x.p), False)
        return float(x)

    fromhex = float.fromhex


class _CplxMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, S):
            return x.c
        return isinstance(x, cls._real)

    def __eq__(cls, o):
        if isinstance(o, np.dtype):
            return o == cls._real
        return cls is o or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


class symcomplex(metaclass=_CplxMeta):
    _real = complex
    _tag = "c"

    def __new__(cls, re=0.0, im=None):
        if isinstance(re, np.ndarray):
            re = re.reshape(-1)[0] if re.size == 1 else complex(re)
        if isinstance(im, np.ndarray):
            im = im.reshape(-1)[0]
        if isinstance(re, S) or isinstance(im, S):
            out = S.lift(re)
            if im is not None:
                out = out + S.lift(im) * S.lift(1j)
            return out.typed(True)
        return complex(re) if im is None else complex(re, im)


class symfloat64(symfloat, metaclass=_FloatMeta):
    _real = np.float64
    _tag = "f"
    dtype = np.dtype(np.float64)    # np.dtype(...) and == use this

    def __new__(cls, x=0.0):
        if isinstance(x, (np.ndarray, list, tuple)):
            return SHIM.asarray(x, dtype=symfloat)
        return S.lift(symfloat(x))


class symcomplex128(symcomplex, metaclass=_CplxMeta):
    _real = np.complex128
    _tag = "c"
    dtype = np.dtype(np.complex128)

    def __new__(cls, x=0.0):
        if isinstance(x, (np.ndarray, list, tuple)):
            return SHIM.asarray(x, dtype=symcomplex)
        return S.lift(symcomplex(x)).typed(True)


def shim_type(*a):
    """`type` as seen by the code under test."""
    if len(a) != 1:
        return type(*a)
    x = a[0]
    if isinstance(x, np.ndarray):
        return np.ndarray
    if isinstance(x, S):
        return symcomplex if x.c else symfloat
    t = type(x)
    if t is float:
        return symfloat
    if t is complex:
        return symcomplex
    if t is np.float64:
        return symfloat64
    if t is np.complex128:
        return symcomplex128
    if t is SymBool:
        return bool
    return t


def tag_of_dtype(dt):
    if dt is None:
        return None
    if isinstance(dt, type) and hasattr(dt, "_tag"):
        return dt._tag
    if dt is object or (isinstance(dt, np.dtype) and dt == object):
        return "o"
    if isinstance(dt, str) and dt in ("O", "object"):
        return "o"
    d = np.dtype(dt)
    return {"f": "f", "c": "c", "b": "b", "i": "i", "u": "i"}.get(d.kind, "x")


def cast_scalar(x, tag):
    if tag == "b":
        if isinstance(x, (SymBool, bool, np.bool_)):
            return x
        if isinstance(x, S):
            return x != 0
        return bool(x)
    if isinstance(x, SymBool):
        x = S.lift(x)
    if tag == "i":
        return int(x)
    if tag == "o":
        return x
    if isinstance(x, np.ndarray):
        x = x.reshape(-1)[0]
    x = S.lift(x)
    if not isinstance(x, S):
        return x
    if tag == "c":
        return x if x.c else S(x.p, True)
    if tag == "f":
        if not x.c:
            return x
        return S(sc.p_re(x.p), False)
    raise Unsupported("cast to " + str(tag))


def infer_tag(obj):
    """Tag of an object ndarray's elements."""
    tag = "b"
    anyel = False
    for x in obj.flat:
        anyel = True
        if isinstance(x, S):
            if x.c:
                return "c"
            tag = "f"
        elif isinstance(x, (SymBool, bool, np.bool_)):
            pass
        elif isinstance(x, (int, np.integer)):
            if tag == "b":
                tag = "i"
        elif isinstance(x, (float, np.floating)):
            tag = "f"
        elif isinstance(x, (complex, np.complexfloating)):
            return "c"
        elif isinstance(x, np.ndarray):
            raise Unsupported("ragged array")
        else:
            return "o"
    return tag if anyel else "f"


_castc = {
    "c": np.frompyfunc(lambda x: cast_scalar(x, "c"), 1, 1),
    "f": np.frompyfunc(lambda x: cast_scalar(x, "f"), 1, 1),
    "b": np.frompyfunc(lambda x: cast_scalar(x, "b"), 1, 1),
    "i": np.frompyfunc(lambda x: cast_scalar(x, "i"), 1, 1),
}
_lift = np.frompyfunc(S.lift, 1, 1)


def plain(a):
    """Plain object ndarray view of a SymArray."""
    return np.ndarray.view(a, np.ndarray)


def asobj(r):
    if isinstance(r, np.ndarray):
        return plain(r) if isinstance(r, SymArray) else r
    a = np.empty((), dtype=object)
    a[()] = r
    return a


def wrap(obj, tag=None):
    """Object ndarray (or numeric ndarray) -> SymArray / int ndarray."""
    if isinstance(obj, SymArray):
        return obj
    if obj.dtype != object:
        k = obj.dtype.kind
        if k in "iub":
            if tag in (None, "i", "b") or tag == {"i": "i", "u": "i",
                                                 "b": "b"}[k]:
                return obj
        elif k not in "fc":
            return obj
        t = tag or {"f": "f", "c": "c"}[k]
        out = _lift(obj.astype(object))
        out = asobj(out)
        out = asobj(_castc[t](out))
        return _mk(out, t)
    t = tag or infer_tag(obj)
    if t == "i":
        return obj.astype(int)
    if t == "b":
        if not any(isinstance(x, SymBool) for x in obj.flat):
            return obj.astype(bool)
        return _mk(obj, "b")
    if t == "o":
        return obj
    out = asobj(_castc[t](obj))
    if out.size and out.flags["OWNDATA"] is False:
        out = out.copy()
    return _mk(out, t)


def _mk(obj, tag):
    r = obj.view(SymArray)
    r._tag = tag
    return r


def wrap_list(xs):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = S.lift(x)
    return wrap(a)


def rewrap(r, tag=None):
    """Result of a numpy call on object arrays."""
    if isinstance(r, SymArray):
        return r
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            return wrap(r, tag)
        if r.dtype.kind in "fc":
            return wrap(r, tag)
        return r
    if isinstance(r, (float, complex)) or isinstance(
            r, (np.floating, np.complexfloating)):
        x = S.lift(r)
        return x
    if isinstance(r, S):
        if tag in ("c", "f"):
            return cast_scalar(r, tag)
        return r
    if isinstance(r, tuple) and type(r) is not tuple and hasattr(r, "_fields"):
        return type(r)(*[rewrap(x) for x in r])
    if isinstance(r, tuple):
        return tuple(rewrap(x) for x in r)
    if isinstance(r, list):
        return [rewrap(x) for x in r]
    return r


class SymArray(np.ndarray):
    _tag = "f"

    def __array_finalize__(self, obj):
        if obj is not None:
            self._tag = getattr(obj, "_tag", "f")

    @property
    def dtype(self):
        return np.dtype({"f": float, "c": complex, "b": bool}[self._tag])

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.size * self.itemsize

    def astype(self, dt, order="K", casting="unsafe", subok=True, copy=True):
        t = tag_of_dtype(dt)
        if t == self._tag:
            return self.copy() if copy else self
        if t == "o":
            return plain(self).copy()
        if t == "i":
            return asobj(_castc["i"](plain(self))).astype(int)
        return wrap(plain(self).copy(), t)

    def __getitem__(self, key):
        key = fix_key(key)
        r = plain(self)[key]
        if isinstance(r, np.ndarray):
            r = r.view(SymArray)
            r._tag = self._tag
        return r

    def __setitem__(self, key, value):
        key = fix_key(key)
        v = cast_value(value, self._tag)
        plain(self)[key] = v

    def fill(self, value):
        self[...] = value

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return sym_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return call_np(func, args, kwargs)

    @property
    def real(self):
        if self._tag == "c":
            return wrap(asobj(_real(plain(self))), "f")
        return self

    @real.setter
    def real(self, value):
        im = self.imag
        self[...] = SHIM.asarray(value) + im * S.lift(1j)

    @property
    def imag(self):
        if self._tag == "c":
            return wrap(asobj(_imag(plain(self))), "f")
        return wrap(np.zeros(self.shape), "f")

    @imag.setter
    def imag(self, value):
        re = self.real
        self[...] = re + SHIM.asarray(value) * S.lift(1j)

    def conj(self):
        if self._tag != "c":
            return self
        return wrap(asobj(_conj(plain(self))), self._tag)

    conjugate = conj

    def dot(self, b, out=None):
        return call_np(np.dot, (self, b), {})

    def _reduce_tag(self, dtype):
        return tag_of_dtype(dtype)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return SHIM.sum(self, axis=axis, dtype=dtype, out=out,
                        keepdims=keepdims, **k)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return SHIM.mean(self, axis=axis, keepdims=keepdims, out=out, **k)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return SHIM.std(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return SHIM.var(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return SHIM.prod(self, axis=axis, keepdims=keepdims, **k)

    def trace(self, offset=0, axis1=0, axis2=1, dtype=None, out=None):
        return SHIM.trace(self, offset, axis1, axis2)

    def cumsum(self, axis=None, dtype=None, out=None):
        return rewrap(np.cumsum(plain(self), axis=axis, dtype=object),
                      self._tag)

    def cumprod(self, axis=None, dtype=None, out=None):
        return rewrap(np.cumprod(plain(self), axis=axis, dtype=object),
                      self._tag)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return SHIM.max(self, axis=axis, keepdims=keepdims, out=out, **k)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return SHIM.min(self, axis=axis, keepdims=keepdims, out=out, **k)

    def argmin(self, axis=None, out=None, **k):
        return SHIM.argmin(self, axis=axis)

    def argmax(self, axis=None, out=None, **k):
        return SHIM.argmax(self, axis=axis)

    def argsort(self, axis=-1, kind=None, order=None):
        return SHIM.argsort(self, axis=axis)

    def sort(self, axis=-1, kind=None, order=None):
        self[...] = SHIM.sort(self, axis=axis)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return SHIM.all(self, axis=axis, keepdims=keepdims, **k)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return SHIM.any(self, axis=axis, keepdims=keepdims, **k)

    def round(self, decimals=0, out=None):
        return SHIM.round(self, decimals)

    def clip(self, a_min=None, a_max=None, out=None):
        return SHIM.clip(self, a_min, a_max)

    def nonzero(self):
        return SHIM.nonzero(self)

    def item(self, *args):
        return plain(self).item(*args)

    def tolist(self):
        return plain(self).tolist()

    def repeat(self, repeats, axis=None):
        r = plain(self).repeat(repeats, axis=axis)
        return rewrap(r, self._tag)

    def take(self, indices, axis=None, out=None, mode="raise"):
        return rewrap(plain(self).take(indices, axis=axis, mode=mode),
                      self._tag)

    def __array_wrap__(self, obj, context=None, return_scalar=False):
        return rewrap(obj)

    def __bool__(self):
        if self.size != 1:
            if self.size == 0:
                return False
            raise ValueError("The truth value of an array with more than one "
                             "element is ambiguous. Use a.any() or a.all()")
        x = plain(self).reshape(-1)[0]
        if isinstance(x, S):
            return bool(x != 0)
        return bool(x)

    def __float__(self):
        return float(self._single())

    def __complex__(self):
        return complex(self._single())

    def __int__(self):
        return int(self._single())

    def _single(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python "
                            "scalars")
        return plain(self).reshape(-1)[0]

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self)):
            yield self[i]

    def __contains__(self, x):
        return bool(SHIM.any(self == x))

    def __repr__(self):
        return "SymArray[%s](%s)" % (self._tag, plain(self).tolist())

    __str__ = __repr__

    def __reduce__(self):
        return _restore, (list(plain(self).reshape(-1)), self.shape,
                          self._tag)

    def __reduce_ex__(self, protocol):
        return self.__reduce__()

    def __deepcopy__(self, memo):
        r = self.copy()
        return r

    def tobytes(self, order="C"):
        raise Unsupported("tobytes of a symbolic array")


def _restore(vals, shape, tag):
    a = np.empty(len(vals), dtype=object)
    a[:] = vals
    return wrap(a.reshape(shape), tag)


_real = np.frompyfunc(lambda x: x.real, 1, 1)
_imag = np.frompyfunc(lambda x: x.imag, 1, 1)
_conj = np.frompyfunc(lambda x: x.conjugate() if isinstance(
    x, (S, complex)) else x, 1, 1)


def fix_key(key):
    """Concretise symbolic masks inside an index."""
    if isinstance(key, tuple):
        return tuple(fix_key(k) for k in key)
    if isinstance(key, SymArray):
        if key._tag == "b":
            return np.array([bool(x) for x in plain(key).reshape(-1)],
                            dtype=bool).reshape(key.shape)
        raise IndexError("arrays used as indices must be of integer (or "
                         "boolean) type")
    if isinstance(key, SymBool):
        return bool(key)
    return key


class IntArray(np.ndarray):
    """Integer array that accepts symbolic masks."""

    def __getitem__(self, key):
        return super().__getitem__(fix_key(key))

    def __setitem__(self, key, value):
        super().__setitem__(fix_key(key), value)


def cast_value(value, tag):
    """Value assigned into an array with the given tag."""
    if isinstance(value, np.ndarray):
        if isinstance(value, SymArray) and value._tag == tag:
            return plain(value)
        src = asobj(value)
        if src.dtype != object:
            src = src.astype(object)
        if src.ndim == 0:
            return cast_scalar(src[()], tag)
        return _castc[tag](src)
    if isinstance(value, (list, tuple)):
        a = SHIM.array(value)
        return cast_value(a, tag)
    if isinstance(value, complex) and tag == "f":
        raise TypeError("float() argument must be a string or a real number, "
                        "not 'complex'")
    if value is None:
        if tag in "fc":
            return float("nan")
    return cast_scalar(value, tag)


# ---------------------------------------------------------------------------
# ufuncs


def _mx(a, b):
    if not isinstance(a, S) and not isinstance(b, S):
        return max(a, b)
    return a if bool(S.lift(a) >= b) else b


def _mn(a, b):
    if not isinstance(a, S) and not isinstance(b, S):
        return min(a, b)
    return a if bool(S.lift(a) <= b) else b


def _isnan(x):
    return (not isinstance(x, S)) and x != x


def _isinf(x):
    return (not isinstance(x, S)) and abs(x) == math.inf


UF1 = {
    "exp": sc.s_exp, "sqrt": sc.s_sqrt, "absolute": sc.s_abs,
    "fabs": sc.s_abs, "conjugate": lambda x: S.lift(x).conjugate(),
    "sin": sc.s_sin, "cos": sc.s_cos, "log": sc.s_log, "log2": sc.s_log2,
    "tan": lambda x: sc.s_sin(x) / sc.s_cos(x),
    "tanh": sc.s_tanh, "sinh": sc.s_sinh, "cosh": sc.s_cosh,
    "arccos": sc.s_arccos, "arcsin": sc.s_arcsin,
    "floor": sc.s_floor, "ceil": sc.s_ceil, "trunc": sc.s_trunc,
    "sign": sc.s_sign, "isnan": _isnan, "isinf": _isinf,
    "isfinite": lambda x: not (_isnan(x) or _isinf(x)),
    "square": lambda x: x * x, "reciprocal": lambda x: 1 / S.lift(x),
    "negative": lambda x: -x, "positive": lambda x: x,
    "logical_not": lambda x: sc.b_not(sc.as_b(x)),
    "invert": lambda x: sc.b_not(sc.as_b(x)),
    "expm1": lambda x: sc.s_exp(x) - 1,
    "log10": lambda x: sc.s_log(x) / sc.s_log(S.lift(10)),
    "log1p": lambda x: sc.s_log(1 + x),
    "exp2": lambda x: sc.s_exp(x * sc.s_log(S.lift(2))),
    "deg2rad": lambda x: x * sc.pi() / 180,
    "rad2deg": lambda x: x * 180 / sc.pi(),
    "cbrt": None, "rint": None,
    "degrees": lambda x: x * 180 / sc.pi(),
    "radians": lambda x: x * sc.pi() / 180,
    "signbit": lambda x: x < 0,
    "erf": sc.s_erf, "erfinv": sc.s_erfinv,
    "erfc": lambda x: 1 - sc.s_erf(x),
    "_ones_like": lambda x: S.lift(1),
}
UF2 = {
    "add": lambda a, b: a + b, "subtract": lambda a, b: a - b,
    "multiply": lambda a, b: a * b,
    "divide": lambda a, b: sc.s_div(S.lift(a), S.lift(b)),
    "true_divide": lambda a, b: sc.s_div(S.lift(a), S.lift(b)),
    "power": lambda a, b: sc.s_pow(a, b),
    "float_power": lambda a, b: sc.s_pow(a, b),
    "floor_divide": lambda a, b: S.lift(a) // b,
    "remainder": lambda a, b: S.lift(a) % b,
    "maximum": _mx, "minimum": _mn, "fmax": _mx, "fmin": _mn,
    "equal": lambda a, b: a == b, "not_equal": lambda a, b: a != b,
    "less": lambda a, b: a < b, "less_equal": lambda a, b: a <= b,
    "greater": lambda a, b: a > b, "greater_equal": lambda a, b: a >= b,
    "logical_and": sc.b_and, "logical_or": sc.b_or,
    "logical_xor": lambda a, b: sc.as_b(a) ^ sc.as_b(b),
    "bitwise_and": sc.b_and, "bitwise_or": sc.b_or,
    "bitwise_xor": lambda a, b: sc.as_b(a) ^ sc.as_b(b),
    "arctan2": sc.s_arctan2,
    "copysign": lambda a, b: sc.s_abs(S.lift(a)) * (
        1 if bool(S.lift(b) >= 0) else -1),
    "heaviside": lambda a, b: S.lift(0) if bool(a < 0) else (
        S.lift(1) if bool(a > 0) else S.lift(b)),
    "ldexp": lambda a, b: S.lift(a) * 2 ** int(b),
    "logaddexp": lambda a, b: sc.s_log(sc.s_exp(a) + sc.s_exp(b)),
    "hypot": lambda a, b: sc.s_sqrt(a * a + b * b),
}
BOOLRES = {"equal", "not_equal", "less", "less_equal", "greater",
           "greater_equal", "logical_and", "logical_or", "logical_xor",
           "logical_not", "isnan", "isinf", "isfinite", "signbit"}
REALRES = {"absolute", "fabs", "arctan2", "floor", "ceil", "arccos"}
_frompy = {}


def fp(name, fn, nin):
    k = (name, nin)
    if k not in _frompy:
        _frompy[k] = np.frompyfunc(fn, nin, 1)
    return _frompy[k]


def in_tag(x):
    if isinstance(x, SymArray):
        return x._tag
    if isinstance(x, S):
        return "c" if x.c else "f"
    if isinstance(x, np.ndarray):
        return {"f": "f", "c": "c", "b": "b", "i": "i", "u": "i",
                "O": None}[x.dtype.kind] or infer_tag(x)
    if isinstance(x, (bool, np.bool_, SymBool)):
        return "b"
    if isinstance(x, (int, np.integer)):
        return "i"
    if isinstance(x, (complex, np.complexfloating)):
        return "c"
    return "f"


_rank = {"b": 0, "i": 1, "f": 2, "c": 3}


def promote(tags):
    return max(tags, key=lambda t: _rank[t])


def to_obj_lifted(x, keepint=False):
    if isinstance(x, SymArray):
        return plain(x)
    if isinstance(x, (list, tuple)):
        x = SHIM.array(x)
        return to_obj_lifted(x)
    if isinstance(x, np.ndarray):
        o = x.astype(object) if x.dtype != object else x
        return asobj(_lift(o)) if o.size else o
    a = np.empty((), dtype=object)
    a[()] = x if isinstance(x, (S, SymBool)) else S.lift(x)
    return a


def _has_out(out):
    if isinstance(out, tuple):
        return any(o is not None for o in out)
    return out is not None


def store_out(out, res, tag):
    if isinstance(out, tuple):
        (out,) = out
    if out is None:
        return None
    if not isinstance(out, SymArray):
        if out.dtype.kind in "iub":
            raise np._core._exceptions._UFuncOutputCastingError \
                if False else TypeError(
                    "Cannot cast ufunc output to dtype('%s')" % out.dtype)
        raise Unsupported("out= plain array")
    if _rank[tag] > _rank[out._tag]:
        raise TypeError("Cannot cast ufunc output from dtype('%s') to "
                        "dtype('%s') with casting rule 'same_kind'"
                        % (tag, out._tag))
    res = asobj(res)
    plain(out)[...] = _castc[out._tag](res) if res.size else res
    return out


def sym_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop("out", None)
    dtype = kw.pop("dtype", None)
    kw.pop("casting", None)
    kw.pop("order", None)
    kw.pop("subok", None)
    where = kw.pop("where", True)
    if name in ("equal", "not_equal") and any(x is None for x in inputs):
        a = inputs[0] if inputs[0] is not None else inputs[1]
        return np.full(np.shape(a), name == "not_equal")
    tags = [in_tag(x) for x in inputs]
    if method == "__call__":
        objs = [to_obj_lifted(x) for x in inputs]
        if name == "matmul":
            if objs[0].ndim == 0 or objs[1].ndim == 0:
                raise ValueError("matmul: Input operand does not have enough "
                                 "dimensions")
            res = _matmul(objs[0], objs[1])
            tag = promote(tags)
        elif name in UF1 and len(inputs) == 1:
            if UF1[name] is None:
                raise Unsupported("ufunc " + name)
            res = fp(name, UF1[name], 1)(objs[0])
            tag = None
        elif name in UF2 and len(inputs) == 2:
            res = fp(name, UF2[name], 2)(*objs)
            tag = None
        elif name == "modf":
            raise Unsupported("modf")
        else:
            raise Unsupported("ufunc " + name)
        if name in BOOLRES:
            tag = "b"
        elif name in REALRES:
            tag = "f"
        elif tag is None:
            tag = promote(tags + ["f"])
            if name in ("invert", "bitwise_and", "bitwise_or",
                        "bitwise_xor"):
                tag = "b"
            if name in ("isnan", "isinf", "isfinite"):
                tag = "b"
        if dtype is not None:
            tag = tag_of_dtype(dtype)
        res = asobj(res)
        if where is not True:
            w = fix_key(where) if isinstance(where, np.ndarray) else where
            if out is None or not _has_out(out):
                if not np.all(w):
                    raise Unsupported("where= without out=")
            else:
                (o,) = out if isinstance(out, tuple) else (out,)
                res = np.where(w, res, plain(o))
        if _has_out(out):
            return store_out(out, res, tag)
        if res.ndim == 0:
            x = res[()]
            if tag in ("c", "f") and isinstance(x, S):
                return cast_scalar(x, tag)
            return x
        return wrap(res, tag)
    if method in ("reduce", "accumulate"):
        (a,) = inputs
        o = to_obj_lifted(a)
        axis = kw.get("axis", 0)
        keepdims = kw.get("keepdims", False)
        initial = kw.get("initial", np._NoValue)
        if name in ("logical_and", "logical_or", "maximum", "minimum",
                    "add", "multiply", "subtract"):
            f = fp(name, UF2[name], 2)
            if o.size == 0 or initial is not np._NoValue:
                start = {"add": S.lift(0), "multiply": S.lift(1),
                         "logical_and": True, "logical_or": False}.get(name)
                if initial is not np._NoValue and initial is not None:
                    start = S.lift(initial)
            else:
                start = None
            if method == "accumulate":
                res = f.accumulate(o, axis=axis)
            elif axis is None or isinstance(axis, tuple):
                axes = tuple(range(o.ndim)) if axis is None else axis
                res = o
                axes = sorted([x % o.ndim for x in axes], reverse=True)
                for x in axes:
                    res = asobj(_reduce1(f, res, x, start))
                if keepdims:
                    shp = [1 if i in axes else n
                           for i, n in enumerate(o.shape)]
                    res = res.reshape(shp)
            else:
                res = asobj(_reduce1(f, o, axis, start))
                if keepdims:
                    res = np.expand_dims(res, axis)
            tag = "b" if name.startswith("logical") else promote(
                tags + (["f"]))
            res = asobj(res)
            if _has_out(out):
                return store_out(out, res, tag)
            if res.ndim == 0:
                x = res[()]
                return cast_scalar(x, tag) if tag in "fc" else x
            return wrap(res, tag)
    if method == "reduceat":
        a, idx = inputs[:2]
        a = asarray(a)
        axis = kw.get("axis", inputs[2] if len(inputs) > 2 else 0)
        m = SHIM.moveaxis(a, axis, 0)
        idx = [int(i) for i in idx]
        parts = []
        for k, i in enumerate(idx):
            j = idx[k + 1] if k + 1 < len(idx) else m.shape[0]
            parts.append(m[i] if j <= i else sym_ufunc(
                ufunc, "reduce", (m[i:j],), dict(axis=0)))
        return SHIM.moveaxis(SHIM.stack(parts), 0, axis)
    if method == "outer":
        a, b = [to_obj_lifted(x) for x in inputs]
        r = fp(name, UF2[name], 2).outer(a, b)
        return wrap(asobj(r), promote(tags + ["f"]))
    if method == "at":
        a, idx = inputs[:2]
        if name == "add":
            idxs = np.arange(a.shape[0])[idx] if not isinstance(
                idx, tuple) else None
            if idxs is None:
                raise Unsupported("ufunc.at with tuple")
            v = np.broadcast_to(asobj(SHIM.asarray(inputs[2])), idxs.shape)
            for k, x in zip(idxs.reshape(-1), v.reshape(-1)):
                a[k] = a[k] + x
            return None
    raise Unsupported("ufunc method %s.%s" % (name, method))


def _reduce1(f, o, axis, start):
    if start is not None:
        shp = list(o.shape)
        shp.pop(axis)
        acc = np.empty(shp, dtype=object)
        acc[...] = start
        for i in range(o.shape[axis]):
            part = np.empty(tuple(shp), dtype=object)
            part[...] = np.take(o, i, axis=axis)
            r = f(acc, part)
            acc = np.empty(tuple(shp), dtype=object)
            acc[...] = r
        return acc
    return f.reduce(o, axis=axis)


def _matmul(a, b):
    """matmul of object arrays with numpy's shape rules."""
    a1, b1 = a.ndim == 1, b.ndim == 1
    if a1:
        a = a[None, :]
    if b1:
        b = b[:, None]
    if a.shape[-1] != b.shape[-2]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core "
                         "dimension 0, (size %d is different from %d)"
                         % (b.shape[-2], a.shape[-1]))
    if a.ndim == 2 and b.ndim == 2:
        r = _mm2(a, b)
    else:
        batch = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
        A = np.broadcast_to(a, batch + a.shape[-2:])
        B = np.broadcast_to(b, batch + b.shape[-2:])
        r = np.empty(batch + (a.shape[-2], b.shape[-1]), dtype=object)
        for idx in np.ndindex(*batch):
            r[idx] = _mm2(A[idx], B[idx])
    if a1:
        r = r[..., 0, :]
    if b1:
        r = r[..., 0] if not a1 else r[..., 0]
    return r


def _mm2(a, b):
    n, k = a.shape
    m = b.shape[1]
    r = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            acc = S({})
            for q in range(k):
                x = a[i, q]
                y = b[q, j]
                if isinstance(x, S) and not x.p or \
                        isinstance(y, S) and not y.p:
                    continue
                acc = acc + x * y
            r[i, j] = acc
    return r


# ---------------------------------------------------------------------------
# functions


def conv_dtype_kw(kw):
    if "dtype" in kw and kw["dtype"] is not None:
        return tag_of_dtype(kw["dtype"])
    return None


def has_sym(x):
    if isinstance(x, (S, SymArray, SymBool)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    if isinstance(x, dict):
        return any(has_sym(y) for y in x.values())
    return False


def to_plain_args(x):
    if isinstance(x, SymArray):
        return plain(x)
    if isinstance(x, S):
        return asobj(x)
    if isinstance(x, SymBool):
        return asobj(x)
    if type(x) in (list, tuple):
        return type(x)(to_plain_args(y) for y in x)
    if type(x) is dict:
        return {k: to_plain_args(v) for k, v in x.items()}
    return x


# numpy functions that only move elements around: the object loop is exact
STRUCTURAL = {
    "reshape", "transpose", "moveaxis", "swapaxes", "rollaxis", "squeeze",
    "expand_dims", "concatenate", "stack", "vstack", "hstack", "dstack",
    "column_stack", "repeat", "tile", "ravel", "copy", "diag", "diagonal",
    "diagflat", "triu", "tril", "flip", "fliplr", "flipud", "roll", "rot90",
    "broadcast_to", "broadcast_arrays", "atleast_1d", "atleast_2d",
    "atleast_3d", "split", "array_split", "hsplit", "vsplit", "dsplit",
    "take", "take_along_axis", "delete", "insert", "append", "resize",
    "pad", "compress", "block", "row_stack", "permute_dims",
    "matrix_transpose", "unstack", "ix_", "trim_zeros", "choose",
    "put_along_axis", "astype",
}
# numpy functions whose object loop is exact sums/products
ARITH = {
    "kron", "dot", "inner", "outer", "vdot", "tensordot", "cumsum",
    "cumprod", "diff", "convolve", "correlate", "cross", "gradient",
    "ediff1d", "trapezoid", "trapz", "meshgrid", "multi_dot", "vecdot",
    "polyval", "vander", "nansum", "nan_to_num",
}


def _as_obj_arrays(x):
    """list arguments with symbolic content -> object arrays."""
    return x


def call_np(func, args, kwargs):
    name = getattr(func, "__name__", str(func))
    if name in SHIM_FUNCS:
        return SHIM_FUNCS[name](*args, **kwargs)
    if isinstance(func, np.ufunc):
        if method_inputs_need(args):
            return sym_ufunc(func, "__call__", args, dict(kwargs))
        return rewrap(func(*args, **kwargs))
    if name in ("gradient", "convolve", "correlate", "polyval"):
        args = [SHIM.asarray(a) if isinstance(a, (list, tuple)) else a
                for a in args]
    kwargs = dict(kwargs)
    tag = None
    if "dtype" in kwargs:
        tag = tag_of_dtype(kwargs.pop("dtype"))
        if tag in ("i", "b") and not has_sym(args):
            kwargs["dtype"] = {"i": int, "b": bool}[tag]
    if has_sym(args) or has_sym(kwargs):
        if name not in STRUCTURAL and name not in ARITH:
            raise Unsupported("numpy function %s on symbolic values" % name)
        if name == "vdot":
            a, b = args
            return SHIM.sum(SHIM.conj(SHIM.ravel(a)) * SHIM.ravel(b))
        out = kwargs.pop("out", None)
        view_ok = name in STRUCTURAL
        src_tags = collect_tags(args)
        if tag is None and src_tags:
            tag = promote(src_tags)
        args = [to_plain_args(a) for a in args]
        kwargs = {k: to_plain_args(v) for k, v in kwargs.items()}
        r = func(*args, **kwargs)
        r = rewrap_view(r, tag) if view_ok else rewrap(r, tag)
        if out is not None:
            out[...] = r
            return out
        return r
    r = func(*args, **kwargs)
    return rewrap(r, tag)


def collect_tags(x):
    out = []
    if isinstance(x, (SymArray, S, np.ndarray)):
        t = in_tag(x)
        if t in _rank:
            out.append(t)
    elif isinstance(x, (list, tuple)):
        for y in x:
            if isinstance(y, (float,)):
                out.append("f")
            elif isinstance(y, complex):
                out.append("c")
            else:
                out.extend(collect_tags(y))
    return out


def rewrap_view(r, tag):
    """Keep views views (reshape, transpose, ...)."""
    if isinstance(r, np.ndarray) and r.dtype == object:
        if tag in ("f", "c", "b"):
            if all(isinstance(x, (S, SymBool)) and
                   (tag == "b" or (isinstance(x, S) and
                                   x.c == (tag == "c")))
                   for x in r.flat):
                return _mk(r, tag)
        return wrap(r, tag)
    if isinstance(r, (tuple, list)):
        return type(r)(rewrap_view(x, tag) for x in r)
    return rewrap(r, tag)


def method_inputs_need(args):
    return has_sym(args)


SHIM_FUNCS = {}


def shimfn(f=None, names=None):
    def deco(g):
        for n in (names or [g.__name__.rstrip("_")]):
            SHIM_FUNCS[n] = g
        return g
    return deco(f) if f is not None else deco


def _nested(x):
    """Nested sequences/arrays -> nested python lists of scalars, shape."""
    if isinstance(x, np.ndarray):
        return x
    return x


def deep_shape(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (S, SymBool)) or not hasattr(x, "__len__") or \
            isinstance(x, (str, bytes, dict)):
        return ()
    if len(x) == 0:
        return (0,)
    shp = [deep_shape(y) for y in x]
    if any(s != shp[0] for s in shp):
        raise ValueError("setting an array element with a sequence. The "
                         "requested array has an inhomogeneous shape")
    return (len(x),) + shp[0]


def fill_from(dst, x):
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            dst[...] = asobj(x)[()]
        else:
            o = asobj(x)
            dst[...] = o
        return
    if dst.ndim == 0:
        dst[()] = x
        return
    for i, y in enumerate(x):
        if dst.ndim == 1:
            if isinstance(y, np.ndarray):
                y = asobj(y)[()]
            dst[i] = y
        else:
            fill_from(dst[i], y)


@shimfn
def array(obj, dtype=None, *, copy=True, order="K", subok=False, ndmin=0,
          like=None):
    tag = tag_of_dtype(dtype)
    if isinstance(obj, (range, map, zip)) or isinstance(
            obj, types.GeneratorType):
        if isinstance(obj, range):
            obj = list(obj)
    if isinstance(obj, (set, dict)):
        return np.array(obj, dtype=object)
    if isinstance(obj, SymArray):
        t = tag or obj._tag
        if t == obj._tag:
            r = obj.copy() if copy else obj
        else:
            r = obj.astype({"c": complex, "f": float, "b": bool, "i": int,
                            "o": object}[t])
    elif isinstance(obj, (list, tuple)) or isinstance(obj, (S, SymBool)):
        if tag == "o":
            r = np.array(obj, dtype=object)
        elif not has_sym_deep(obj):
            if tag in ("i", "b", "x") or tag is None:
                r = np.array(obj, dtype=dtype if tag in ("i", "b", "x")
                             else None)
                r = wrap(r, None)
            else:
                r = wrap(np.array(obj), tag)
        else:
            shp = deep_shape(obj)
            o = np.empty(shp, dtype=object)
            fill_from(o, obj)
            r = wrap(o, tag)
    else:
        if isinstance(obj, np.ndarray) and obj.dtype == object:
            r = wrap(obj.copy() if copy else obj, tag)
        elif tag in ("f", "c"):
            r = wrap(np.array(obj), tag)
        elif tag in ("i", "b"):
            r = np.array(obj, dtype={"i": int, "b": bool}[tag])
        else:
            r = np.array(obj, dtype=dtype, copy=True if copy else None)
            r = wrap(r, None)
    if ndmin and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def has_sym_deep(x):
    if isinstance(x, (S, SymArray, SymBool)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym_deep(y) for y in x)
    return False


@shimfn(names=["asarray", "asanyarray", "ascontiguousarray",
               "asfortranarray", "asarray_chkfinite"])
def asarray(a, dtype=None, order=None, copy=None, **k):
    tag = tag_of_dtype(dtype)
    if isinstance(a, np.ndarray):
        t = in_tag(a) if a.dtype != object or isinstance(a, SymArray) \
            else None
        if (tag is None or tag == t) and t in ("f", "c", "b", "i") and (
                isinstance(a, SymArray) or t in ("i", "b")):
            return a
    return array(a, dtype=dtype)


def shape_of(s):
    if isinstance(s, (int, np.integer)):
        return (int(s),)
    if isinstance(s, S):
        raise TypeError("'float' object cannot be interpreted as an integer")
    out = []
    for x in s:
        if isinstance(x, (S, float)):
            raise TypeError(
                "'float' object cannot be interpreted as an integer")
        out.append(int(x))
    return tuple(out)


def full_tag(shape, val, tag):
    shape = shape_of(shape)
    if tag == "i":
        return np.full(shape, int(val), dtype=int)
    if tag == "b":
        return np.full(shape, bool(val), dtype=bool)
    if tag == "o":
        a = np.empty(shape, dtype=object)
        a[...] = val
        return a
    o = np.empty(shape, dtype=object)
    v = S.lift(val)
    o[...] = v if not isinstance(v, S) else v.typed(tag == "c")
    return _mk(o, tag)


@shimfn(names=["zeros", "empty"])
def zeros(shape, dtype=float, order="C", **k):
    return full_tag(shape, 0, tag_of_dtype(dtype) or "f")


@shimfn
def ones(shape, dtype=None, order="C", **k):
    return full_tag(shape, 1, tag_of_dtype(dtype) or "f")


@shimfn
def full(shape, fill_value, dtype=None, order="C", **k):
    tag = tag_of_dtype(dtype) or in_tag(fill_value)
    if isinstance(fill_value, np.ndarray) or isinstance(
            fill_value, (list, tuple)):
        r = full_tag(shape, 0, tag)
        r[...] = fill_value
        return r
    return full_tag(shape, fill_value, tag)


def _like(a, val, dtype, shape):
    a = asarray(a)
    return full_tag(a.shape if shape is None else shape, val,
                    tag_of_dtype(dtype) or in_tag(a))


@shimfn(names=["zeros_like", "empty_like"])
def zeros_like(a, dtype=None, order="K", subok=True, shape=None):
    return _like(a, 0, dtype, shape)


@shimfn
def ones_like(a, dtype=None, order="K", subok=True, shape=None):
    return _like(a, 1, dtype, shape)


@shimfn
def full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None):
    r = _like(a, 0, dtype, shape)
    r[...] = fill_value
    return r


@shimfn(names=["eye"])
def eye(N, M=None, k=0, dtype=float, order="C", **kk):
    t = tag_of_dtype(dtype) or "f"
    r = np.eye(N, M, k)
    return r.astype({"i": int, "b": bool}[t]) if t in "ib" else wrap(r, t)


@shimfn
def identity(n, dtype=None, **kk):
    return eye(n, dtype=dtype or float)


@shimfn
def arange(*a, dtype=None, **k):
    if has_sym(a) or any(isinstance(x, float) for x in a):
        a = [S.lift(x) for x in a]
        if len(a) == 1:
            start, stop, step = S.lift(0), a[0], S.lift(1)
        elif len(a) == 2:
            start, stop, step = a[0], a[1], S.lift(1)
        else:
            start, stop, step = a
        n = int(sc.s_ceil((stop - start) / step))
        return wrap_list([start + i * step for i in range(max(n, 0))])
    t = tag_of_dtype(dtype)
    r = np.arange(*a)
    if t in ("f", "c"):
        return wrap(r, t)
    return wrap(r)


@shimfn
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None,
             axis=0):
    start, stop = S.lift(start), S.lift(stop)
    num = int(num)
    div = (num - 1) if endpoint else num
    step = (stop - start) / div if div > 0 else S.lift(0)
    r = wrap_list([start + step * i for i in range(num)]) if num else \
        zeros(0)
    if dtype is not None and tag_of_dtype(dtype) == "i":
        r = r.astype(int)
    return (r, step) if retstep else r


@shimfn(names=["real"])
def real(x):
    if isinstance(x, (list, tuple)):
        x = asarray(x)
    return x.real


@shimfn(names=["imag"])
def imag(x):
    if isinstance(x, (list, tuple)):
        x = asarray(x)
    if isinstance(x, (int, float)):
        return S.lift(0)
    return x.imag


@shimfn
def angle(z, deg=False):
    f = np.frompyfunc(sc.s_angle, 1, 1)
    r = f(to_obj_lifted(z))
    return rewrap(r) if isinstance(r, np.ndarray) else r


@shimfn(names=["sum"])
def sum_(a, axis=None, dtype=None, out=None, keepdims=False, initial=None,
         where=True):
    if isinstance(a, types.GeneratorType):
        return builtins.sum(a)
    a = asarray(a)
    if where is not True:
        a = SHIM.where(where, a, 0)
    if not isinstance(a, SymArray):
        kw = {} if initial is None else {"initial": initial}
        return rewrap(np.sum(a, axis=axis, out=out, keepdims=keepdims, **kw))
    kw = dict(axis=axis, keepdims=keepdims)
    if out is not None:
        kw["out"] = (out,)
    if initial is not None:
        kw["initial"] = initial
    if a._tag == "b":
        a = np.array([bool(x) for x in plain(a).reshape(-1)],
                     dtype=bool).reshape(a.shape)
        return np.sum(a, axis=axis, keepdims=keepdims)
    r = sym_ufunc(np.add, "reduce", (a,), kw)
    t = tag_of_dtype(dtype)
    if t and t in "fc":
        r = r.astype({"c": complex, "f": float}[t])
    return r


@shimfn(names=["prod"])
def prod(a, axis=None, dtype=None, out=None, keepdims=False, initial=None,
         where=True):
    a = asarray(a)
    if where is not True:
        a = SHIM.where(where, a, 1)
    if not isinstance(a, SymArray):
        kw = {} if initial is None else {"initial": initial}
        return rewrap(np.prod(a, axis=axis, keepdims=keepdims, **kw))
    kw = dict(axis=axis, keepdims=keepdims)
    if initial is not None:
        kw["initial"] = initial
    if out is not None:
        kw["out"] = (out,)
    return sym_ufunc(np.multiply, "reduce", (a,), kw)


@shimfn(names=["mean", "average", "nanmean"])
def mean(a, axis=None, dtype=None, out=None, keepdims=False, weights=None,
         where=True, returned=False, **k):
    if returned or k:
        raise Unsupported("mean or average with these arguments")
    a = asarray(a)
    if where is not True:
        w = SHIM.where(SHIM.broadcast_to(asarray(where), a.shape), 1., 0.)
        return sum_(a * w, axis=axis, keepdims=keepdims) / sum_(
            w, axis=axis, keepdims=keepdims)
    if weights is not None:
        w = asarray(weights)
        if axis is not None and w.ndim != a.ndim:
            shp = [1] * a.ndim
            shp[axis] = -1
            w = w.reshape(shp)
        return sum_(a * w, axis=axis, keepdims=keepdims) / sum_(
            w * SHIM.ones(a.shape), axis=axis, keepdims=keepdims)
    if a.size == 0:
        return float("nan")
    if axis is None:
        n = a.size
    elif isinstance(axis, tuple):
        n = 1
        for x in axis:
            n *= a.shape[x]
    else:
        n = a.shape[axis]
    s = sum_(wrap(a, "f") if not isinstance(a, SymArray) else a, axis=axis,
             keepdims=keepdims)
    r = s / n
    if out is not None:
        out[...] = r
        return out
    return r


@shimfn
def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = asarray(a)
    if not isinstance(a, SymArray):
        a = wrap(a, "f")
    m = mean(a, axis=axis, keepdims=True)
    d = a - m
    if a._tag == "c":
        d2 = real(d * d.conj())
    else:
        d2 = d * d
    n = a.size if axis is None else (
        a.shape[axis] if not isinstance(axis, tuple) else
        int(np.prod([a.shape[x] for x in axis])))
    return sum_(d2, axis=axis, keepdims=keepdims) / (n - ddof)


@shimfn
def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    v = var(a, axis=axis, ddof=ddof, keepdims=keepdims)
    return sqrt_any(v)


def sqrt_any(v):
    return sym_ufunc(np.sqrt, "__call__", (v,), {})


@shimfn
def trace(a, offset=0, axis1=0, axis2=1, dtype=None, out=None):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return np.trace(a, offset, axis1, axis2)
    d = plain(a).diagonal(offset, axis1, axis2)
    return sum_(_mk(np.array(d), a._tag), axis=-1)


def _minmax(op):
    def f(a, axis=None, out=None, keepdims=False, initial=None, where=True,
          **k):
        a = asarray(a)
        if initial is np._NoValue:
            initial = None
        if where is not True:
            if initial is None:
                raise ValueError("reduction operation has no identity, so to "
                                 "use a where mask one has to specify "
                                 "'initial'")
            a = SHIM.where(where, a, initial)
        if not isinstance(a, SymArray):
            kw = {} if initial is None else {"initial": initial}
            return rewrap(getattr(np, op)(a, axis=axis, keepdims=keepdims,
                                          **kw))
        if a.size == 0 and initial is None:
            raise ValueError("zero-size array to reduction operation")
        kw = dict(axis=axis, keepdims=keepdims)
        if initial is not None:
            kw["initial"] = initial
        if out is not None:
            kw["out"] = (out,)
        return sym_ufunc(np.maximum if op == "max" else np.minimum, "reduce",
                         (a,), kw)
    return f


SHIM_FUNCS["max"] = SHIM_FUNCS["amax"] = SHIM_FUNCS["nanmax"] = _minmax("max")
SHIM_FUNCS["min"] = SHIM_FUNCS["amin"] = SHIM_FUNCS["nanmin"] = _minmax("min")


def _argbest(xs, better):
    b = 0
    for i in range(1, len(xs)):
        if bool(better(S.lift(xs[i]), xs[b])):
            b = i
    return b


def _argfun(op):
    better = (lambda x, y: x < y) if op == "argmin" else (lambda x, y: x > y)

    def f(a, axis=None, out=None, **k):
        a = asarray(a)
        if not isinstance(a, SymArray):
            return getattr(np, op)(a, axis=axis)
        if a.size == 0:
            raise ValueError("attempt to get %s of an empty sequence" % op)
        if axis is None:
            return np.int64(_argbest(list(plain(a).reshape(-1)), better))
        return np.apply_along_axis(
            lambda v: _argbest(list(v), better), axis, plain(a)).astype(int)
    return f


SHIM_FUNCS["argmin"] = SHIM_FUNCS["nanargmin"] = _argfun("argmin")
SHIM_FUNCS["argmax"] = SHIM_FUNCS["nanargmax"] = _argfun("argmax")


def _sorted_idx(xs):
    idx = []
    for i in range(len(xs)):
        j = len(idx)
        while j > 0 and bool(S.lift(xs[i]) < xs[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return idx


@shimfn
def argsort(a, axis=-1, kind=None, order=None, **k):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return np.argsort(a, axis=axis, kind=kind or "stable")
    return np.apply_along_axis(lambda v: np.array(_sorted_idx(list(v))),
                               axis if axis is not None else 0,
                               plain(a) if axis is not None else
                               plain(a).reshape(-1)).astype(int)


@shimfn
def sort(a, axis=-1, kind=None, order=None, **k):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return np.sort(a, axis=axis)
    idx = argsort(a, axis=axis)
    return rewrap(np.take_along_axis(plain(a), idx, axis), a._tag)


@shimfn(names=["all"])
def all_(a, axis=None, out=None, keepdims=False, where=True, **k):
    a = asarray(a)
    if where is not True:
        a = SHIM.where(where, a, True)
    if not isinstance(a, SymArray):
        return np.all(a, axis=axis, keepdims=keepdims)
    if axis is None and not keepdims:
        return sc.b_all(list(plain(a).reshape(-1)))
    return sym_ufunc(np.logical_and, "reduce", (a,),
                     dict(axis=axis, keepdims=keepdims))


@shimfn(names=["any"])
def any_(a, axis=None, out=None, keepdims=False, where=True, **k):
    a = asarray(a)
    if where is not True:
        a = SHIM.where(where, a, False)
    if not isinstance(a, SymArray):
        return np.any(a, axis=axis, keepdims=keepdims)
    if axis is None and not keepdims:
        return sc.b_any(list(plain(a).reshape(-1)))
    return sym_ufunc(np.logical_or, "reduce", (a,),
                     dict(axis=axis, keepdims=keepdims))


def _close(a, b, rtol, atol, equal_nan=False):
    a, b = S.lift(a), S.lift(b)
    if not isinstance(a, S) or not isinstance(b, S):
        if isinstance(a, S) or isinstance(b, S):
            return False
        if a != a and b != b:
            return equal_nan
        return a == b
    d = a - b
    if not d.p:
        return True
    return sc.s_abs(d) <= S.lift(atol) + S.lift(rtol) * sc.s_abs(b)


@shimfn
def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    f = np.frompyfunc(lambda x, y: _close(x, y, rtol, atol, equal_nan), 2, 1)
    r = f(to_obj_lifted(a), to_obj_lifted(b))
    if isinstance(r, np.ndarray):
        return wrap(r, "b")
    return r


@shimfn
def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = isclose(a, b, rtol, atol, equal_nan)
    return all_(r) if isinstance(r, np.ndarray) else r


@shimfn
def array_equal(a1, a2, equal_nan=False):
    a1, a2 = asarray(a1), asarray(a2)
    if a1.shape != a2.shape:
        return False
    return all_(asarray(a1 == a2))


@shimfn
def array_equiv(a1, a2):
    return all_(asarray(a1) == asarray(a2))


@shimfn
def where(cond, *xy):
    if isinstance(cond, (bool, np.bool_, SymBool)):
        c = np.array(bool(cond))
    else:
        c = asarray(cond)
        if isinstance(c, SymArray):
            c = np.array([bool(x) for x in plain(c).reshape(-1)],
                         dtype=bool).reshape(c.shape)
    if not xy:
        return np.where(c)
    x, y = [to_obj_lifted(v) for v in xy]
    r = np.where(c, x, y)
    t = promote([in_tag(v) for v in xy])
    return wrap(r, t if t in "fc" else None)


@shimfn
def nonzero(a):
    a = asarray(a)
    if isinstance(a, SymArray):
        a = np.array([bool(x != 0) if isinstance(x, S) else bool(x)
                      for x in plain(a).reshape(-1)]).reshape(a.shape)
    return np.nonzero(a)


@shimfn
def argwhere(a):
    return np.transpose(nonzero(a))


@shimfn
def flatnonzero(a):
    return nonzero(asarray(a).ravel())[0]


@shimfn
def count_nonzero(a, axis=None, **k):
    if axis is not None:
        raise Unsupported("count_nonzero axis")
    return len(nonzero(a)[0])


@shimfn(names=["conj", "conjugate"])
def conj(x, out=None, **k):
    if isinstance(x, (list, tuple)):
        x = asarray(x)
    if not has_sym(x) and (out is None or not has_sym(out)):
        return np.conj(x, out)
    kw = {}
    if out is not None:
        kw["out"] = out if isinstance(out, tuple) else (out,)
    return sym_ufunc(np.conjugate, "__call__", (x,), kw)


@shimfn
def clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get("min", a_min)
    a_max = k.get("max", a_max)
    r = asarray(a)
    if a_min is not None:
        r = sym_ufunc(np.maximum, "__call__", (r, a_min), {})
    if a_max is not None:
        r = sym_ufunc(np.minimum, "__call__", (r, a_max), {})
    if out is not None:
        out[...] = r
        return out
    return r


@shimfn(names=["round", "around"])
def round_(a, decimals=0, out=None):
    def f(x):
        x = S.lift(x)
        if x.is_const():
            from fractions import Fraction
            return S.lift(round(Fraction(x.const()), decimals))
        raise Unsupported("round of symbolic value")
    r = np.frompyfunc(f, 1, 1)(to_obj_lifted(a))
    return rewrap(r) if isinstance(r, np.ndarray) else r


@shimfn
def einsum(subscripts, *ops, out=None, optimize=False, dtype=None, **k):
    if not isinstance(subscripts, str):
        # einsum(op0, [labels], op1, [labels], ..., [output labels])
        args = [subscripts] + list(ops)
        ab = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
        word = lambda x: "".join("..." if i is Ellipsis else ab[int(i)]
                                 for i in x)
        n = len(args) // 2
        subscripts = ",".join(word(args[2 * i + 1]) for i in range(n))
        if len(args) % 2:
            subscripts += "->" + word(args[-1])
        ops = [args[2 * i] for i in range(n)]
    ops = [asarray(o) for o in ops]
    tags = [in_tag(o) for o in ops]
    objs = [to_obj_lifted(o) for o in ops]
    s = subscripts.replace(" ", "")
    if "->" in s:
        ins, outs = s.split("->")
    else:
        ins = s
        outs = None
    ins = ins.split(",")
    if len(ins) != len(objs):
        raise ValueError("einsum: number of operands")
    nell = 0
    for t, o in zip(ins, objs):
        if "..." in t:
            nell = max(nell, o.ndim - len(t.replace("...", "")))
    ell = [chr(0x2460 + i) for i in range(nell)]
    full = []
    for t, o in zip(ins, objs):
        if "..." in t:
            m = o.ndim - len(t.replace("...", ""))
            t = t.replace("...", "".join(ell[nell - m:]))
        if len(t) != o.ndim:
            raise ValueError("einstein sum subscripts string contains too "
                             "many subscripts for operand")
        full.append(t)
    if outs is None:
        cnt = {}
        for t in full:
            for ch in t:
                cnt[ch] = cnt.get(ch, 0) + 1
        outs = "".join(ell) + "".join(
            sorted(ch for ch in cnt if cnt[ch] == 1 and ch not in ell))
    else:
        outs = outs.replace("...", "".join(ell))
    dims = {}
    for t, o in zip(full, objs):
        for ch, n in zip(t, o.shape):
            if dims.setdefault(ch, n) != n and 1 not in (dims[ch], n):
                raise ValueError("operands could not be broadcast together")
            dims[ch] = max(dims[ch], n) if n != 0 else 0
    # contract pairwise from the left to keep the terms small
    cur, cur_t = objs[0], full[0]
    cur, cur_t = _diag_sum(cur, cur_t, set("".join(full[1:])) | set(outs),
                           dims)
    for i in range(1, len(objs)):
        later = set("".join(full[i + 1:])) | set(outs)
        cur, cur_t = _contract(cur, cur_t, objs[i], full[i], later, dims)
    # order the output
    perm = [cur_t.index(ch) for ch in outs]
    r = cur.transpose(perm) if cur.ndim else cur
    tag = promote(tags + (["f"] if any(t in "fc" for t in tags) else []))
    if out is not None:
        out[...] = wrap(np.array(r), tag)
        return out
    if r.ndim == 0:
        return cast_scalar(r[()], tag) if tag in "fc" else int(r[()])
    return wrap(np.array(r), tag)


def _diag_sum(a, t, keep, dims):
    letters = list(dict.fromkeys(t))
    res_l = [ch for ch in letters if ch in keep]
    sum_l = [ch for ch in letters if ch not in keep]
    if len(letters) == len(t) and not sum_l:
        return a, t
    r = np.empty([dims[ch] for ch in res_l], dtype=object)
    for idx in np.ndindex(*r.shape):
        env = dict(zip(res_l, idx))
        acc = S({})
        for si in itertools.product(*[range(dims[ch]) for ch in sum_l]):
            env.update(zip(sum_l, si))
            acc = acc + a[tuple(min(env[ch], a.shape[k] - 1)
                                for k, ch in enumerate(t))]
        r[idx] = acc
    return r, "".join(res_l)


def _contract(a, ta, b, tb, keep, dims):
    letters = list(dict.fromkeys(ta + tb))
    res_l = [ch for ch in letters if ch in keep]
    sum_l = [ch for ch in letters if ch not in keep]
    r = np.empty([dims[ch] for ch in res_l], dtype=object)
    for idx in np.ndindex(*r.shape):
        env = dict(zip(res_l, idx))
        acc = S({})
        for si in itertools.product(*[range(dims[ch]) for ch in sum_l]):
            env.update(zip(sum_l, si))
            x = a[tuple(min(env[ch], a.shape[k] - 1)
                        for k, ch in enumerate(ta))]
            y = b[tuple(min(env[ch], b.shape[k] - 1)
                        for k, ch in enumerate(tb))]
            if (isinstance(x, S) and not x.p) or (isinstance(y, S)
                                                  and not y.p):
                continue
            acc = acc + x * y
        r[idx] = acc
    return r, "".join(res_l)


@shimfn
def matmul(a, b, out=None, **k):
    kw = {"out": (out,)} if out is not None else {}
    a, b = asarray(a), asarray(b)
    if not has_sym((a, b)):
        return np.matmul(a, b)
    return sym_ufunc(np.matmul, "__call__", (a, b), kw)


@shimfn
def dot(a, b, out=None):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        r = a * b
    elif a.ndim <= 2 and b.ndim <= 2:
        r = matmul(a, b)
    else:
        r = rewrap(np.dot(to_obj_lifted(a), to_obj_lifted(b)),
                   promote([in_tag(a), in_tag(b)]))
    if out is not None:
        out[...] = r
        return out
    return r


@shimfn
def linear_kron(a, b):
    return None


@shimfn
def kron(a, b):
    a, b = asarray(a), asarray(b)
    if not has_sym((a, b)):
        return np.kron(a, b)
    tag = promote([in_tag(a), in_tag(b)])
    A, B = to_obj_lifted(a), to_obj_lifted(b)
    nd = max(A.ndim, B.ndim)
    A = A.reshape((1,) * (nd - A.ndim) + A.shape)
    B = B.reshape((1,) * (nd - B.ndim) + B.shape)
    shp = tuple(x * y for x, y in zip(A.shape, B.shape))
    r = np.empty(shp, dtype=object)
    for i in np.ndindex(*A.shape):
        sl = tuple(slice(k * n, (k + 1) * n) for k, n in zip(i, B.shape))
        r[sl] = np.frompyfunc(lambda y: A[i] * y, 1, 1)(B)
    return wrap(r, tag)


@shimfn
def fill_diagonal(a, val, wrap=False):
    if a.ndim != 2:
        raise Unsupported("fill_diagonal ndim")
    n = min(a.shape)
    v = asarray(val)
    for i in range(n):
        a[i, i] = v.reshape(-1)[i % v.size]


@shimfn
def vectorize(pyfunc, *a, **k):
    if k.get("signature"):
        raise Unsupported("vectorize with a signature")

    def f(*args, **kw):
        objs = [to_obj_lifted(x) for x in args]
        bs = np.broadcast_arrays(*objs)
        r = np.empty(bs[0].shape, dtype=object)
        for i in np.ndindex(*bs[0].shape):
            r[i] = pyfunc(*[b[i] for b in bs], **kw)
        ot = k.get("otypes", a[0] if a else None)
        if ot is None and r.size and isinstance(
                r.flat[0], (bool, int, np.integer)):
            # numpy takes the dtype of the first result
            if not all(isinstance(v, (bool, int, np.integer))
                       for v in r.flat):
                raise Unsupported("vectorize casts to integers")
        if r.ndim == 0:
            return r[()]
        return wrap(to_obj_lifted(r), "f" if ot is not None and np.dtype(
            (list(ot) if not isinstance(ot, str) else ot)[0]).kind == "f"
            else None)
    return f


@shimfn
def apply_along_axis(func1d, axis, arr, *args, **kwargs):
    arr = asarray(arr)
    if not isinstance(arr, SymArray):
        return rewrap(np.apply_along_axis(func1d, axis, arr, *args,
                                          **kwargs))
    m = SHIM.moveaxis(arr, axis, -1)
    res = []
    for i in np.ndindex(*m.shape[:-1]):
        v = func1d(m[i], *args, **kwargs)
        if isinstance(v, S):
            z = np.empty((), dtype=object)
            z[()] = v
            v = z
        res.append(v if isinstance(v, np.ndarray) else asarray(v))
    r = np.empty(m.shape[:-1] + res[0].shape, dtype=object)
    for i, x in zip(np.ndindex(*m.shape[:-1]), res):
        x = asobj(x)
        r[i] = x[()] if x.ndim == 0 else x
    r = wrap(r)
    return SHIM.moveaxis(r, -1, axis) if res[0].ndim else r


@shimfn
def unique(a, **k):
    if has_sym(a):
        if k:
            raise Unsupported("unique options")
        xs = []
        for x in asarray(a).reshape(-1):
            if not any(bool(x == y) for y in xs):
                xs.append(x)
        return sort(wrap_list(xs))
    return rewrap(np.unique(a, **k))


@shimfn
def isscalar(x):
    return isinstance(x, (S, SymBool)) or np.isscalar(x)


@shimfn
def shape(a):
    return asarray(a).shape


@shimfn
def ndim(a):
    return asarray(a).ndim


@shimfn
def size(a, axis=None):
    a = asarray(a)
    return a.size if axis is None else a.shape[axis]


@shimfn
def iscomplexobj(x):
    return in_tag(asarray(x)) == "c"


@shimfn
def isrealobj(x):
    return not iscomplexobj(x)


@shimfn
def may_share_memory(a, b, **k):
    return np.may_share_memory(plain(a), plain(b))


@shimfn
def shares_memory(a, b, **k):
    return np.shares_memory(plain(a), plain(b))


@shimfn
def result_type(*a):
    tags = [tag_of_dtype(x) if isinstance(x, (type, np.dtype, str))
            else in_tag(x) for x in a]
    return np.dtype({"f": float, "c": complex, "i": int, "b": bool}[
        promote(tags)])


@shimfn
def interp(x, xp, fp_, left=None, right=None, period=None):
    xp, fpp = list(asarray(xp)), list(asarray(fp_))

    def one(v):
        v = S.lift(v)
        if bool(v < xp[0]):
            return fpp[0] if left is None else left
        if bool(v > xp[-1]):
            return fpp[-1] if right is None else right
        for i in range(len(xp) - 1):
            if bool(v <= xp[i + 1]):
                return fpp[i] + (fpp[i + 1] - fpp[i]) * (v - xp[i]) / (
                    xp[i + 1] - xp[i])
        return fpp[-1]
    r = np.frompyfunc(one, 1, 1)(to_obj_lifted(x))
    return rewrap(r) if isinstance(r, np.ndarray) else r


@shimfn
def searchsorted(a, v, side="left", sorter=None):
    xs = list(asarray(a))

    def one(y):
        n = 0
        for x in xs:
            c = (x < y) if side == "left" else (x <= y)
            if bool(c):
                n += 1
            else:
                break
        return n
    if isinstance(v, (S, int, float)):
        return one(S.lift(v))
    return np.array([one(y) for y in asarray(v).reshape(-1)])


@shimfn(names=["isin", "in1d"])
def isin(el, test, **k):
    if has_sym(el) or has_sym(test):
        raise Unsupported("isin")
    return np.isin(el, test, **k)


@shimfn
def put(a, ind, v, mode="raise"):
    f = plain(a)
    np.put(f, ind, cast_value(v, a._tag))


@shimfn
def copyto(dst, src, casting="same_kind", where=True):
    if where is not True:
        dst[...] = SHIM.where(where, src, dst)
    else:
        dst[...] = src


@shimfn
def matrix(a, dtype=None, copy=True):
    # a two dimensional array; the operator "*" of np.matrix is not modelled
    a = SHIM.array(a, dtype=dtype)
    return a if a.ndim == 2 else a.reshape(1, -1)


@shimfn
def median(a, axis=None, keepdims=False):
    a = asarray(a)
    if axis is None:
        a, axis = SHIM.ravel(a), 0
    a = SHIM.moveaxis(SHIM.sort(a, axis=axis), axis, 0)
    n = a.shape[0]
    return (a[(n - 1) // 2] + a[n // 2]) / 2


@shimfn
def ptp(a, axis=None):
    return SHIM.max(a, axis=axis) - SHIM.min(a, axis=axis)


@shimfn
def select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = SHIM.where(c, v, r)
    return r


@shimfn
def extract(condition, arr):
    return SHIM.ravel(arr)[SHIM.ravel(condition)]


@shimfn
def frompyfunc(func, nin, nout):
    return SHIM.vectorize(func)


@shimfn
def piecewise(x, condlist, funclist, *args, **kw):
    x = asarray(x)
    conds = [asarray(c) for c in condlist]
    r = SHIM.zeros_like(x)
    for i in np.ndindex(*x.shape):
        which = len(conds)
        for k, c in enumerate(conds):
            if bool(c[i]):
                which = k
        if which < len(funclist):
            f = funclist[which]
            r[i] = f(x[i], *args, **kw) if callable(f) else f
    return r


@shimfn
def fromiter(iter, dtype=float, count=-1, **k):
    it = list(iter)
    return asarray(it if count < 0 else it[:count], dtype=dtype)


@shimfn
def gradient(f, *spacing, axis=None, edge_order=1):
    f = asarray(f)
    if f.ndim != 1 or edge_order != 1 or len(spacing) > 1 or (
            spacing and np.ndim(spacing[0]) != 0):
        raise Unsupported("gradient of this kind")
    h = spacing[0] if spacing else 1
    n = len(f)
    return wrap_list([(f[min(k + 1, n - 1)] - f[max(k - 1, 0)])
                      / (h * (min(k + 1, n - 1) - max(k - 1, 0)))
                      for k in range(n)])


class _RClass:
    """np.r_ and np.c_ without slices and directives."""

    def __init__(self, real, columns):
        self.real = real
        self.columns = columns

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if not has_sym(key):
            return rewrap(self.real[key])
        if any(isinstance(k, (str, slice)) for k in key):
            raise Unsupported("r_ with slices")
        if self.columns:
            return SHIM.column_stack([SHIM.atleast_1d(k) for k in key])
        return SHIM.concatenate([SHIM.atleast_1d(k) for k in key])


# -- linalg -------------------------------------------------------------------


def l_norm(x, ord=None, axis=None, keepdims=False):
    x = asarray(x)
    if any(sc.is_inf(e) for e in to_obj_lifted(x).reshape(-1)):
        if ord is None and axis is None and not keepdims:
            es = [float(abs(e)) for e in to_obj_lifted(x).reshape(-1)
                  if sc.is_inf(e)]
            return float("nan") if any(e != e for e in es) else es[0]
        raise Unsupported("norm of infinite values")
    if isinstance(ord, str) and ord not in ("fro", "nuc"):
        raise ValueError("Invalid norm order for matrices.")
    if axis is not None or keepdims:
        if axis is None:
            if ord is not None:
                axis = 0 if x.ndim == 1 else (0, 1)
            else:
                axis = tuple(range(x.ndim))
        if isinstance(axis, (tuple, list)) and len(axis) == 1:
            axis = axis[0]
        if not isinstance(axis, (tuple, list)):
            if ord == 1:
                return sum_(SHIM.abs(x), axis=axis, keepdims=keepdims)
            if ord == np.inf:
                return SHIM.max(SHIM.abs(x), axis=axis, keepdims=keepdims)
            if ord not in (None, 2):
                raise Unsupported("norm axis/ord")
        elif ord in (1, np.inf):
            i, j = [k % x.ndim for k in axis]
            if ord == np.inf:
                i, j = j, i
            return SHIM.max(sum_(SHIM.abs(x), axis=i, keepdims=True),
                            axis=(i, j), keepdims=keepdims)
        elif ord not in (None, "fro"):
            raise Unsupported("norm axis/ord")
        else:
            axis = tuple(axis)
        r = sum_(real(x * conj(x)), axis=axis, keepdims=keepdims)
        return sqrt_any(r)
    if ord is None or (ord == "fro" and x.ndim == 2) or (
            ord == 2 and x.ndim == 1):
        tot = S({})
        for e in to_obj_lifted(x).reshape(-1):
            tot = tot + sc.s_abs2(S.lift(e))
        return sc.s_sqrt(tot)
    if ord == "fro":
        raise ValueError("Invalid norm order 'fro' for vectors")
    if ord == 1 and x.ndim == 2:
        return SHIM.max(sum_(SHIM.abs(x), axis=0))
    if ord == np.inf and x.ndim == 2:
        return SHIM.max(sum_(SHIM.abs(x), axis=1))
    if ord == 1:
        return sum_(SHIM.abs(x))
    if ord == np.inf:
        return SHIM.max(SHIM.abs(x))
    if ord == 2 and x.ndim == 2 and 1 in x.shape:
        return l_norm(x)
    raise Unsupported("norm ord %r" % (ord,))


def l_det(a):
    a = to_obj_lifted(asarray(a))
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    tot = S({})
    for j in range(n):
        minor = np.delete(np.delete(a, 0, 0), j, 1)
        tot = tot + a[0, j] * l_det(minor) * (-1) ** j
    return tot


def l_inv(a):
    a = asarray(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise Unsupported("inv of stacked / non square arrays")
    key = tuple(S.lift(x).key() for x in plain_lift(a).reshape(-1))
    hook = HOOKS.get("inv")
    if hook is not None:
        r = hook(a, key)
        if r is not None:
            return r
    n = a.shape[0]
    o = to_obj_lifted(a)
    d = l_det(a)
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(o, j, 0), i, 1)
            r[i, j] = l_det(minor) * (-1) ** (i + j) / d if n > 1 else \
                1 / S.lift(o[0, 0])
    return wrap(r, in_tag(a) if in_tag(a) in "fc" else "f")


def plain_lift(a):
    return to_obj_lifted(asarray(a))


def l_solve(a, b):
    return matmul(l_inv(a), asarray(b))


def l_matrix_power(a, n):
    a = asarray(a)
    r = eye(a.shape[0], dtype=complex if in_tag(a) == "c" else float)
    if n < 0:
        a, n = l_inv(a), -n
    for _ in range(n):
        r = matmul(r, a)
    return r


def l_multi_dot(arrays, out=None):
    r = arrays[0]
    for a in arrays[1:]:
        r = dot(r, a)
    return r


HOOKS = {}


def hooked(name):
    def f(*a, **k):
        h = HOOKS.get(name)
        if h is None:
            raise Unsupported(name + " has no contract in this harness")
        return h(*a, **k)
    return f


class _NS:
    def __init__(self, name, real, table):
        self.__dict__["_n"] = name
        self.__dict__["_r"] = real
        self.__dict__.update(table)

    def __getattr__(self, k):
        v = getattr(self._r, k)
        if isinstance(v, type) or not callable(v):
            return v
        return guarded(self._n + "." + k, v)


def guarded(name, fn):
    if isinstance(fn, np.ufunc):
        def g(*a, **k):
            if has_sym(a) or has_sym(k) or any(
                    isinstance(x, (float, complex)) for x in a):
                m = dict(k)
                return sym_ufunc(fn, "__call__", a, m)
            return rewrap(fn(*a, **k))
        return g

    def f(*a, **k):
        if has_sym(a) or has_sym(k):
            raise Unsupported(name + " on symbolic values")
        return rewrap(fn(*a, **k))
    return f


# -- fft ----------------------------------------------------------------------


def root_of_unity(k, n):
    """exp(2 pi i k / n), exact for n dividing 8 or 12."""
    p = sc.pi()
    from fractions import Fraction
    return sc.s_exp(S.lift(1j) * p * Fraction(2 * k, n))


def f_fft(a, n=None, axis=-1, norm=None, sign=-1):
    a = asarray(a)
    if n is None:
        n = a.shape[axis]
    m = plain(SHIM.moveaxis(asarray(a, dtype=complex), axis, -1))
    L = m.shape[-1]
    r = np.empty(m.shape[:-1] + (n,), dtype=object)
    w = [root_of_unity(sign * j, n) for j in range(n)]
    for i in np.ndindex(*m.shape[:-1]):
        for k in range(n):
            tot = S({}, True)
            for t in range(min(L, n)):
                tot = tot + m[i + (t,)] * w[(k * t) % n]
            if (sign > 0 and norm in (None, "backward")) or (
                    sign < 0 and norm == "forward"):
                tot = tot / n
            elif norm == "ortho":
                tot = tot / sc.s_sqrt(S.lift(n))
            r[i + (k,)] = tot
    return SHIM.moveaxis(wrap(r, "c"), -1, axis)


def f_ifft(a, n=None, axis=-1, norm=None):
    return f_fft(a, n, axis, norm, sign=1)


def f_rfft(a, n=None, axis=-1, norm=None, out=None):
    if n is None:
        n = asarray(a).shape[axis]
    r = f_fft(a, n, axis, norm)
    r = SHIM.moveaxis(SHIM.moveaxis(r, axis, -1)[..., :n // 2 + 1], -1, axis)
    return r


def f_irfft(a, n=None, axis=-1, norm=None, out=None):
    a = asarray(a, dtype=complex)
    m = SHIM.moveaxis(a, axis, -1)
    if n is None:
        n = 2 * (m.shape[-1] - 1)
    nf = n // 2 + 1
    o = plain(m)
    full_ = np.empty(o.shape[:-1] + (n,), dtype=object)
    for i in np.ndindex(*o.shape[:-1]):
        half = [o[i + (k,)] if k < o.shape[-1] else S({}, True)
                for k in range(nf)]
        half[0] = half[0].real
        if n % 2 == 0 and nf > 1:
            half[-1] = half[-1].real
        for k in range(n):
            full_[i + (k,)] = half[k] if k < nf else half[n - k].conjugate()
    r = f_fft(wrap(full_, "c"), n, -1, norm, sign=1)
    return SHIM.moveaxis(r.real, -1, axis)


def f_rfftfreq(n, d=1.0):
    return wrap_list([S.lift(k) / (S.lift(d) * n) for k in
                      range(n // 2 + 1)])


def f_fftfreq(n, d=1.0):
    ks = list(range(0, (n - 1) // 2 + 1)) + list(range(-(n // 2), 0))
    return wrap_list([S.lift(k) / (S.lift(d) * n) for k in ks])


def f_shift(sign):
    def f(x, axes=None):
        x = asarray(x)
        if axes is None:
            axes = tuple(range(x.ndim))
        if isinstance(axes, int):
            axes = (axes,)
        for k in axes:
            n = x.shape[k]
            x = SHIM.roll(x, n // 2 if sign > 0 else -(n // 2), axis=k)
        return x
    return f


# -- random -------------------------------------------------------------------


def draw(kind):
    h = HOOKS.get("draw")
    if h is None:
        raise Unsupported("random numbers without an environment")
    return h(kind)


def draw_shape(kind, shape):
    if shape is None or shape == ():
        return draw(kind)
    if isinstance(shape, (int, np.integer)):
        shape = (int(shape),)
    r = np.empty(tuple(int(x) for x in shape), dtype=object)
    for i in np.ndindex(*r.shape):
        r[i] = draw(kind)
    return wrap(r, "f")


class SymRandom:
    """Random numbers: arbitrary values of the documented range."""

    def rand(self, *shape):
        return draw_shape("u01", shape)

    def randn(self, *shape):
        return draw_shape("normal", shape)

    def random(self, size=None):
        return draw_shape("u01", size)

    random_sample = random
    ranf = random
    sample = random

    def standard_normal(self, size=None):
        return draw_shape("normal", size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return draw_shape("normal", size) * scale + loc

    def uniform(self, low=0.0, high=1.0, size=None):
        return draw_shape("u01", size) * (S.lift(high) - low) + low

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        h = HOOKS.get("drawint")
        if h is None:
            raise Unsupported("randint without an environment")
        if size is None:
            return h(int(low), int(high))
        n = np.empty(size if isinstance(size, tuple) else (size,), dtype=int)
        for i in np.ndindex(*n.shape):
            n[i] = h(int(low), int(high))
        return n.view(IntArray)

    integers = randint

    def choice(self, a, size=None, replace=True, p=None):
        n = int(a) if isinstance(a, (int, np.integer)) else len(a)
        if size is not None:
            raise Unsupported("random.choice with size")
        k = self.randint(0, n)
        return k if isinstance(a, (int, np.integer)) else a[k]

    def seed(self, *a, **k):
        return None

    def default_rng(self, *a, **k):
        return self

    def RandomState(self, *a, **k):
        return self

    def __getattr__(self, k):
        raise Unsupported("np.random." + k)


# -- module -------------------------------------------------------------------

CLASS_MAP = {
    "float64": symfloat64, "complex128": symcomplex128,
    "float_": symfloat64, "double": symfloat64, "cdouble": symcomplex128,
}


class NpShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.linalg = _NS("linalg", np.linalg, {
            "norm": l_norm, "det": l_det, "inv": l_inv, "solve": l_solve,
            "matrix_power": l_matrix_power, "multi_dot": l_multi_dot,
            "eig": hooked("eig"), "eigh": hooked("eigh"),
            "svd": hooked("svd"), "eigvals": hooked("eigvals"),
            "eigvalsh": hooked("eigvalsh"), "pinv": hooked("pinv"),
            "qr": hooked("qr"),
            "trace": trace,
        })
        self.fft = _NS("fft", np.fft, {
            "fft": f_fft, "ifft": f_ifft, "rfft": f_rfft, "irfft": f_irfft,
            "rfftfreq": f_rfftfreq, "fftfreq": f_fftfreq,
            "fftshift": f_shift(1), "ifftshift": f_shift(-1),
        })
        self.random = SymRandom()
        self.r_, self.c_ = _RClass(np.r_, False), _RClass(np.c_, True)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        if k == "pi":
            return sc.pi()
        if k == "e":
            return sc.s_exp(S.lift(1))
        if k in CLASS_MAP:
            return CLASS_MAP[k]
        if k in SHIM_FUNCS:
            return SHIM_FUNCS[k]
        v = getattr(np, k)
        if isinstance(v, np.ufunc):
            w = UfuncProxy(v)
            self.__dict__[k] = w
            return w
        if isinstance(v, type) or isinstance(v, types.ModuleType) or \
                not callable(v):
            if isinstance(v, float) and (v != v or abs(v) == math.inf):
                return v
            return v
        f = lambda *a, **kw: call_np(v, a, kw)
        f.__name__ = k
        self.__dict__[k] = f
        return f

    @property
    def abs(self):
        return UfuncProxy(np.absolute)


class UfuncProxy:
    """ufunc with symbolic semantics also for floats and lists."""

    def __init__(self, uf):
        self.uf = uf
        self.__name__ = uf.__name__

    def _prep(self, a):
        return tuple(asarray(x) if isinstance(x, (list, tuple)) else x
                     for x in a)

    def __call__(self, *a, **k):
        a = self._prep(a)
        out = k.get("out")
        if out is not None and not isinstance(out, tuple):
            k["out"] = (out,)
        elif out is None and len(a) > self.uf.nin:
            k["out"] = (a[self.uf.nin],)
            a = a[:self.uf.nin]
        ints = all(isinstance(x, (int, np.integer, bool, np.bool_)) or
                   (isinstance(x, np.ndarray) and not isinstance(x, SymArray)
                    and x.dtype.kind in "iub") for x in a)
        name = self.uf.__name__
        if ints and name in ("add", "subtract", "multiply", "maximum",
                             "minimum", "absolute", "equal", "not_equal",
                             "less", "greater", "less_equal",
                             "greater_equal", "logical_and", "logical_or",
                             "logical_not", "negative", "square",
                             "remainder", "floor_divide", "power",
                             "conjugate", "sign") and "out" not in k:
            return self.uf(*a, **k)
        if any(isinstance(x, np.ndarray) and not isinstance(x, SymArray) and
               x.dtype == object and
               (x.size == 0 or infer_tag(x) == "o") for x in a):
            return self.uf(*a, **k)
        return sym_ufunc(self.uf, "__call__", a, k)

    def _m(self, method, *a, **k):
        a = (asarray(a[0]),) + a[1:]
        if not has_sym(a):
            return getattr(self.uf, method)(*a, **k)
        if method in ("reduce", "accumulate") and len(a) > 1:
            k["axis"] = a[1]
            a = a[:1]
        return sym_ufunc(self.uf, method, a, k)

    def reduce(self, *a, **k):
        return self._m("reduce", *a, **k)

    def accumulate(self, *a, **k):
        return self._m("accumulate", *a, **k)

    def outer(self, *a, **k):
        return self._m("outer", *a, **k)

    def reduceat(self, *a, **k):
        return self._m("reduceat", *a, **k)

    def at(self, *a, **k):
        return self._m("at", *a, **k)


SHIM = NpShim()

from . import npmore  # noqa: E402,F401
