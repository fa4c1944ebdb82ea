"""Models of the scipy and math functions the code under test may call."""
import functools
import types

import numpy as np
import scipy as real_scipy
import scipy.linalg
import scipy.ndimage
import scipy.optimize
import scipy.signal
import scipy.sparse
import scipy.special
import scipy.constants
import scipy.stats

from . import npshim as ns
from . import scalar as sc
from .scalar import S, SymBool, Unsupported


# ---------------------------------------------------------------------------
# matrix exponential: uninterpreted entries keyed by the argument, with the
# Frechet derivative as its (linear) derivative rule


def mat_key(o):
    return (o.shape[0],) + tuple(x.key() for x in o.reshape(-1))


def mat_eval(o, asg):
    r = np.empty(o.shape, dtype=complex)
    for i in np.ndindex(*o.shape):
        r[i] = o[i].evalf(asg)
    return r


def mat_atoms(o):
    out = set()
    for x in o.reshape(-1):
        out |= x.atoms()
    return out


def _mat_group(kind, key, o, i, j, evalmat, dfun, realval):
    """Complex entry (i, j) of an uninterpreted matrix function of o."""
    sp = sc.space()
    deps = tuple(mat_atoms(o))
    parts = []
    for part in (("re",) if realval else ("re", "im")):
        a, new = sp.atom(kind, (key, i, j, part))
        if new:
            a.deps = deps
            a.info = ("cong", (kind, i, j, part), key,
                      [x.p for x in o.reshape(-1)])

            def ev(asg, i=i, j=j, part=part):
                k = (kind, key)
                m = asg.extra.get(k)
                if m is None:
                    m = asg.extra[k] = evalmat(asg)
                v = m[i, j]
                return float(v.real if part == "re" else v.imag)
            a.evalf = ev
            if dfun is not None:
                a.dfun = (lambda v, part=part: getattr(
                    dfun(v, i, j), "real" if part == "re" else "imag"))
        parts.append(S({((a.id, 1),): 1}))
    if realval:
        return parts[0]
    return parts[0] + parts[1] * S.lift(1j)


def square(a):
    a = ns.asarray(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise ValueError("expected a square matrix")
    return a


def expm(A):
    A = ns.asarray(A)
    if A.ndim == 3:
        return ns.SHIM.stack([expm(x) for x in A])
    a = square(A)
    tag = ns.in_tag(a)
    o = ns.to_obj_lifted(a)
    n = o.shape[0]
    if all(not x.p for x in o.reshape(-1)):
        return ns.eye(n, dtype=complex if tag == "c" else float)
    key = mat_key(o)
    realval = all(x.is_real_valued() for x in o.reshape(-1))
    r = np.empty((n, n), dtype=object)

    def dfun(v, i, j):
        tot = S({}, True)
        for k in range(n):
            for l in range(n):
                d = o[k, l].diff(v)
                if d.p:
                    tot = tot + d * frechet_entry(o, key, k, l, i, j, realval)
        return tot

    for i in range(n):
        for j in range(n):
            r[i, j] = _mat_group(
                "expm", key, o, i, j,
                lambda asg: real_scipy.linalg.expm(mat_eval(o, asg)), dfun,
                realval)
    return ns.wrap(r, "c" if tag == "c" else "f")


def frechet_entry(o, key, k, l, i, j, realval):
    n = o.shape[0]

    def ev(asg):
        E = np.zeros((n, n), dtype=complex)
        E[k, l] = 1
        return real_scipy.linalg.expm_frechet(mat_eval(o, asg), E,
                                              compute_expm=False)
    return _mat_group("frechet%d,%d" % (k, l), key, o, i, j, ev, None,
                      realval)


def expm_frechet(A, E, method=None, compute_expm=True, check_finite=True):
    a, e = square(A), square(E)
    if a.shape != e.shape:
        raise ValueError("expected A and E to be the same shape")
    o = ns.to_obj_lifted(a)
    eo = ns.to_obj_lifted(e)
    n = o.shape[0]
    ctag = "c" if "c" in (ns.in_tag(a), ns.in_tag(e)) else "f"
    if all(not x.p for x in o.reshape(-1)):
        L = ns.wrap(eo.copy(), ctag)
    else:
        key = mat_key(o)
        realval = all(x.is_real_valued() for x in o.reshape(-1))
        r = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                tot = S({})
                for k in range(n):
                    for l in range(n):
                        if eo[k, l].p:
                            tot = tot + eo[k, l] * frechet_entry(
                                o, key, k, l, i, j, realval)
                r[i, j] = tot
        L = ns.wrap(r, ctag)
    if compute_expm:
        return expm(A), L
    return L


# ---------------------------------------------------------------------------
# ndimage: linear filters as explicit index sums


def ext_index(i, n, mode):
    """Index of the extended signal; None = constant value."""
    if 0 <= i < n:
        return i
    if mode == "constant" or mode == "grid-constant":
        return None
    if mode == "nearest":
        return 0 if i < 0 else n - 1
    if mode in ("wrap", "grid-wrap"):
        return i % n
    if mode in ("reflect", "grid-mirror"):
        i = i % (2 * n)
        return i if i < n else 2 * n - 1 - i
    if mode == "mirror":
        if n == 1:
            return 0
        i = i % (2 * n - 2)
        return i if i < n else 2 * n - 2 - i
    raise Unsupported("ndimage mode " + str(mode))


def correlate1d(input, weights, axis=-1, output=None, mode="reflect",
                cval=0.0, origin=0):
    a = ns.asarray(input)
    w = list(ns.asarray(weights))
    m = ns.plain_lift(ns.SHIM.moveaxis(a, axis, -1))
    n = m.shape[-1]
    L = len(w)
    c = L // 2 + origin
    r = np.empty(m.shape, dtype=object)
    for idx in np.ndindex(*m.shape[:-1]):
        for i in range(n):
            tot = S({})
            for k in range(L):
                j = ext_index(i + k - c, n, mode)
                v = S.lift(cval) if j is None else m[idx + (j,)]
                tot = tot + w[k] * v
            r[idx + (i,)] = tot
    res = ns.SHIM.moveaxis(ns.wrap(r), -1, axis)
    return store(res, output)


def store(res, output):
    if isinstance(output, np.ndarray):
        output[...] = res
        return output
    if output is not None:
        return res.astype(output)
    return res


def convolve1d(input, weights, axis=-1, output=None, mode="reflect",
               cval=0.0, origin=0):
    w = list(ns.asarray(weights))[::-1]
    origin = -origin
    if len(w) % 2 == 0:
        origin -= 1
    return correlate1d(input, ns.wrap_list(w), axis, output, mode, cval,
                       origin)


def correlate(input, weights, output=None, mode="reflect", cval=0.0,
              origin=0, *, axes=None):
    a, w = ns.asarray(input), ns.asarray(weights)
    if a.ndim != w.ndim:
        raise RuntimeError("filter weights array has incorrect shape.")
    m, wt = ns.plain_lift(a), ns.plain_lift(w)
    org = [origin] * a.ndim if isinstance(origin, int) else list(origin)
    cs = [s // 2 + o for s, o in zip(wt.shape, org)]
    r = np.empty(m.shape, dtype=object)
    for idx in np.ndindex(*m.shape):
        tot = S({})
        for k in np.ndindex(*wt.shape):
            src = [ext_index(i + kk - c, n, mode) for i, kk, c, n in
                   zip(idx, k, cs, m.shape)]
            v = S.lift(cval) if any(s is None for s in src) else \
                m[tuple(src)]
            tot = tot + wt[k] * v
        r[idx] = tot
    return store(ns.wrap(r), output)


def convolve(input, weights, output=None, mode="reflect", cval=0.0,
             origin=0, *, axes=None):
    w = ns.asarray(weights)
    org = [origin] * w.ndim if isinstance(origin, int) else list(origin)
    org = [-o for o in org]
    wf = w[tuple([slice(None, None, -1)] * w.ndim)]
    for i in range(w.ndim):
        if w.shape[i] % 2 == 0:
            org[i] -= 1
    return correlate(input, wf, output, mode, cval, org)


def gauss_weights(sigma, order, radius):
    """scipy's own kernel (numbers) - sigma is a concrete number."""
    from scipy.ndimage import _filters
    return _filters._gaussian_kernel1d(sigma, order, radius)


def gaussian_filter1d(input, sigma, axis=-1, order=0, output=None,
                      mode="reflect", cval=0.0, truncate=4.0, *,
                      radius=None):
    sd = float(sigma)
    lw = int(float(truncate) * sd + 0.5)
    if radius is not None:
        lw = radius
    w = gauss_weights(sd, int(order), lw)[::-1]
    return correlate1d(input, ns.array([float(x) for x in w]), axis, output,
                       mode, cval, 0)


# ---------------------------------------------------------------------------
# special


def ufun(name):
    fn = ns.UF1[name]

    def f(x, out=None):
        r = np.frompyfunc(fn, 1, 1)(ns.to_obj_lifted(x))
        if isinstance(r, np.ndarray):
            return ns.wrap(r, "f")
        return r
    return f


def block_diag(*ms):
    ms = [ns.SHIM.atleast_2d(m) for m in ms]
    c = any(ns.in_tag(m) == "c" for m in ms)
    r = ns.SHIM.zeros((sum(m.shape[0] for m in ms),
                       sum(m.shape[1] for m in ms)),
                      dtype=complex if c else float)
    i = j = 0
    for m in ms:
        r[i:i + m.shape[0], j:j + m.shape[1]] = m
        i, j = i + m.shape[0], j + m.shape[1]
    return r


def toeplitz(c, r=None):
    c = ns.SHIM.ravel(ns.asarray(c))
    r = ns.SHIM.conj(c) if r is None else ns.SHIM.ravel(ns.asarray(r))
    return ns.SHIM.array([[c[i - j] if i >= j else r[j - i]
                           for j in range(len(r))] for i in range(len(c))])


def circulant(c):
    c = ns.SHIM.ravel(ns.asarray(c))
    n = len(c)
    return ns.SHIM.array([[c[(i - j) % n] for j in range(n)]
                          for i in range(n)])


def hankel(c, r=None):
    c = ns.SHIM.ravel(ns.asarray(c))
    r = ns.SHIM.zeros_like(c) if r is None else ns.SHIM.ravel(ns.asarray(r))
    n = len(c)
    return ns.SHIM.array([[c[i + j] if i + j < n else r[i + j - n + 1]
                           for j in range(len(r))] for i in range(n)])


def khatri_rao(a, b):
    a, b = ns.asarray(a), ns.asarray(b)
    return ns.SHIM.stack([ns.kron(a[:, k], b[:, k])
                          for k in range(a.shape[1])], axis=1)


def companion(a):
    a = ns.SHIM.ravel(ns.asarray(a))
    n = len(a) - 1
    return ns.SHIM.array([[-a[j + 1] / a[0] if i == 0 else
                           ns.S.lift(float(i == j + 1)) for j in range(n)]
                          for i in range(n)])


def make_scipy():
    m = types.ModuleType("scipy")
    m.linalg = ns._NS("scipy.linalg", scipy.linalg, {
        "expm": expm, "expm_frechet": expm_frechet,
        "eig": ns.hooked("sci_eig"), "eigh": ns.hooked("sci_eigh"),
        "svd": ns.hooked("sci_svd"), "norm": ns.l_norm, "inv": ns.l_inv,
        "det": ns.l_det, "solve": ns.l_solve, "kron": ns.kron,
        "block_diag": block_diag, "toeplitz": toeplitz,
        "circulant": circulant, "hankel": hankel,
        "khatri_rao": khatri_rao, "companion": companion,
    })
    m.special = ns._NS("scipy.special", scipy.special, {
        "erf": ufun("erf"), "erfinv": ufun("erfinv"), "erfc": ufun("erfc"),
        "expm1": ufun("expm1"),
    })
    m.ndimage = ns._NS("scipy.ndimage", scipy.ndimage, {
        "convolve": convolve, "correlate": correlate,
        "convolve1d": convolve1d, "correlate1d": correlate1d,
        "gaussian_filter1d": gaussian_filter1d,
    })
    opt = types.ModuleType("scipy.optimize")

    def drv(name):
        def f(*a, **k):
            h = ns.HOOKS.get(name)
            if h is None:
                raise Unsupported(name + " without a driver")
            return h(*a, **k)
        return f
    opt.minimize = drv("minimize")
    opt.least_squares = drv("least_squares")
    opt.OptimizeResult = scipy.optimize.OptimizeResult
    opt.Bounds = scipy.optimize.Bounds
    opt.__getattr__ = lambda k: getattr(scipy.optimize, k)
    m.optimize = opt
    m.sparse = scipy.sparse
    m.signal = ns._NS("scipy.signal", scipy.signal, {
        "welch": ns.hooked("welch"), "periodogram": f_periodogram,
    })
    m.fft = ns.SHIM.fft
    m.constants = scipy.constants
    m.OptimizeResult = scipy.optimize.OptimizeResult
    return m


def f_periodogram(x, fs=1.0, window="boxcar", nfft=None,
                  detrend="constant", return_onesided=True,
                  scaling="density", axis=-1):
    np_ = ns.SHIM
    x = np_.asarray(x)
    if axis not in (-1, x.ndim - 1) or window not in ("boxcar", None) or \
            nfft not in (None, x.shape[-1]) or \
            detrend not in ("constant", False):
        raise Unsupported("periodogram with these options")
    n = x.shape[-1]
    if scaling not in ("density", "spectrum"):
        raise ValueError("Unknown scaling: %r" % scaling)
    if detrend:
        x = x - np_.mean(x, axis=-1, keepdims=True)
    c = np_.fft.rfft(x, axis=-1) if return_onesided else np_.fft.fft(
        x, axis=-1)
    p = c.real * c.real + c.imag * c.imag
    p = p / (n * fs if scaling == "density" else n * n)
    if return_onesided:
        w = np_.ones(n // 2 + 1) * 2
        w[0] = 1
        if n % 2 == 0:
            w[n // 2] = 1
        p = p * w
        return np_.fft.rfftfreq(n, 1 / fs), p
    return np_.fft.fftfreq(n, 1 / fs), p


# ---------------------------------------------------------------------------
# math


class MathShim(types.ModuleType):
    def __getattr__(self, k):
        import math
        if k == "pi":
            return sc.pi()
        if k == "ceil":
            return lambda x: int(sc.s_ceil(x)) if isinstance(x, S) else \
                math.ceil(x)
        if k == "floor":
            return lambda x: int(sc.s_floor(x)) if isinstance(x, S) else \
                math.floor(x)
        if k == "isclose":
            def f(a, b, rel_tol=1e-9, abs_tol=0.0):
                d = sc.s_abs(S.lift(a) - S.lift(b))
                m = ns._mx(sc.s_abs(S.lift(a)), sc.s_abs(S.lift(b)))
                return d <= ns._mx(S.lift(rel_tol) * m, S.lift(abs_tol))
            return f
        name = {"fabs": "absolute", "acos": "arccos", "asin": "arcsin"}.get(
            k, k)
        if k == "log":
            return lambda x, base=None: sc.s_log(S.lift(x)) if base is None \
                else sc.s_log(S.lift(x)) / sc.s_log(S.lift(base))
        if name in ns.UF1 and ns.UF1[name] is not None:
            fn = ns.UF1[name]
            return lambda x: fn(x)
        if k == "atan2":
            return sc.s_arctan2
        if k == "ldexp":
            return lambda x, n: S.lift(x) * 2 ** n
        if k == "fsum":
            return lambda xs: sum(xs, S.lift(0.))
        if k == "prod":
            return lambda xs, start=1: functools.reduce(
                lambda a, b: a * b, xs, start)
        if k == "hypot":
            return lambda *a: sc.s_sqrt(sum((S.lift(x) * x for x in a),
                                            S.lift(0)))
        if k == "dist":
            return lambda a, b: sc.s_sqrt(sum((
                (S.lift(x) - y) * (S.lift(x) - y) for x, y in zip(a, b)),
                S.lift(0)))
        if k == "copysign":
            return lambda a, b: sc.s_abs(S.lift(a)) * (
                1 if bool(S.lift(b) >= 0) else -1)
        if k in ("isnan", "isinf"):
            return lambda x: False if isinstance(x, S) else getattr(
                math, k)(x)
        if k == "isfinite":
            return lambda x: True if isinstance(x, S) else math.isfinite(x)
        if k == "pow":
            return lambda a, b: sc.s_pow(S.lift(a), b)
        return getattr(math, k)


MATH = MathShim("math")
