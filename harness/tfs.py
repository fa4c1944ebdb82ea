"""Transfer functions from nested specifications, with reference values."""
from .common import *


def pad(bound, os):
    if not bound:
        return 0, 0
    k, n = bound
    return {"n": (n, n), "x": (n * os, n * os), "right_n": (0, n)}[k]


def ext(i, n, mode):
    """Index into a signal of length n continued by mode; None: outside."""
    if 0 <= i < n:
        return i
    if mode == "nearest":
        return 0 if i < 0 else n - 1
    if mode == "wrap":
        return i % n
    if mode == "reflect":           # d c b a | a b c d | d c b a
        i = i % (2 * n)
        return i if i < n else 2 * n - 1 - i
    if mode == "mirror":            # d c b | a b c d | c b a
        if n == 1:
            return 0
        i = i % (2 * n - 2)
        return i if i < n else 2 * n - 2 - i
    if mode == "constant":
        return None
    raise ValueError(mode)


class TF:
    """tf: the object; x(y): list of rows; times(tau): list."""

    def __init__(self, tf, x, times, T, X, C):
        self.tf, self.x, self.times = tf, x, times
        self.T, self.X, self.C = T, X, C


def make(env, spec, T, C, tag="a"):
    m = env.q("transfer_function")
    kind = spec["k"]
    os, bound = spec.get("os", 1), spec.get("b")
    bt = tuple(bound) if bound else None
    p0, p1 = pad(bound, os)
    X = T * os + p0 + p1
    z = env.num(0)

    def times(tau):
        return [tau[0] / os] * p0 + [t / os for t in tau for _ in range(os)] \
            + [tau[-1] / os] * p1

    off = env.real(tag + ".off") if spec.get("off") else None

    def plus(rows):
        if off is None:
            return rows
        return [[v + off for v in r] for r in rows]
    if kind == "id":
        return TF(m.IdentityTF(num_ctrls=C), lambda y: y, times, T, X, C)
    if kind in ("ov", "ovm"):
        kw = dict(num_ctrls=C, bound_type=bt, oversampling=os)
        if kind == "ovm" and off is not None:
            kw["offset"] = off
        tf = (m.OversamplingTF if kind == "ov" else m.OversamplingMTF)(**kw)

        def x(y):
            return plus([[z] * C] * p0 + [r for r in y for _ in range(os)] +
                        [[z] * C] * p1)
        return TF(tf, x, times, T, X, C)
    if kind == "exp":
        rise = env.real(tag + ".rise", positive=True)
        kw = dict(awg_rise_time=rise, oversampling=os, num_ctrls=C)
        if "b" in spec:
            kw["bound_type"] = bt
        if off is not None:
            kw["offset"] = off
        tf = m.ExponentialMTF(**kw)
        holder = {}

        def times2(tau):
            holder["tau"] = tau[0]
            return times(tau)

        def x(y):
            out = [[z] * C for _ in range(p0)]
            for i in range(T):
                for j in range(os):
                    e = env.exp(-((j + 1) * holder["tau"] / os) / rise)
                    prev = y[i - 1] if i else [z] * C
                    out.append([a + (b - a) * (1 - e)
                                for a, b in zip(prev, y[i])])
            for j in range(p1):
                e = env.exp(-((j + 1) * holder["tau"] / os) / rise)
                out.append([b * e for b in y[-1]])
            return plus(out)
        return TF(tf, x, times2, T, X, C)
    if kind == "cust":
        X = spec.get("X", X)
        M = env.rarr(tag + ".M", (X, T, C))
        kw = dict(transfer_matrix=M.copy(), num_ctrls=C)
        xt = None
        if spec.get("times"):
            xt = env.rarr(tag + ".xt", (X,), positive=True)
            kw["x_times"] = xt.copy()
        if bt:
            kw["bound_type"] = bt
        if off is not None:
            kw["offset"] = off

        def x(y):
            return plus([[sum((M[i, j, k] * y[j][k] for j in range(T)), z)
                          for k in range(C)] for i in range(X)])
        return TF(m.CustomMTF(**kw), x,
                  (lambda tau: list(xt)) if xt is not None else times,
                  T, X, C)
    if kind == "conv":
        L, W, mode = spec["L"], spec.get("W", 1), spec.get("mode", "nearest")
        w = env.rarr(tag + ".w", (L,) if W == 1 else (L, W))
        cval = env.real(tag + ".cval") if spec.get("cval") else None
        kw = dict(kernel=w.copy(), num_ctrls=C)
        if "mode" in spec:
            kw["mode"] = mode
        if cval is not None:
            kw["cval"] = cval

        def wt(a, b):
            return w[a] if W == 1 else w[a, b]

        def x(y):
            out = []
            for i in range(T):
                row = []
                for k in range(C):
                    s = z
                    for a in range(L):
                        for b in range(W):
                            p = ext(i + L // 2 - a, T, mode)
                            q = ext(k + W // 2 - b, C, mode)
                            if p is None or q is None:
                                v = cval if cval is not None else z
                            else:
                                v = y[p][q]
                            s = s + wt(a, b) * v
                    row.append(s)
                out.append(row)
            return out
        return TF(m.ConvolutionTF(**kw), x, times, T, T, C)
    if kind == "gauss":
        import numpy as np
        import scipy.ndimage
        kw = dict(sigma=spec["sigma"])
        if "mode" in spec:
            kw["mode"] = spec["mode"]
        if "order" in spec:
            kw["order"] = spec["order"]
        if "truncate" in spec:
            kw["truncate"] = spec["truncate"]
        # the weights are the response to a unit impulse
        r = int(spec.get("truncate", 4.0) * spec["sigma"] + 0.5)
        d = np.zeros(4 * r + 1)
        d[2 * r] = 1
        w = scipy.ndimage.gaussian_filter1d(
            d, spec["sigma"], order=spec.get("order", 0), mode="constant",
            truncate=spec.get("truncate", 4.0))
        mode = spec.get("mode", "nearest")

        def x(y):
            out = []
            for i in range(T):
                row = []
                for k in range(C):
                    s = z
                    for a in range(-r, r + 1):
                        p = ext(i - a, T, mode)
                        if p is not None:
                            s = s + float(w[2 * r + a]) * y[p][k]
                    row.append(s)
                out.append(row)
            return out
        return TF(m.GaussianConvolution(num_ctrls=C, **kw), x, times, T, T,
                  C)
    if kind in ("cat", "catm"):
        a = make(env, spec["1"], T, C, tag + "1")
        b = make(env, spec["2"], a.X, C, tag + "2")
        pre(env, spec, tag, a, b, "chain")
        cls = m.ConcatenateTF if kind == "cat" else m.ConcatenateMTF
        return TF(cls(a.tf, b.tf), lambda y: b.x(a.x(y)),
                  lambda tau: b.times(a.times(tau)), T, b.X, C)
    if kind in ("par", "parm"):
        c1 = spec.get("c1", 1)
        a = make(env, spec["1"], T, c1, tag + "1")
        b = make(env, spec["2"], T, C - c1, tag + "2")
        pre(env, spec, tag, a, b, "same")

        def x(y):
            u = a.x([r[:c1] for r in y])
            v = b.x([r[c1:] for r in y])
            return [list(p) + list(q) for p, q in zip(u, v)]

        def tms(tau):
            b.times(tau)
            return a.times(tau)
        cls = m.ParallelTF if kind == "par" else m.ParallelMTF
        return TF(cls(a.tf, b.tf), x, tms, T, a.X, C)
    raise ValueError(kind)


def pre(env, spec, tag, a, b, how):
    """Times set before the composition."""
    if spec.get("preset"):
        tau = taus(env, spec["preset"], a.T)
        a.tf.set_times(env.array(tau))
        b.tf.set_times(env.array(a.times(tau) if how == "chain" else tau))


def equal_spacing(spec):
    return spec["k"] == "exp" or any(
        equal_spacing(spec[i]) for i in "12" if i in spec)


def taus(env, name, T, equal=False):
    if equal:
        return [env.real(name, positive=True)] * T
    return list(env.rarr(name, (T,), positive=True))


def rows(y):
    return [[y[i, k] for k in range(y.shape[1])] for i in range(y.shape[0])]


def has_matrix(spec):
    return spec["k"] in ("ovm", "exp", "cust", "catm", "parm")


O2 = {"os": 2}
SIMPLE = [{"k": "id"}]
for b in (None, ["n", 1], ["n", 2], ["x", 1], ["x", 2], ["right_n", 1],
          ["right_n", 3], ["n", 0], ["x", 0], ["right_n", 0]):
    for os in (1, 2, 3):
        if os == 3 and b and b[1] not in (1, 3):
            continue
        if b and b[1] == 0 and os != 2:
            continue
        for kind in ("ov", "ovm", "exp"):
            s = {"k": kind, "os": os, "b": b}
            if kind != "ov" and os == 2:
                s["off"] = 1
            SIMPLE.append(s)
SIMPLE += [{"k": "exp", "os": 2}, {"k": "exp", "os": 1, "off": 1}]
for s in ({"X": 3, "times": 1}, {"X": 1, "times": 1, "off": 1},
          {"os": 2}, {"os": 3, "off": 1}, {"os": 2, "b": ["n", 2]},
          {"os": 2, "b": ["x", 1]}, {"os": 2, "b": ["right_n", 1]},
          {"os": 1}, {"os": 1, "b": ["right_n", 2]}):
    SIMPLE.append(dict(s, k="cust"))
for mode in ("nearest", "reflect", "mirror", "wrap", "constant"):
    for L in (1, 2, 3, 4):
        SIMPLE.append({"k": "conv", "L": L, "mode": mode,
                       "cval": int(mode == "constant" and L > 1)})
    SIMPLE.append({"k": "gauss", "sigma": 0.5, "mode": mode})
SIMPLE += [{"k": "conv", "L": 3}, {"k": "conv", "L": 3, "W": 2},
           {"k": "conv", "L": 2, "W": 3, "mode": "constant", "cval": 1},
           {"k": "gauss", "sigma": 1.5}, {"k": "gauss", "sigma": 0.8,
                                          "order": 1},
           {"k": "gauss", "sigma": 0.8, "truncate": 1.0}]
LARGE = [{"k": k, "os": 5, "b": b, **({"off": 1} if k == "ovm" else {})}
         for k in ("ov", "ovm", "exp")
         for b in (None, ["n", 4], ["x", 3], ["right_n", 6])]
LARGE += [{"k": "exp", "os": 10}, {"k": "cust", "os": 6, "b": ["x", 4]},
          {"k": "conv", "L": 7}, {"k": "conv", "L": 6, "mode": "mirror"},
          {"k": "gauss", "sigma": 3.0, "mode": "wrap"}]
