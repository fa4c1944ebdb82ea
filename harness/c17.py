"""C17: values and times of transfer functions."""
from .tfs import *

BOUNDS = ("1..3 (4 thorough) time slices, 1..2 controls, oversampling 1..3, "
          "every padding kind with 0..3 elements, kernels of length 1..4 in "
          "five boundary modes; every pulse, duration, matrix entry, offset, "
          "rise time and kernel; Gaussian filters with fixed widths"
          "; 6 slices with 4 controls, 12 slices with one control; "
          "oversampling up to 10, paddings up to 6, kernels up to 7")
ASSUMPTIONS = ["the exponential transfer function is used with equal time "
               "steps, as documented"]


def configs(tier):
    big = tier == "thorough"
    for spec in SIMPLE:
        for T, C in ((1, 1), (2, 2), (3, 1), (6, 4)) + (
                ((4, 2),) if big else ()):
            yield {"h": "values", "s": spec, "T": T, "C": C}
        yield {"h": "values", "s": spec, "T": 12, "C": 1}
    for spec in LARGE:
        for T, C in ((2, 2), (5, 1)):
            yield {"h": "values", "s": spec, "T": T, "C": C}
    yield {"h": "reject"}
    yield {"h": "custom_times"}
    for T in (1, 3):
        yield {"h": "absolute", "T": T}


def values(env, cfg):
    spec, T, C = cfg["s"], cfg["T"], cfg["C"]
    a = make(env, spec, T, C)
    eq = equal_spacing(spec)
    first = taus(env, "old", T, eq)
    tau = taus(env, "tau", T, eq)
    y = env.rarr("y", (T, C))
    y0 = y.copy()
    if env.choice("reused", 2):
        arr = env.array(first)
        a.tf.set_times(arr)
        t = a.times(first)
        env.check_eq("durations", a.tf.x_times, t)
        env.check_eq("values with other times", a.tf(y), env.mat(
            a.x(rows(y0)), "f"))
        if has_matrix(spec):
            a.tf.transfer_matrix
    arr = env.array(tau) if env.choice("array", 2) else list(tau)
    a.tf.set_times(arr)
    ref = a.times(tau)
    env.check_eq("durations", a.tf.x_times, ref)
    env.check("number of slices", a.tf.num_x == a.X == len(ref))
    described(env, a.tf, spec, C)
    env.check_eq("durations of the caller unchanged", list(arr), tau)
    # the caller may reuse the array, whose values were set
    if not spec.get("times"):
        arr[0] = env.real("later", positive=True)
        env.check_eq("durations after the array changed", a.tf.x_times, ref)
    x = env.mat(a.x(rows(y0)), "f")
    env.check_eq("values", a.tf(y), x)
    env.check_eq("pulse unchanged", y, y0)
    if has_matrix(spec):
        M = a.tf.transfer_matrix
        env.check("shape of the matrix", tuple(M.shape) == (a.X, T, C))
        off = env.real("a.off") if spec.get("off") else env.num(0)
        env.check_eq("matrix", env.mat([[
            sum((M[i, j, k] * y[j, k] for j in range(T)), off)
            for k in range(C)] for i in range(a.X)], "f"), x)
    env.check_eq("values again", a.tf(y), x)
    if spec["k"] == "cust":
        return
    if env.choice("longer", 2):
        # the same object for more time slices
        b = make(env, spec, T + 1, C)
        more = taus(env, "more", T + 1, eq)
        w = env.rarr("w", (T + 1, C))
        a.tf.set_times(env.array(more))
        env.check_eq("durations of the longer pulse", a.tf.x_times,
                     b.times(more))
        env.check_eq("values of the longer pulse", a.tf(w), env.mat(
            b.x(rows(w)), "f"))


def described(env, tf, spec, C):
    """Attributes of the object describe what it does."""
    env.check("number of controls", tf.num_ctrls == C)
    if spec["k"] not in ("ov", "ovm", "exp", "cust"):
        return
    os, b = spec.get("os", 1), spec.get("b")
    if not spec.get("times"):
        env.check("oversampling", tf.oversampling == os)
    n = 0 if not b else b[1] * (os if b[0] == "x" else 1)
    env.check("padding", tuple(tf.num_padding_elements) == (
        0 if not b or b[0] == "right_n" else n, n))


def reject(env, cfg):
    m = env.q("transfer_function")
    import numpy as np
    y = env.rarr("y", (2, 1))
    for tf in (m.OversamplingTF(), m.OversamplingMTF(), m.ExponentialMTF(1.),
               m.ConvolutionTF(env.rarr("w", (3,))),
               m.GaussianConvolution(1.)):
        env.raises("times not set", RuntimeError, lambda: tf(y))
        tf.set_times(env.rarr("tau", (2,), positive=True))
        env.raises("wrong number of slices", IndexError,
                   lambda: tf(env.rarr("z", (3, 1))))
        env.raises("wrong number of controls", IndexError,
                   lambda: tf(env.rarr("z", (2, 2))))
        env.raises("one dimension", IndexError,
                   lambda: tf(env.rarr("z", (2,))))
        env.raises("integers", TypeError, lambda: tf(np.ones((2, 1), int)))
        env.raises("two dimensional times", ValueError,
                   lambda: tf.set_times(env.rarr("t", (2, 2),
                                                 positive=True)))
        env.raises("times of another type", Exception,
                   lambda: tf.set_times("abc"))
        env.raises("absolute times of another type", Exception,
                   lambda: tf.set_absolute_times("abc"))
        env.raises("absolute times of another type", Exception,
                   lambda: tf.set_absolute_times(2.))
    for k in (m.OversamplingTF, m.OversamplingMTF):
        tf = k(bound_type=("w", 2))
        env.raises("unknown padding", ValueError,
                   lambda: tf.set_times(env.rarr("tau", (2,),
                                                 positive=True)))
        env.raises("unknown padding", ValueError,
                   lambda: tf.num_padding_elements)
    c = m.CustomMTF(env.rarr("M", (3, 2, 1)), bound_type=("w", 1))
    env.raises("unknown padding", ValueError, lambda: c.set_times(
        env.rarr("tau", (2,), positive=True)))
    c = m.CustomMTF(env.rarr("M", (3, 2, 1)))
    env.raises("impossible dimensions", ValueError,
               lambda: c.set_times(env.rarr("tau", (2,), positive=True)))
    c = m.CustomMTF(env.rarr("M", (4, 2, 1)))
    env.raises("other number of times", ValueError,
               lambda: c.set_times(env.rarr("t4", (4,), positive=True)))
    c = m.CustomMTF(env.rarr("M", (4, 2, 1)),
                    x_times=env.rarr("xt", (4,), positive=True))
    env.raises("other number of times", ValueError,
               lambda: c.set_times(env.rarr("t3", (3,), positive=True)))


def custom_times(env, cfg):
    """Custom matrices with padding are split into slices of y_times."""
    m = env.q("transfer_function")
    tau = taus(env, "tau", 2)
    for X, b, ref in (
            (4, None, lambda t: [t[0] / 2] * 2 + [t[1] / 2] * 2),
            (8, ("n", 1), lambda t: [t[0] / 3] * 4 + [t[1] / 3] * 4),
            (8, ("x", 1), lambda t: [t[0] / 2] * 4 + [t[1] / 2] * 4),
            (12, ("x", 2), lambda t: [t[0] / 2] * 6 + [t[1] / 2] * 6),
            (12, ("n", 1), lambda t: [t[0] / 5] * 6 + [t[1] / 5] * 6),
            (10, ("n", 2), lambda t: [t[0] / 3] * 5 + [t[1] / 3] * 5),
            (5, ("right_n", 1), lambda t: [t[0] / 2] * 2 + [t[1] / 2] * 3)):
        c = m.CustomMTF(env.rarr("M%d" % X, (X, 2, 1)), bound_type=b)
        for _ in range(2):
            c.set_times(env.array(tau))
            env.check_eq("durations", c.x_times, ref(tau))


def absolute(env, cfg):
    T = cfg["T"]
    m = env.q("transfer_function")
    t = env.rarr("t", (T + 1,))
    tf = m.OversamplingMTF(oversampling=2, bound_type=("n", 1))
    rising = True
    for i in range(T):
        rising = rising and bool(t[i + 1] >= t[i])
    if not rising:
        env.raises("unsorted times", Exception,
                   lambda: tf.set_absolute_times(t))
        return
    arg = t if env.choice("array", 2) else list(t)
    tf.set_absolute_times(arg)
    if env.choice("other times in between", 2):
        tf.set_times(env.rarr("tau", (T + 1,)))
        tf.set_absolute_times(arg)
    elif env.choice("the array is used again", 2):
        arg[0], arg[-1] = arg[0] - 1, arg[-1] + 2
        tf.set_absolute_times(arg)
        t = list(arg)
    d = [t[i + 1] - t[i] for i in range(T)]
    env.check_eq("durations", tf.x_times, [d[0] / 2] + [
        v / 2 for v in d for _ in range(2)] + [d[-1] / 2])
    y = env.rarr("y", (T, 1))
    z = env.num(0)
    env.check_eq("values", tf(y), env.mat(
        [[z]] + [r for r in rows(y) for _ in range(2)] + [[z]], "f"))
