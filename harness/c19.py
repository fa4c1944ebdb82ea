"""C19: concatenated and parallel transfer functions."""
from .tfs import *
from .c18 import check

BOUNDS = ("compositions of two or three transfer functions with 1..3 time "
          "slices, 1..3 controls and 1..2 functions; every pulse, duration, "
          "matrix entry, offset, rise time, kernel and gradient"
          "; 4 slices with 1 control, 5 controls with 1 slice")
ASSUMPTIONS = ["the exponential transfer function is used with equal time "
               "steps, as documented"]


def configs(tier):
    big = tier == "thorough"
    ov = {"k": "ov", "os": 2}
    ovn = {"k": "ov", "os": 2, "b": ["n", 1]}
    ovr = {"k": "ov", "os": 3, "b": ["right_n", 2]}
    conv = {"k": "conv", "L": 3}
    convc = {"k": "conv", "L": 2, "mode": "constant", "cval": 1}
    ga = {"k": "gauss", "sigma": 0.7}
    m2 = {"k": "ovm", "os": 2}
    m2o = {"k": "ovm", "os": 2, "off": 1}
    mx = {"k": "ovm", "os": 1, "b": ["x", 1], "off": 1}
    ex = {"k": "exp", "os": 2, "b": ["x", 1]}
    exo = {"k": "exp", "os": 2, "b": ["right_n", 1], "off": 1}
    cu = {"k": "cust", "os": 2, "off": 1}
    idt = {"k": "id"}
    pairs = [("cat", a, b) for a, b in (
        (ov, conv), (ovn, conv), (conv, ov), (ovr, ga), (ga, conv),
        (conv, convc), (m2o, ov), (ov, mx), (ex, ga), (idt, ovn),
        (ovn, idt), (cu, ovr))]
    pairs += [("catm", a, b) for a, b in (
        (m2, m2), (m2o, m2), (m2, m2o), (m2o, mx), (mx, m2o), (ex, m2),
        (ex, exo), (m2, ex), (cu, m2o), (m2o, cu))]
    for k, a, b in pairs:
        for T, C in ((1, 1), (2, 2), (4, 1)) + (((3, 2),) if big else ()):
            for pre in kinds(a, b, k):
                yield {"h": "comp", "T": T, "C": C, "F": 2, "pre": pre,
                       "s": {"k": k, "1": a, "2": b}}
    par = [("par", a, b) for a, b in (
        (ovn, ovn), (conv, ga), (ov, m2o), (m2o, cu), (idt, convc),
        (ex, dict(ov, b=["x", 1])))]
    par += [("parm", a, b) for a, b in (
        (m2, m2o), (m2o, m2), (mx, dict(mx)), (ex, dict(ex, off=1)),
        (m2, dict(ex, b=None)))]
    for k, a, b in par:
        for T, C, c1 in ((1, 2, 1), (2, 3, 1), (2, 3, 2), (1, 5, 2)) + (
                ((3, 4, 2),) if big else ()):
            for pre in kinds(a, b, k):
                yield {"h": "comp", "T": T, "C": C, "F": 2, "pre": pre,
                       "s": {"k": k, "1": a, "2": b, "c1": c1}}
    nest = [
        {"k": "cat", "1": ovn, "2": {"k": "cat", "1": conv, "2": ga}},
        {"k": "cat", "1": {"k": "cat", "1": conv, "2": ov}, "2": convc},
        {"k": "cat", "1": {"k": "par", "1": ov, "2": m2o}, "2": conv},
        {"k": "par", "1": {"k": "cat", "1": ov, "2": conv}, "2": m2o},
        {"k": "catm", "1": m2o, "2": {"k": "catm", "1": mx, "2": m2o}},
        {"k": "catm", "1": {"k": "catm", "1": m2o, "2": mx}, "2": mx},
        {"k": "catm", "1": {"k": "parm", "1": m2, "2": m2o}, "2": m2o},
        {"k": "parm", "1": {"k": "catm", "1": m2o, "2": idm(2)},
         "2": dict(m2, off=1, os=4)},
    ]
    for s in nest:
        for T in (1, 2):
            yield {"h": "comp", "T": T, "C": 2, "F": 1, "pre": 0, "s": s}
    for k in ("cat", "catm", "par", "parm"):
        for off in (0, 1, 2, 3):
            yield {"h": "attrs", "k": k, "off": off}
    for k in ("cat", "catm", "par", "parm"):
        yield {"h": "shapes", "k": k}
    for k in ("par", "parm"):
        yield {"h": "reject", "k": k}


def kinds(a, b, k):
    """Times set after, or also before the composition."""
    if equal_spacing(a) or equal_spacing(b):
        return (0,)
    if k == "par" and "cust" in (a["k"], b["k"]):
        return (1,)      # a custom matrix knows its number of slices
    return (0, 1)


def idm(os):
    return {"k": "ovm", "os": os}


def comp(env, cfg):
    spec, T, C = dict(cfg["s"]), cfg["T"], cfg["C"]
    if cfg["pre"]:
        spec["preset"] = "pre"
    eq = equal_spacing(spec)
    a = make(env, spec, T, C)
    y = env.rarr("y", (T, C))
    y0 = y.copy()
    if cfg["pre"]:
        tau = taus(env, "pre", T)
        env.check_eq("durations set before", a.tf.x_times, a.times(tau))
        env.check("number of slices", a.tf.num_x == a.X)
        env.check_eq("values of times set before", a.tf(y), env.mat(
            a.x(rows(y0)), "f"))
        if env.choice("gradient first", 2):
            check(env, a, T, C, cfg["F"], label="chain rule with times set "
                                                "before")
            return
    tau = taus(env, "tau", T, eq)
    if env.choice("old", 2):
        old = taus(env, "old", T, eq)
        a.tf.set_times(env.array(old))
        a.times(old)
        env.check_eq("values with other times", a.tf(y), env.mat(
            a.x(rows(y0)), "f"))
        if has_matrix(spec):
            a.tf.transfer_matrix
    a.tf.set_times(env.array(tau))
    ref = a.times(tau)
    env.check_eq("durations", a.tf.x_times, ref)
    env.check("number of slices", a.tf.num_x == a.X == len(ref))
    x = env.mat(a.x(rows(y0)), "f")
    first = env.choice("first", 2)
    if first:
        check(env, a, T, C, cfg["F"])
    env.check_eq("values", a.tf(y), x)
    env.check_eq("pulse unchanged", y, y0)
    if has_matrix(spec):
        M = a.tf.transfer_matrix
        env.check("shape of the matrix", tuple(M.shape) == (a.X, T, C))
        zero = env.mat(a.x([[env.num(0)] * C for _ in range(T)]), "f")
        env.check_eq("matrix", env.mat([[
            sum((M[i, j, k] * y[j, k] for j in range(T)), zero[i, k])
            for k in range(C)] for i in range(a.X)], "f"), x)
    if not first:
        check(env, a, T, C, cfg["F"])
    env.check_eq("values again", a.tf(y), x)


CLS = {"cat": "ConcatenateTF", "catm": "ConcatenateMTF",
       "par": "ParallelTF", "parm": "ParallelMTF"}


def attrs(env, cfg):
    """The composition describes itself like its parts."""
    m = env.q("transfer_function")
    k, par = cfg["k"], cfg["k"].startswith("par")
    off = [env.real("off%d" % i) if cfg["off"] >> i & 1 else None
           for i in range(2)]
    b = ("n", 1) if par else None
    ctrls = (2, 1) if par else (2, 2)
    fs = [m.OversamplingMTF(num_ctrls=c, oversampling=3 if par else i + 2,
                            bound_type=b, offset=off[i])
          for i, c in enumerate(ctrls)]
    t = getattr(m, CLS[k])(*fs)
    env.check("parts", t.tf1 is fs[0] and t.tf2 is fs[1])
    for _ in range(2):
        env.check("number of controls", t.num_ctrls == (3 if par else 2))
        env.check("oversampling", t.oversampling == (3 if par else 6))
        if par:
            env.check("padding", t.bound_type == b
                      and tuple(t.num_padding_elements) == (1, 1))
        else:
            env.check("no padding", t.bound_type is None)
            env.check_eq("offset", t.offset, sum(
                (o for o in off if o is not None), env.num(0)))
        t.set_times(env.rarr("tau", (2,), positive=True))


def shapes(env, cfg):
    """Pulses and durations of other shapes are rejected."""
    import numpy as np
    m = env.q("transfer_function")
    k, par = cfg["k"], cfg["k"].startswith("par")
    fs = [m.OversamplingMTF(num_ctrls=1 if par else 2, oversampling=2)
          for _ in range(2)]
    t = getattr(m, CLS[k])(*fs)
    env.raises("times not set", RuntimeError,
               lambda: t(env.rarr("y", (2, 2))))
    t.set_times(env.rarr("tau", (2,), positive=True))
    for shape in ((3, 2), (1, 2), (2, 1), (2, 3), (2,), (2, 2, 1)):
        env.raises("shape of the pulse", IndexError,
                   lambda: t(env.rarr("z", shape)))
    env.raises("integers", TypeError, lambda: t(np.ones((2, 2), int)))
    env.check("accepted", tuple(t(env.rarr("y", (2, 2))).shape)
              == ((4, 2) if par else (8, 2)))


def reject(env, cfg):
    m = env.q("transfer_function")
    if cfg["k"] == "par":
        a, b = m.OversamplingTF(oversampling=2), m.OversamplingTF()
        a.set_times(env.rarr("tau", (2,), positive=True))
        b.set_times(env.rarr("tau", (2,), positive=True))
        env.raises("other output slices", ValueError,
                   lambda: m.ParallelTF(a, b))
        b.set_times(env.rarr("t3", (3,), positive=True))
        env.raises("other input slices", ValueError,
                   lambda: m.ParallelTF(a, b))
    else:
        env.raises("other oversampling", ValueError, lambda: m.ParallelMTF(
            m.OversamplingMTF(2), m.OversamplingMTF(3)))
        env.raises("other padding", ValueError, lambda: m.ParallelMTF(
            m.OversamplingMTF(2), m.OversamplingMTF(2, ("n", 1))))
