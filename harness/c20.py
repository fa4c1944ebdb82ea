"""C20: amplitude functions and their chain rule."""
import math

from .common import *

BOUNDS = ("1..3 (4 thorough) time slices, 1..3 controls, 1..3 functions; "
          "arbitrary differentiable, and piecewise linear value functions; "
          "every amplitude and gradient"
          "; 12 slices, controls or functions, 7 slices with 5 controls and 2 functions (without the "
          "piecewise linear one)")


def configs(tier):
    big = tier == "thorough"
    for kind in ("id", "unary", "ramp", "const", "custom"):
        for T, C, F in ((1, 1, 1), (2, 2, 3), (3, 1, 2), (2, 3, 1), (7, 5, 2),
                        (12, 1, 1), (1, 12, 1), (1, 1, 12)) + (
                ((4, 2, 3), (3, 3, 3)) if big else ()):
            if kind == "ramp" and T * C > (6 if big else 4):
                continue
            yield {"h": "amp", "kind": kind, "T": T, "C": C, "F": F}
    for T, C in ((2, 2), (1, 3), (3, 2)) + (((2, 3),) if big else ()):
        yield {"h": "amp", "kind": "custom", "T": T, "C": C, "F": 2, "P": C}
    yield {"h": "reuse"}
    for kind in ("id", "unary", "custom"):
        yield {"h": "again", "kind": kind, "T": 2, "C": 2, "F": 1, "P": 2}


def build(env, cfg):
    """-> amplitude function, reference values, number of inputs."""
    af = env.q("amplitude_functions")
    T, C, kind = cfg["T"], cfg["C"], cfg["kind"]
    if kind == "id":
        return af.IdentityAmpFunc(), lambda x: rows(x), C
    if kind == "unary":
        d = [lambda x: math.cos(x) + 0.6 * x]
        f = env.uf("amp", lambda x: math.sin(x) + 0.3 * x * x, d)
        f1 = env.uf("amp'0", d[0])
        return af.UnaryAnalyticAmpFunc(f, f1), lambda x: [
            [f(v) for v in r] for r in rows(x)], C
    if kind == "ramp":
        k = env.real("k")

        def f(x):
            return k * x if x > 0 else 0

        def f1(x):
            return k if x > 0 else 0
        return af.UnaryAnalyticAmpFunc(f, f1), lambda x: [
            [f(v) + env.num(0) for v in r] for r in rows(x)], C
    if kind == "const":
        return af.UnaryAnalyticAmpFunc(lambda x: 1, lambda x: 0), \
            lambda x: [[env.num(1) for v in r] for r in rows(x)], C
    # arbitrary functions of all inputs of a time slice
    P = cfg.get("P", C % 2 + 1)
    fs, ds = [], []
    for c in range(C):
        d = [(lambda *x, c=c, p=p: math.cos(sum(x) + c) * 0.5 + p * x[p])
             for p in range(P)]
        fs.append(env.uf("g%d" % c, lambda *x, c=c: 0.5 * math.sin(
            sum(x) + c) + sum(0.5 * p * x[p] ** 2 for p in range(P)), d))
        ds.append([env.uf("g%d'%d" % (c, p), d[p]) for p in range(P)])

    def val(x):
        return [[f(*r) for f in fs] for r in rows(x)]

    def der(x):
        return env.array([[[ds[c][p](*r) for c in range(C)]
                           for p in range(P)] for r in rows(x)])
    return af.CustomAmpFunc(lambda x: env.mat(val(x), "f"), der), val, P


def rows(y):
    return [[y[i, k] for k in range(y.shape[1])] for i in range(y.shape[0])]


def amp(env, cfg):
    T, C, F = cfg["T"], cfg["C"], cfg["F"]
    a, ref, P = build(env, cfg)
    x = env.rarr("x", (T, P))
    if cfg["kind"] == "ramp":
        for r in rows(x):
            for v in r:
                env.assume((v > 0.01) | (v < -0.01)
                           if env.symbolic else abs(v) > 0.01)
    x0 = x.copy()
    env.check_eq("amplitudes", a(x), env.mat(ref(x0), "f"))
    env.check_eq("parameters unchanged", x, x0)
    D = env.rarr("D", (T, F, C))
    D0 = D.copy()
    g = a.derivative_by_chain_rule(D, x)
    env.check("shape", tuple(g.shape) == (T, F, P))
    env.check_eq("parameters unchanged", x, x0)
    env.check_eq("gradient of the caller unchanged", D, D0)

    def cost(x):
        u = ref(x)
        return env.array([sum((D0[i, f, k] * u[i][k] for i in range(T)
                               for k in range(C)), env.num(0))
                          for f in range(F)])
    env.check_grad("chain rule", cost, x, env.array(
        [[[g[j, f, p] for p in range(P)] for j in range(T)]
         for f in range(F)]))
    env.check_eq("amplitudes again", a(x), env.mat(ref(x0), "f"))


def reuse(env, cfg):
    """One object for several pulses of different sizes."""
    c = {"kind": "unary", "T": 2, "C": 2, "F": 1}
    a, ref, P = build(env, c)
    for i, (T, C) in enumerate(((2, 2), (1, 3), (3, 1))):
        x = env.rarr("x%d" % i, (T, C))
        env.check_eq("amplitudes", a(x), env.mat(ref(x), "f"))


def again(env, cfg):
    """The same array with other values."""
    T, C, F = cfg["T"], cfg["C"], cfg["F"]
    a, ref, P = build(env, cfg)
    x = env.rarr("x", (T, P))
    D = env.rarr("D", (T, F, C))
    D0 = D.copy()
    a(x)
    a.derivative_by_chain_rule(D, x)
    for k in range(2):
        # one entry only, then all
        y = env.rarr("y%d" % k, (T, P))
        if k:
            for i in range(T):
                for p in range(P):
                    x[i, p] = y[i, p]
        else:
            x[T - 1, 0] = y[0, 0]
        now = x.copy()
        if k:
            D[0, 0, 0] = env.real("d")
            D0 = D.copy()
        g = a.derivative_by_chain_rule(D, x)
        env.check_eq("amplitudes of the new values", a(x),
                     env.mat(ref(now), "f"))

        def cost(x):
            u = ref(x)
            return env.array([sum((D0[i, f, c] * u[i][c] for i in range(T)
                                   for c in range(C)), env.num(0))
                              for f in range(F)])
        env.check_grad("chain rule at the new values", cost, now, env.array(
            [[[g[j, f, p] for p in range(P)] for j in range(T)]
             for f in range(F)]))
