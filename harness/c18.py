"""C18: chain rule of transfer functions."""
from .tfs import *

BOUNDS = ("1..3 (4 thorough) time slices, 1..2 controls, 1..2 functions, "
          "every simple transfer function of C17; every gradient, pulse, "
          "duration, matrix entry, rise time and kernel; Gaussian filters "
          "with fixed widths"
          "; 5 slices with 3 controls, 12 slices with one control; "
          "oversampling up to 10, paddings up to 6, kernels up to 7")
ASSUMPTIONS = ["the exponential transfer function is used with equal time "
               "steps, as documented"]


def configs(tier):
    big = tier == "thorough"
    for spec in SIMPLE:
        for T, C, F in ((1, 1, 2), (2, 2, 2), (3, 1, 1), (5, 3, 1)) + (
                ((4, 2, 3),) if big else ()):
            yield {"h": "chain", "s": spec, "T": T, "C": C, "F": F}
        yield {"h": "chain", "s": spec, "T": 12, "C": 1, "F": 1}
    for spec in LARGE:
        for T, C, F in ((2, 2, 2), (5, 1, 3)):
            yield {"h": "chain", "s": spec, "T": T, "C": C, "F": F}
    yield {"h": "reject"}


def chain(env, cfg):
    spec, T, C, F = cfg["s"], cfg["T"], cfg["C"], cfg["F"]
    a = make(env, spec, T, C)
    tau = taus(env, "tau", T, equal_spacing(spec))
    a.tf.set_times(env.array(tau))
    a.times(tau)
    check(env, a, T, C, F, env.choice("used before", 2))


def check(env, a, T, C, F, used=False, label="chain rule"):
    y = env.rarr("y", (T, C))
    D = env.rarr("D", (a.X, F, C))
    D0 = D.copy()
    if used:
        a.tf(y)
    g = a.tf.gradient_chain_rule(D)
    env.check("shape", tuple(g.shape) == (T, F, C))
    env.check_eq("gradient of the caller unchanged", D, D0)

    def cost(y):
        x = a.tf(y)
        return env.array([sum((D0[i, f, k] * x[i, k] for i in range(a.X)
                               for k in range(C)), env.num(0))
                          for f in range(F)])
    env.check_grad(label, cost, y, env.array(
        [[[g[j, f, k] for k in range(C)] for j in range(T)]
         for f in range(F)]))


def reject(env, cfg):
    m = env.q("transfer_function")
    for tf in (m.OversamplingTF(oversampling=2),
               m.OversamplingMTF(oversampling=2),
               m.ConvolutionTF(env.rarr("w", (3,))),
               m.GaussianConvolution(1.)):
        tf.set_times(env.rarr("tau", (2,), positive=True))
        X = tf.num_x
        for shp in ((X + 1, 1, 1), (X, 1, 2), (X, 1)):
            env.raises("wrong shape", AssertionError,
                       lambda: tf.gradient_chain_rule(
                           env.rarr("D", shp)))
