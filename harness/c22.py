"""C22: the functions an optimizer hands to the optimization algorithm."""
from .common import *
from .opt import *

BOUNDS = ("1..3 (4 thorough) time steps, 1..3 controls, 1..3 costs, scalar "
          "and least squares optimizers with every method branch; every "
          "pulse, weight, limit and differentiable cost function"
          "; 6 steps with 4 controls and 3 costs; 12 steps; 12 costs")
ASSUMPTIONS = ["scipy's algorithms are replaced by an arbitrary sequence of "
               "evaluations; the simulator is decided by C21"]

METHODS = ("L-BFGS-B", "Nelder-Mead", "BFGS")


def configs(tier):
    big = tier == "thorough"
    shapes = ((1, 1, 1), (2, 3, 2), (3, 2, 1), (3, 1, 3), (1, 3, 2), (6, 4, 3)) + (
        ((4, 2, 3), (4, 3, 2), (2, 2, 3)) if big else ())
    for T, C, F in shapes:
        for w in (0, 1):
            for kind in ("ls",) + METHODS[:1]:
                for uj in (1, 0):
                    yield {"h": "calls", "T": T, "C": C, "F": F, "w": w,
                           "kind": kind, "uj": uj}
    for kind in ("ls",) + METHODS:
        for T, F in ((12, 1), (1, 12)):
            yield {"h": "calls", "T": T, "C": 2, "F": F, "w": 1,
                   "kind": kind, "uj": 1}
    for kind in METHODS[1:]:
        yield {"h": "calls", "T": 2, "C": 2, "F": 2, "w": 1, "kind": kind,
               "uj": 1}
    for kind in ("ls",) + METHODS:
        yield {"h": "options", "T": 2, "C": 2, "F": 1, "kind": kind}
    yield {"h": "real"}


def make(env, cfg, sim, **kw):
    o = env.q("optimize")
    if cfg["kind"] == "ls":
        return o.LeastSquaresOptimizer(system_simulator=sim, **kw)
    return o.ScalarMinimizingOptimizer(system_simulator=sim,
                                       method=cfg["kind"], **kw)


def calls(env, cfg):
    T, C, F = cfg["T"], cfg["C"], cfg["F"]
    sim = Sim(env, T, C, F, stats=False)
    w, kw = [env.num(1)] * F, {}
    if cfg["w"]:
        w = [env.real("w%d" % f) for f in range(F)]
        kw["cost_func_weights"] = [list, env.array][
            env.choice("weights as array", 2)](w)
    alg = Algorithm(env, T * C, 2)
    opt = make(env, cfg, sim, use_jacobian_function=bool(cfg["uj"]),
               save_intermediary_steps=env.choice("save", 2) == 1, **kw)
    p0 = env.rarr("p", (T, C))
    keep = p0.copy()
    opt.run_optimization(p0)
    env.check_eq("initial pulse unchanged", p0, keep)
    call = alg.calls[0]
    env.check_eq("start values", call["x0"], flatten(env, keep))
    scalar = cfg["kind"] != "ls"

    def total(x):
        c = sim.costs(pulse_of(env, x, T, C))
        v = [a * b for a, b in zip(w, c)]
        if scalar:
            return sum(v, env.num(0))
        return env.array(v)
    for kind, x, v in alg.log:
        if kind == "fun":
            env.check_eq("weighted costs of the pulse", v, total(x))
        else:
            env.check_grad("gradient of the weighted costs", total, x, v)
    for p, (kind, x, v) in zip(sim.seen, [e for e in alg.log
                                          if e[0] == "fun"]):
        env.check_eq("pulse of the evaluation", p, pulse_of(env, x, T, C))
    if not cfg["uj"]:
        env.check("no analytic gradient", not callable(call["jac"]))


def exact(env, c, tol, **names):
    """Also tolerances close to zero are passed on as they are."""
    for k, n in names.items():
        env.check("exactly the " + k, env.num(c[k]) == tol[n])


def options(env, cfg):
    """Limits, tolerances and bounds reach the algorithm."""
    T, C = cfg["T"], cfg["C"]
    sim = Sim(env, T, C, 1, stats=False)
    tol = {k: env.real(k, 0, 1000) for k in (
        "min_gradient_norm", "min_cost_gain", "min_amplitude_change",
        "max_iterations")}
    alg = Algorithm(env, T * C, 1)
    kw = {}
    if env.choice("bounds", 2):
        lo = env.rarr("lo", (T * C,))
        if cfg["kind"] == "ls":
            kw["bounds"] = [lo, env.rarr("hi", (T * C,))]
        else:
            kw["bounds"] = [(v, env.real("hi%d" % i))
                            for i, v in enumerate(lo)]
    method = "trf"
    if cfg["kind"] == "ls" and env.choice("method", 2):
        method = kw["method"] = "dogbox"
    opt = make(env, cfg, sim, termination_cond=dict(tol), **kw)
    opt.run_optimization(env.rarr("p", (T, C)))
    c = alg.calls[0]
    kw.pop("method", None)
    if cfg["kind"] == "ls":
        env.check("algorithm", c["kind"] == "least_squares"
                  and c["method"] == method)
        env.check_eq("tolerances", env.array(
            [c["ftol"], c["xtol"], c["gtol"], c["max_nfev"]]), env.array(
                [tol["min_cost_gain"], tol["min_amplitude_change"],
                 tol["min_gradient_norm"], tol["max_iterations"]]))
        exact(env, c, tol, ftol="min_cost_gain",
              xtol="min_amplitude_change", gtol="min_gradient_norm")
        if kw:
            for a, b in zip(c["bounds"], kw["bounds"]):
                env.check_eq("bounds", env.array(a), env.array(b))
        else:
            env.check("no bounds", len(c["bounds"]) == 2
                      and tuple(float(v) for v in c["bounds"])
                      == (-math.inf, math.inf))
        return
    env.check("algorithm", c["kind"] == "minimize"
              and c["method"] == cfg["kind"])
    o = c["options"]
    if cfg["kind"] == "L-BFGS-B":
        env.check_eq("tolerances", env.array(
            [o["ftol"], o["gtol"], o["maxiter"]]), env.array(
                [tol["min_cost_gain"], tol["min_gradient_norm"],
                 tol["max_iterations"]]))
        exact(env, o, tol, ftol="min_cost_gain", gtol="min_gradient_norm")
    elif cfg["kind"] == "Nelder-Mead":
        env.check_eq("iterations", o["maxiter"], tol["max_iterations"])
    if kw:
        env.check_eq("bounds", env.array(c["bounds"]),
                     env.array(kw["bounds"]))
    else:
        env.check("no bounds", c["bounds"] is None)


def real(env, cfg):
    """The optimizer with a real simulator and solver."""
    from . import c21
    s, values = c21.setup(env, {"T": 2, "C": 2, "tf": "over", "amp": 0,
                                "costs": ["s"]})
    alg = Algorithm(env, 4, 2)
    opt = make(env, {"kind": "L-BFGS-B"}, s)
    p0 = env.rarr("p", (2, 2))
    opt.run_optimization(p0)
    env.check_eq("start values", alg.calls[0]["x0"], flatten(env, p0))
    for kind, x, v in alg.log:
        def total(z):
            return sum(values(pulse_of(env, z, 2, 2)), env.num(0))
        if kind == "fun":
            env.check_eq("costs of the pulse", v, total(x))
        else:
            env.check_grad("gradient of the costs", total, x, v)
