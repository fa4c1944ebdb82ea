"""C21: the simulator's costs, gradients and difference quotients."""
from .common import *
from .solv import *
from .cst import fixed
import time

BOUNDS = ("1..2 solvers, 1..3 cost functions with scalar and vector costs, "
          "1..2 time steps and controls, dimension 1..2, with and without "
          "oversampling, padding and amplitude function; every pulse, "
          "operator, duration, weight and step size"
          "; 5 steps, 4 controls and 4 cost functions, and 12 cost functions, in one "
          "configuration; labels of every cost function class")
ASSUMPTIONS = ["the cost functions are linear functionals of the total "
               "propagator with free weights, or a state infidelity; the "
               "cost functions themselves are decided by C12 to C15"]


def configs(tier):
    big = tier == "thorough"
    for T, C in ((1, 1), (2, 1), (1, 2), (2, 2)):
        for tf in (None, "over", "pad"):
            for amp in (0, 1):
                yield {"h": "values", "T": T, "C": C, "tf": tf, "amp": amp,
                       "costs": ["s", "v"]}
                if T * C < 4 or big:
                    yield {"h": "jac", "T": T, "C": C, "tf": tf, "amp": amp,
                           "costs": ["v", "s"]}
    yield {"h": "jac", "T": 1, "C": 1, "tf": "over", "amp": 1,
           "costs": ["s", "v", "s"], "two": 1}
    for amp in (0, 1, 2, 3):
        yield {"h": "jac", "T": 2, "C": 1, "tf": None, "amp": amp,
               "costs": ["s", "v"], "two": 1}
        yield {"h": "values", "T": 1, "C": 2, "tf": "over", "amp": amp,
               "costs": ["s", "v"], "two": 1}
    yield {"h": "values", "T": 5, "C": 4, "tf": "over", "amp": 0, "n": 1,
           "costs": ["v", "s", "s", "v"]}
    yield {"h": "values", "T": 1, "C": 1, "tf": None, "amp": 0,
           "costs": ["s"] * 7 + ["v"] * 5}
    yield {"h": "jac", "T": 1, "C": 1, "tf": None, "amp": 0,
           "costs": ["s"] * 7 + ["v"] * 5}
    yield {"h": "infid", "T": 1, "C": 2}
    for sym in (0, 1):
        for T, C in ((1, 1), (2, 1), (1, 2)):
            yield {"h": "numeric", "T": T, "C": C, "sym": sym, "tf": None,
                   "amp": 0, "costs": ["s", "v"]}
    for sym in (0, 1):
        yield {"h": "numeric", "T": 2, "C": 1, "sym": sym, "tf": None,
               "amp": 0, "costs": ["s"], "int": 1}
    yield {"h": "numeric", "T": 2, "C": 2, "sym": 1, "tf": "over", "amp": 1,
           "costs": ["v"]}
    yield {"h": "compare", "T": 1, "C": 1, "tf": None, "amp": 0,
           "costs": ["s"]}
    yield {"h": "compare", "T": 2, "C": 1, "tf": "over", "amp": 0,
           "costs": ["s"]}
    yield {"h": "compare", "T": 2, "C": 1, "tf": "over", "amp": 0,
           "costs": ["s"], "sym": 1}
    for tf in (None, "over"):
        yield {"h": "clock", "T": 2, "C": 1, "tf": tf, "amp": 0,
               "costs": ["s", "v", "s"]}
    yield {"h": "pulse", "T": 2, "C": 1, "tf": None, "amp": 0,
           "costs": ["s", "v"]}
    yield {"h": "history", "T": 2, "C": 1, "tf": "over", "amp": 1,
           "costs": ["v", "s"], "two": 1}
    for kind in LABELLED:
        yield {"h": "labels", "kind": kind}


LABELLED = ("state", "subspace", "state_noise", "operation", "operation_noise",
            "liouville", "leak", "incoherent", "leak_liouville",
            "norm_scalar", "norm_vector", "norm_axis", "filter")


def labels(env, cfg):
    """Default and given labels name every value a cost function returns."""
    kind = cfg["kind"]
    c = env.q("cost_functions")
    noise = kind in ("state_noise", "operation_noise", "liouville",
                     "incoherent")
    ket = kind.startswith("state")
    n = 4 if kind == "subspace" else 2
    cols = 1 if ket or n == 4 else 2
    fin = env.carr("f", (n, cols)) if kind != "norm_axis" else \
        env.unitary2("f")
    s, _ = fixed(env, n, [fin, fin], [[fin, fin]] * 2 if noise else None)
    t = env.carr("t", (2, 1 if cols == 1 else 2))
    if kind == "norm_axis":
        t = eye(env, 2)
    T = op(env, dagger(env, t) if ket or n == 4 else t)
    cls, args = {
        "state": (c.StateInfidelity, (T,)),
        "subspace": (c.StateInfidelitySubspace, (T, [2, 2], [0])),
        "state_noise": (c.StateNoiseInfidelity, (T,)),
        "operation": (c.OperationInfidelity, (T,)),
        "operation_noise": (c.OperationNoiseInfidelity, (T,)),
        "liouville": (c.LiouvilleMonteCarloEntanglementInfidelity, (T,)),
        "leak": (c.LeakageError, ([0],)),
        "incoherent": (c.IncoherentLeakageError, ([0],)),
        "leak_liouville": (c.LeakageLiouville, ([0],)),
        "norm_scalar": (c.OperatorMatrixNorm, (T, "scalar")),
        "norm_vector": (c.OperatorMatrixNorm, (T, "vector")),
        "norm_axis": (c.OperatorMatrixNorm, (T, "rotation_axis")),
        "filter": (c.OperatorFilterFunctionInfidelity,
                   (lambda o: o, env.rarr("om", (2,)))),
    }[kind]
    kw = {"input_unitary": True} if kind == "leak_liouville" else {}
    cf = cls(s, *args, **kw)
    env.check("solver of the cost function", cf.solver is s)
    env.check("labels are text", isinstance(cf.label, list) and len(
        cf.label) > 0 and all(isinstance(x, str) for x in cf.label))
    env.check("distinct labels", len(set(cf.label)) == len(cf.label))
    own = ["own%d" % i for i in range(len(cf.label))]
    cg = cls(s, *args, label=list(own), **kw)
    env.check("given labels", list(cg.label) == own)
    sim = env.q("simulator").Simulator([s], [cg, cf])
    env.check("names of the costs", list(sim.cost_indices) ==
              own + list(cf.label))
    twice = env.q("simulator").Simulator([s], [cf, cg, cf])
    env.check("names of repeated costs", list(twice.cost_indices) ==
              list(cf.label) + own + list(cf.label))
    if kind == "norm_vector":
        # real parts, then imaginary parts, row by row
        env.check("names of the entries", cf.label == [
            "%s%d%d" % (p, i, j) for p in ("redu", "imdu")
            for i in (1, 2) for j in (1, 2)])
    if kind.startswith("norm_") and kind != "norm_axis":
        env.assume(abs2(fin[0, 0]) > 0.01)
    if kind not in ("filter", "norm_axis"):
        v = cf.costs()
        shape = getattr(v, "shape", ())
        size = 1
        for k in shape:
            size *= k
        env.check("one label per value", len(cf.label) == size)


def lin_cost(env, solver, nm, vector):
    """Re(w_f U): a scalar or two values."""
    cf = env.q("cost_functions")
    F = 2 if vector else 1
    w = [env.cplx("%s.w%d" % (nm, f)) for f in range(F)]

    class Lin(cf.CostFunction):
        def __init__(self):
            super().__init__(solver=solver, label=[
                "%s%d" % (nm, f) for f in range(F)])

        def costs(self):
            u = self.solver.forward_propagators[-1].data[0, 0]
            c = [(x * u).real for x in w]
            return env.array(c) if vector else c[0]

        def grad(self):
            s = self.solver
            d = s.frechet_deriv_propagators
            f, r = s.forward_propagators, s.reversed_propagators[::-1]
            out = []
            for t in range(len(d[0])):
                rows = []
                for x in w:
                    rows.append([(x * r[t + 1].data[0, 0]
                                  * d[c][t].data[0, 0]
                                  * f[t].data[0, 0]).real
                                 for c in range(len(d))])
                out.append(rows if vector else rows[0])
            return env.array(out)
    return Lin()


def setup(env, cfg, stats=True, **kw):
    T, C = cfg["T"], cfg["C"]
    sa, tfm = env.q("solver_algorithms"), env.q("transfer_function")
    sim = env.q("simulator")
    solvers, refs = [], []
    for i in range(2 if cfg.get("two") else 1):
        nm = "s%d" % i
        tf = {"over": lambda: tfm.OversamplingTF(
                  num_ctrls=C, oversampling=2),
              "pad": lambda: tfm.OversamplingMTF(
                  num_ctrls=C, bound_type=("right_n", 1), oversampling=1),
              None: lambda: None}[cfg["tf"] if not i else None]()
        X = {"over": 2 * T, "pad": T + 1, None: T}[
            cfg["tf"] if not i else None]
        hd = env.real(nm + ".hd")
        hc = [env.real("%s.hc%d" % (nm, c)) for c in range(C)]
        tau = env.rarr(nm + ".tau", (T,), positive=True)
        z = env.num(0)
        one = lambda v: op(env, env.mat([[v + env._c(0, 0)]]))
        ex = {}
        if tf is not None:
            ex["transfer_function"] = tf
        if cfg["amp"] == 1 or cfg["amp"] == 2 + i:
            amp, ref = amp_fn(env, "uf", C, ("amp", "pma")[i], 1. + i)
            ex["amplitude_function"] = amp
        else:
            ref = lambda xs: list(xs)
        solvers.append(sa.SchroedingerSolver(
            h_drift=[one(hd)], h_ctrl=[one(h) for h in hc], tau=tau.copy(),
            **ex))

        def total(y, X=X, tfk=cfg["tf"] if not i else None, hd=hd, hc=hc,
                  tau=tau, ref=ref):
            u, d = [], []
            for t in range(T):
                r = [y[t, c] for c in range(C)]
                if tfk == "over":
                    u += [r, r]
                    d += [tau[t] / 2] * 2
                else:
                    u.append(r)
                    d.append(tau[t])
            if tfk == "pad":
                u.append([env.num(0)] * C)
                d.append(tau[-1])
            out = env._c(1, 0)
            for r, dt in zip(u, d):
                h = hd
                for c, v in enumerate(ref(r)):
                    h = h + hc[c] * v
                out = out * texp(env, env.mat([[-env.I * h]]), dt)[0, 0]
            return out
        refs.append(total)
    costs, cr = [], []
    for j, k in enumerate(cfg["costs"]):
        i = j % len(solvers)
        nm = "c%d" % j
        costs.append(lin_cost(env, solvers[i], nm, k == "v"))
        F = 2 if k == "v" else 1
        cr.append((i, [env.cplx("%s.w%d" % (nm, f)) for f in range(F)]))

    def values(y):
        us = [r(y) for r in refs]
        return [(x * us[i]).real for i, w in cr for x in w]
    s = sim.Simulator(solvers=solvers, cost_funcs=costs,
                      record_performance_statistics=stats, **kw)
    return s, values


def pulse_(env, cfg, name="y"):
    return env.rarr(name, (cfg["T"], cfg["C"]))


def values(env, cfg):
    stats = env.choice("stats", 2) == 1
    s, ref = setup(env, cfg, stats)
    y = pulse_(env, cfg)
    y0 = y.copy()
    env.check_eq("costs", s.wrapped_cost_functions(y), env.array(ref(y0)))
    env.check_eq("pulse unchanged", y, y0)
    env.check("labels", s.cost_indices == [
        "c%d%d" % (j, f) for j, k in enumerate(cfg["costs"])
        for f in range(2 if k == "v" else 1)])
    if stats:
        env.check("one time per cost function",
                  [len(x) for x in s.stats.cost_func_eval_times] ==
                  [len(cfg["costs"])])
    else:
        env.check("no statistics", s.stats is None)


def jac(env, cfg):
    stats = env.choice("stats", 2) == 1
    s, ref = setup(env, cfg, stats)
    y = pulse_(env, cfg)
    y0 = y.copy()
    if env.choice("costs first", 2):
        s.wrapped_cost_functions(y)
    j = s.wrapped_jac_function(y)
    F = len(ref(y0))
    env.check("shape", tuple(j.shape) == (cfg["T"], F, cfg["C"]))
    env.check_eq("pulse unchanged", y, y0)
    env.check_grad("gradient of the costs", lambda x: env.array(ref(x)), y0,
                   env.array([[[j[t, f, c] for c in range(cfg["C"])]
                               for t in range(cfg["T"])] for f in range(F)]))
    if stats:
        env.check("one time per cost function",
                  [len(x) for x in s.stats.grad_func_eval_times] ==
                  [len(cfg["costs"])])


def infid(env, cfg):
    """A state infidelity through oversampling and an amplitude function."""
    b = build(env, {"n": 2, "T": cfg["T"], "C": cfg["C"], "drift": "op",
                    "amp": "uf", "init": "ket"})
    t = env.carr("t", (2, 1))
    cf = env.q("cost_functions").StateInfidelity(b["s"], op(env, t))
    s = env.q("simulator").Simulator([b["s"]], [cf])
    y = pars(env, b)
    c = s.wrapped_cost_functions(y)
    j = s.wrapped_jac_function(y)
    env.check_grad("gradient of the infidelity", lambda x: c[0]
                   if env.symbolic else s.wrapped_cost_functions(x)[0], y,
                   j[:, 0, :])


def diffq(env, ref, y, e, sym):
    T, C = y.shape
    c0 = ref(y)
    out = [[[None] * C for _ in c0] for _ in range(T)]
    for t in range(T):
        for c in range(C):
            p, m = y.copy(), y.copy()
            p[t, c] = p[t, c] + e
            m[t, c] = m[t, c] - e
            a, b = ref(p), ref(m)
            for f in range(len(c0)):
                out[t][f][c] = (a[f] - b[f]) / (2 * e) if sym else \
                    (a[f] - c0[f]) / e
    return env.array(out)


def numeric(env, cfg):
    s, ref = setup(env, cfg)
    y = pulse_(env, cfg)
    y0 = y.copy()
    if cfg.get("int"):
        # whole numbers, stored as such
        y0 = env.array([[env.num(t - c + 1.) for c in range(cfg["C"])]
                        for t in range(cfg["T"])])
        y = env.np.array([[t - c + 1 for c in range(cfg["C"])]
                          for t in range(cfg["T"])])
    e = env.real("eps", positive=True)
    g = s.numeric_gradient(y, delta_eps=e, symmetric=bool(cfg["sym"]))
    env.check_eq("difference quotient", g, diffq(env, ref, y0, e,
                                                 cfg["sym"]))
    env.check_eq("pulse unchanged", y, y0)
    s.pulse_ = None


def compare(env, cfg):
    s, ref = setup(env, cfg)
    y = pulse_(env, cfg)
    e = env.real("eps", positive=True)
    kw = {"symmetric": True} if cfg.get("sym") else {}
    num = s.numeric_gradient(y, delta_eps=e, **kw)
    ana = s.wrapped_jac_function(y)
    d2 = env.num(0)
    for t in range(cfg["T"]):
        d = num[t, 0, 0] - ana[t, 0, 0]
        d2 = d2 + d * d
    env.assume(d2 > 0.001)
    d, r = s.compare_numeric_to_analytic_gradient(y, delta_eps=e, **kw)
    env.check_eq("norm of the difference", d * d, d2)
    env.check("norm of the difference", d >= 0)
    n1 = env.sqrt(sum((num[t, 0, 0] ** 2 for t in range(cfg["T"])),
                      env.num(0)))
    n2 = env.sqrt(sum((ana[t, 0, 0] ** 2 for t in range(cfg["T"])),
                      env.num(0)))
    env.assume(n1 + n2 > 0.001)
    env.check_eq("relative difference", r * (n1 + n2), 2 * d)


def pulse(env, cfg):
    s, ref = setup(env, cfg, env.choice("stats", 2) == 1)
    y, z = pulse_(env, cfg), pulse_(env, cfg, "z")
    env.check("no pulse", s.pulse is None)
    s.pulse = y
    env.check_eq("pulse", s.pulse, y)
    times = env.rarr("times", (cfg["T"],))
    s2, _ = setup(env, cfg, times=times)
    s2.pulse = y
    s2.check()
    s2, _ = setup(env, cfg, times=times, optimization_parameters=y,
                  num_times=cfg["T"], num_ctrl=cfg["C"])
    s2.check()
    for wrong in ((cfg["T"] + 1, cfg["C"]), (cfg["T"], cfg["C"] + 1)):
        s2, _ = setup(env, cfg, times=times, optimization_parameters=y,
                      num_times=wrong[0], num_ctrl=wrong[1])
        env.raises("sizes of the pulse", ValueError, s2.check)
    s2, _ = setup(env, cfg, times=times)
    s2.pulse = env.rarr("long", (cfg["T"] + 1, cfg["C"]))
    env.raises("one time per row of the pulse", ValueError, s2.check)
    env.check_eq("costs of the stored pulse", s.wrapped_cost_functions(),
                 env.array(ref(y)))
    s.pulse = z
    env.check_eq("costs of the new pulse", s.wrapped_cost_functions(),
                 env.array(ref(z)))
    j = s.wrapped_jac_function(z)
    env.check_eq("gradient of the stored pulse", s.wrapped_jac_function(), j)
    # another pulse was evaluated in between
    for how in range(3):
        kw = {"pulse": s.pulse} if how == 2 else {}
        s.wrapped_cost_functions(y)
        if how:
            s.wrapped_jac_function(y)
        env.check_eq("gradient of the stored pulse after another",
                     s.wrapped_jac_function(**kw), j)
        s.wrapped_jac_function(y)
        env.check_eq("costs of the stored pulse after another",
                     s.wrapped_cost_functions(**kw), env.array(ref(z)))
    # the stored pulse is changed in place
    s.pulse = w = z.copy()
    s.wrapped_jac_function()
    w[...] = y
    env.check_eq("costs of the changed pulse", s.wrapped_cost_functions(),
                 env.array(ref(y)))
    w[...] = z
    env.check_eq("gradient of the changed pulse", s.wrapped_jac_function(), j)
    s.pulse = z
    e = env.real("eps", positive=True)
    g = s.numeric_gradient(z, delta_eps=e)
    env.check_eq("difference quotient of the stored pulse",
                 s.numeric_gradient(delta_eps=e), g)
    s2, ref = setup(env, cfg, optimization_parameters=y)
    env.check_eq("pulse given at construction",
                 s2.wrapped_cost_functions(), env.array(ref(y)))
    s2, ref = setup(env, cfg, optimization_parameters=y,
                    numeric_jacobian=True)
    env.check_eq("numeric jacobian", s2.wrapped_jac_function(z),
                 s2.numeric_gradient(z))


def clock(env, cfg):
    """The statistics hold the time every cost function takes."""
    s, ref = setup(env, cfg)
    now = [env.real("start")]
    if env.symbolic:
        env.hook("time", lambda: now[0])
    else:
        for nm in ("time", "perf_counter", "monotonic"):
            env.patch(time, nm, lambda: float(now[0]))
    took = {"costs": [], "grad": []}

    def slow(cf, kind):
        f = getattr(cf, kind)

        def g():
            d = env.real("d%d" % sum(len(x) for v in took.values()
                                     for x in v), lo=0)
            r = f()
            now[0] = now[0] + d
            took[kind][-1].append(d)
            return r
        setattr(cf, kind, g)
    for cf in s.cost_funcs:
        slow(cf, "costs")
        slow(cf, "grad")
    y = pulse_(env, cfg)
    for k in range(3):
        if env.choice("op%d" % k, 2):
            took["costs"].append([])
            s.wrapped_cost_functions(y)
        else:
            took["grad"].append([])
            s.wrapped_jac_function(y)
    for kind, rec in (("costs", s.stats.cost_func_eval_times),
                      ("grad", s.stats.grad_func_eval_times)):
        env.check("one entry per evaluation", [len(x) for x in rec]
                  == [len(x) for x in took[kind]])
        for a, b in zip(rec, took[kind]):
            env.check_eq("time of every cost function", env.array(list(a)),
                         env.array(b))


def history(env, cfg):
    """Evaluations depend only on the pulse handed over."""
    s, ref = setup(env, cfg, env.choice("stats", 2) == 1)
    f, _ = setup(env, cfg)
    y, z = pulse_(env, cfg), pulse_(env, cfg, "z")
    jy, jz = f.wrapped_jac_function(y), None
    for k in range(3):
        w = (y, z)[env.choice("pulse%d" % k, 2)]
        if env.choice("op%d" % k, 2):
            env.check_eq("costs", s.wrapped_cost_functions(w),
                         env.array(ref(w)))
        else:
            j = s.wrapped_jac_function(w)
            if w is y:
                env.check_eq("gradient", j, jy)
            else:
                jz = j if jz is None else jz
                env.check_eq("gradient", j, jz)
