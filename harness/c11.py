"""C11: a solver's results depend only on its current pulse and times."""
from .common import *
from .solv import *
from .c08 import generator

BOUNDS = ("every sequence of 3 (quick: 2 or 3) operations out of: set one of "
          "two pulses, read each result, set other step durations, a rejected "
          "pulse, the caller overwriting the arrays passed in, or the results got back before setting the other pulse; followed by "
          "reading the results in every order; two changes of the number of steps between 1 and 3; Schroedinger, Monte Carlo, "
          "control noise and Lindblad solvers, 2 steps, dimension 1..2; "
          "identity and exponential transfer function, arbitrary amplitude "
          "function")

KINDS = ("S", "Seager", "Sexp", "MC", "CN", "L", "Lpre", "Lfunc")


def configs(tier):
    big = tier == "thorough"
    for k in KINDS:
        for first in range(10):
            yield {"h": "hist", "kind": k, "n": 1, "len": 3 if (
                big or k in ("S", "Sexp", "Lpre")) else 2, "first": first,
                "w": 3}
        if k not in ("MC", "CN"):
            for T in (1, 2):
                yield {"h": "resize", "kind": k, "T": T}
        if big:
            yield {"h": "hist", "kind": k, "n": 2, "len": 2, "first": None,
                   "w": 10}


def resize(env, cfg):
    """Times with another number of steps; a single drift operator belongs
    to every step."""
    n, k = 1, cfg["kind"]
    import math
    hd, hc = env.herm("hd", n), env.herm("hc", n)
    data = {"rise": env.real("rise", positive=True),
            "f": env.uf("amp", lambda x: math.sin(x) + 0.3 * x * x),
            "f1": env.uf("damp", lambda x: math.cos(x) + 0.6 * x),
            "l": env.carr("l", (n, n)), "sup": env.carr("sup", (n * n,) * 2)}
    sizes = [cfg["T"]]
    for i in range(2):
        sizes.append(1 + env.choice("steps%d" % i, 3))
    s = None
    for i, T in enumerate(sizes):
        tau = [env.real("tau%d.%d" % (i, 0 if k == "Sexp" else t),
                        positive=True) for t in range(T)]
        y = env.rarr("y%d" % i, (T, 1))
        if s is None:
            s = make(env, cfg, hd, hc, env.array(tau), data,
                     env.choice("single", 2))
        else:
            s.set_times(env.array(tau))
        s.set_optimization_parameters(y.copy())
        if i < 2:
            if env.choice("read%d" % i, 2):
                [getattr(s, r) for r in READS]
            continue
        ref = make(env, cfg, hd, hc, env.array(tau), data)
        ref.set_optimization_parameters(y.copy())
        for r in READS:
            a, b = flat(getattr(s, r)), flat(getattr(ref, r))
            env.check("number of results", len(a) == len(b))
            env.check_eq("results of the current pulse and times",
                         env.np.concatenate([x.data for x in a]),
                         env.np.concatenate([x.data for x in b]))


def make(env, cfg, hd, hc, tau, data, single=0):
    sa, tf = env.q("solver_algorithms"), env.q("transfer_function")
    af = env.q("amplitude_functions")
    k = cfg["kind"]
    hd = op(env, hd)
    kw = dict(h_drift=hd if single else [hd], h_ctrl=[op(env, hc)], tau=tau)
    f, f1 = data["f"], data["f1"]

    def df(x):
        return env.array([[[f1(r[0])]] for r in x])
    kw["amplitude_function"] = af.CustomAmpFunc(f, df)
    if k == "Sexp":
        kw["transfer_function"] = tf.ExponentialMTF(
            awg_rise_time=data["rise"])
    if k in ("S", "Sexp"):
        return sa.SchroedingerSolver(
            calculate_propagator_derivatives=False, **kw)
    if k == "Seager":
        return sa.SchroedingerSolver(
            calculate_propagator_derivatives=True, **kw)
    gen = generator(env, data["smp"]) if "smp" in data else None
    if k == "MC":
        return sa.SchroedingerSMonteCarlo(
            h_noise=[op(env, data["hn"])], noise_trace_generator=gen, **kw)
    if k == "CN":
        return sa.SchroedingerSMCControlNoise(
            noise_trace_generator=gen, **kw)
    l = op(env, data["l"])
    if k == "L":
        return sa.LindbladSolver(lindblad_operators=[l], **kw)

    def pre(u, x):
        return env.array([[r[0] * r[0]] for r in u])

    def dpre(u, x):
        return env.array([[[2 * r[0]]] for r in u])
    if k == "Lpre":
        return sa.LindbladSolver(
            lindblad_operators=[l], prefactor_function=pre,
            prefactor_derivative_function=dpre, **kw)
    d = env.q("matrix").DenseOperator

    def sup(u, x):
        return [d(mscale(env, data["sup"], r[0] * r[0])) for r in u]

    def dsup(u, x):
        return [[d(mscale(env, data["sup"], 2 * r[0]))] for r in u]
    return sa.LindbladSolver(super_operator_function=sup,
                             super_operator_derivative_function=dsup, **kw)


READS = ("propagators", "forward_propagators", "reversed_propagators",
         "frechet_deriv_propagators")
NOISE = ("propagators_noise", "forward_propagators_noise",
         "reversed_propagators_noise", "frechet_deriv_propagators_noise")


def flat(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [x]


def hist(env, cfg):
    n, k = cfg["n"], cfg["kind"]
    import math
    hd, hc = env.herm("hd", n), env.herm("hc", n)
    tau, tau2 = [env.rarr(nm, (2,), positive=True) for nm in ("tau", "tau2")]
    if k == "Sexp":
        tau[1], tau2[1] = tau[0], tau2[0]
    data = {"rise": env.real("rise", positive=True),
            "f": env.uf("amp", lambda x: math.sin(x) + 0.3 * x * x),
            "f1": env.uf("damp", lambda x: math.cos(x) + 0.6 * x)}
    if k in ("MC", "CN"):
        data["smp"] = env.rarr("xi", (1, 2, 2))
        data["hn"] = env.herm("hn", n)
    if k[0] == "L":
        data["l"] = env.carr("l", (n, n))
        data["sup"] = env.carr("sup", (n * n, n * n))
    ys = [env.rarr(nm, (2, 1)) for nm in "yz"]
    arg_tau = tau.copy()
    s = make(env, cfg, hd, hc, arg_tau, data)
    passed = [ys[0].copy()]
    s.set_optimization_parameters(passed[-1])
    cur, cur_tau = 0, tau
    reads = READS + NOISE if k in ("MC", "CN") else READS
    for step in range(cfg["len"]):
        if step == 0 and cfg["first"] is not None:
            o = cfg["first"]
        else:
            o = env.choice("op%d" % step, 10)
        if o < 2:
            passed.append(ys[o].copy())
            s.set_optimization_parameters(passed[-1])
            cur = o
        elif o < 6:
            getattr(s, READS[o - 2])
            if len(reads) > 4:
                getattr(s, NOISE[o - 2])
        elif o == 6:
            arg_tau = tau2.copy()
            s.set_times(arg_tau)
            cur_tau = tau2
        elif o == 7:
            for a in passed:
                a[0, 0] = env.num(7)
            arg_tau[0] = env.num(9)
        elif o == 9:
            # results and parameters the caller got back are overwritten
            # before another pulse is set
            got = [getattr(s, r) for r in reads]
            for x in flat(got):
                x.data[...] = env.num(5)
            s.transferred_parameters[...] = env.num(3)
            cur = 1 - cur
            env.assume(ys[0][0, 0] != ys[1][0, 0])
            passed.append(ys[cur].copy())
            s.set_optimization_parameters(passed[-1])
        else:
            env.raises("wrong shape rejected", Exception,
                       lambda: s.set_optimization_parameters(
                           env.rarr("bad", (3, 1))))
    # reading in rotated order must not matter
    start = env.choice("order", 2)
    order = list(reads) if start else list(reads)[::-1]
    ref = make(env, cfg, hd, hc, cur_tau.copy(), data)
    ref.set_optimization_parameters(ys[cur].copy())
    for r in order:
        a, b = flat(getattr(s, r)), flat(getattr(ref, r))
        env.check("number of results", len(a) == len(b))
        env.check_eq("results of the current pulse and times",
                     env.np.concatenate([x.data for x in a]),
                     env.np.concatenate([x.data for x in b]))
