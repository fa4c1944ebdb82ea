"""C06: propagators of the Schroedinger solver."""
from .common import *
from .solv import *

BOUNDS = ("1..3 time steps with symbolic positive durations, 1..2 controls, "
          "dimension 2 (1 and 3 for single steps), drift per step / single "
          "operator / one element list, initial state identity / ket / "
          "matrix, amplitudes through linear and arbitrary functions; every "
          "hermitian drift and control operator, every amplitude"
          "; up to 9 steps and 5 controls in dimension 1, 5 steps and 4 "
          "controls in dimension 2; an oversampling transfer function with "
          "offset, up to 4 transferred steps; dimension 3 and 4 for 1..2 "
          "steps; 12 steps in dimension 1; control amplitudes given at "
          "construction, durations as a list")


def configs(tier):
    big = tier == "thorough"
    yield {"h": "run", "T": 2, "C": 1, "amp": "clin", "drift": "op"}
    for T in ((1, 2, 3) if not big else (1, 2, 3, 4)):
        for drift in ("list", "op", "one"):
            yield {"h": "run", "T": T, "C": 1, "drift": drift}
        yield {"h": "run", "T": T, "C": 2, "init": "ket"}
    for init in ("ket", "mat"):
        yield {"h": "run", "T": 2, "C": 1, "init": init}
    for amp in ("lin", "uf"):
        yield {"h": "run", "T": 2, "C": 2, "amp": amp, "init": "ket"}
    for m in ("approx", "first_order", "second_order", "third_order"):
        yield {"h": "run", "T": 1, "C": 1, "method": m, "deriv": False}
        if big or m != "third_order":
            yield {"h": "run", "T": 2, "C": 1, "method": m, "deriv": False,
                   "init": "ket", "w": 5}
    yield {"h": "run", "T": 2, "C": 1, "n": 1}
    # transfer functions: finer time grid, shifted values
    yield {"h": "run", "T": 2, "C": 2, "tf": 2}
    yield {"h": "run", "T": 1, "C": 2, "tf": 3, "amp": "uf", "init": "mat"}
    yield {"h": "run", "T": 2, "C": 1, "tf": 2, "amp": "lin", "drift": "op"}
    # more steps and controls than any other configuration
    yield {"h": "run", "T": 9, "C": 5, "n": 1}
    yield {"h": "run", "T": 5, "C": 4, "init": "ket"}
    yield {"h": "run", "T": 4, "C": 5, "drift": "list"}
    yield {"h": "run", "T": 1, "C": 2, "n": 3}
    yield {"h": "run", "T": 2, "C": 1, "n": 4, "init": "ket"}
    yield {"h": "run", "T": 1, "C": 2, "n": 4, "init": "mat"}
    yield {"h": "run", "T": 12, "C": 1, "n": 1}
    yield {"h": "run", "T": 1, "C": 12, "n": 1}
    if big:
        yield {"h": "run", "T": 2, "C": 2, "n": 3}
        yield {"h": "run", "T": 3, "C": 3, "n": 2}
    yield {"h": "run", "T": 2, "C": 2, "deriv": False, "nonherm": 1}
    yield {"h": "spectral", "T": 1, "deriv": False}
    yield {"h": "spectral", "T": 2, "deriv": False, "w": 9}
    for T, C in ((1, 1), (3, 2), (2, 4)):
        yield {"h": "initial", "T": T, "C": C, "drift": "op"}
    yield {"h": "reject"}


def run(env, cfg):
    b = build(env, cfg, calculate_propagator_derivatives=cfg.get(
        "deriv", True))
    s = b["s"]
    y = pars(env, b)
    y0 = y.copy()
    s.set_optimization_parameters(y)
    ps = props(env, b, b["x"](y0), cfg.get("method"))
    check_list(env, "propagators", s.propagators, ps)
    f = fwd(env, ps, b["psi"])
    r = rev(env, ps)
    check_list(env, "forward propagators", s.forward_propagators, f)
    check_list(env, "reversed propagators", s.reversed_propagators, r)
    for t in range(b["T"] + 1):
        env.check_eq("reversed times forward is the total propagation",
                     mm(env, s.reversed_propagators[b["T"] - t].data,
                        s.forward_propagators[t].data), f[-1])
    env.check_eq("parameters unchanged", y, y0)
    env.check_eq("initial state unchanged", s.initial_state.data, b["psi"])
    inputs_unchanged(env, b)
    # reading again gives the same
    check_list(env, "second read", s.forward_propagators, f)
    # the time grid is the one given
    env.check_eq("durations", s.transferred_time, b["tau"])


def initial(env, cfg):
    """Control amplitudes and durations (as a list) given at construction."""
    T, C = cfg["T"], cfg["C"]
    u = env.rarr("u", (T, C))
    u0 = u.copy()
    eager = env.choice("eager", 2) == 1
    b = build(env, cfg, ctrl_amps=u, calculate_propagator_derivatives=eager)
    s = b["s"]

    def look(y):
        ps = props(env, b, y)
        check_list(env, "propagators", s.propagators, ps)
        check_list(env, "forward propagators", s.forward_propagators,
                   fwd(env, ps, b["psi"]))
        check_list(env, "reversed propagators", s.reversed_propagators,
                   rev(env, ps))
    if env.choice("read", 2):
        look(u0)
    y = pars(env, b)
    s.set_optimization_parameters(y)
    look(y)
    env.check_eq("given amplitudes unchanged", u, u0)
    # durations as a list, amplitudes equal to the initial ones
    s = b["s"] = env.q("solver_algorithms").SchroedingerSolver(
        h_drift=b["drift"], h_ctrl=b["ops"], tau=list(b["tau"]), ctrl_amps=u)
    s.set_optimization_parameters(u0)
    look(u0)
    inputs_unchanged(env, b)


def spectral(env, cfg):
    """Total propagator is unitary for hermitian Hamiltonians."""
    T = cfg["T"]
    sa = env.q("solver_algorithms")
    known, Ks, Ls, Vs = [], [], [], []
    for t in range(T):
        V = env.unitary2("v%d" % t)
        lam = [env.real("lam%d_%d" % (t, i)) for i in range(2)]
        K = mchain(env, V, diag(env, lam), dagger(env, V))
        known.append((K, lam, V))
        Ks.append(K)
        Ls.append(lam)
        Vs.append(V)
    eig_hooks(env, known)
    hc = env.herm("hc", 2)
    y = env.rarr("y", (T, 1))
    hd = [madd(env, Ks[t], hc, -y[t, 0]) for t in range(T)]
    tau = env.rarr("tau", (T,), positive=True)
    s = sa.SchroedingerSolver(
        h_drift=[op(env, h) for h in hd], h_ctrl=[op(env, hc)], tau=tau,
        exponential_method="spectral",
        calculate_propagator_derivatives=False)
    s.set_optimization_parameters(y)
    ps = [mchain(env, Vs[t], diag(env, [env.exp(-env.I * x * tau[t])
                                        for x in Ls[t]]), dagger(env, Vs[t]))
          for t in range(T)]
    check_list(env, "propagators", s.propagators, ps)
    if T == 1:
        U = s.forward_propagators[-1].data
        env.check_eq("unitary", mm(env, U, dagger(env, U)), eye(env, 2))
    else:
        for p in s.propagators:
            env.check_eq("unitary", mm(env, p.data, dagger(env, p.data)),
                         eye(env, 2))


def reject(env, cfg):
    b = build(env, {"T": 2, "C": 2})
    s = b["s"]
    env.raises("amplitudes missing", (ValueError, TypeError),
               lambda: s.propagators)
    for nm, shp in (("time axis", (3, 2)), ("control axis", (2, 1)),
                    ("control axis", (2, 3))):
        y = env.rarr("bad%d%d" % shp, shp)
        env.raises("wrong %s" % nm, (ValueError, IndexError),
                   lambda: s.set_optimization_parameters(y))
        # a rejected array does not become the current one
        env.raises("wrong %s again" % nm, (ValueError, IndexError),
                   lambda: s.set_optimization_parameters(y))
    y = pars(env, b)
    s.set_optimization_parameters(y)
    ref = fwd(env, props(env, b, y), b["psi"])
    check_list(env, "after rejection", s.forward_propagators, ref)
    env.raises("rejected", (ValueError, IndexError),
               lambda: s.set_optimization_parameters(env.rarr("z", (1, 2))))
    check_list(env, "kept after rejection", s.forward_propagators, ref)
    sa = env.q("solver_algorithms")
    h = op(env, env.herm("h", 2))
    h3 = op(env, env.herm("h3", 3))
    tau = env.rarr("tau", (3,), positive=True)
    env.raises("drift length", ValueError, lambda: sa.SchroedingerSolver(
        h_drift=[h, h], h_ctrl=[h], tau=tau))
    env.raises("drift dimension", AssertionError,
               lambda: sa.SchroedingerSolver(h_drift=[h3], h_ctrl=[h],
                                             tau=tau))
    env.raises("control dimension", AssertionError,
               lambda: sa.SchroedingerSolver(h_drift=[h], h_ctrl=[h, h3],
                                             tau=tau))
    env.raises("dimension of tau", (ValueError, IndexError),
               lambda: sa.SchroedingerSolver(
                   h_drift=[h], h_ctrl=[h], tau=env.rarr("t2", (2, 2))))
