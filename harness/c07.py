"""C07: derivatives of the propagators by the control amplitudes."""
from .common import *
from .solv import *

BOUNDS = ("1..3 time steps, 1..3 controls, dimension 2 (thorough 3); exact "
          "Frechet derivatives eager and on demand, Taylor methods, spectral "
          "method, first order GRAPE approximation; every hermitian operator, "
          "duration and amplitude"
          "; up to 7 steps and 5 controls in dimension 1, 4 steps or 5 "
          "controls in dimension 2; an oversampling transfer function with "
          "offset, 2 or 4 transferred steps; dimension 3 "
          "and 4; 12 steps in dimension 1")


def configs(tier):
    big = tier == "thorough"
    for T in (1, 2, 3):
        for C in (1, 2, 3):
            if not big and T * C > 4:
                continue
            yield {"h": "frechet", "T": T, "C": C, "eager": T != C}
            yield {"h": "grape", "T": T, "C": C}
            yield {"h": "total", "T": T, "C": C, "w": T * C}
    yield {"h": "frechet", "T": 2, "C": 2, "eager": True}
    yield {"h": "frechet", "T": 3, "C": 1, "eager": False, "drift": "op"}
    for m in ("first_order", "second_order", "third_order"):
        yield {"h": "frechet", "T": 1 if m == "third_order" else 2, "C": 1,
               "eager": False, "method": m, "dm": 1, "w": 5}
    for T, C, n in ((7, 5, 1), (4, 2, 2), (2, 5, 2)):
        yield {"h": "frechet", "T": T, "C": C, "n": n, "eager": n == 1}
        yield {"h": "grape", "T": T, "C": C, "n": n}
        yield {"h": "total", "T": T, "C": C, "n": n, "w": 4}
    for h in ("frechet", "grape", "total"):
        yield {"h": h, "T": 2, "C": 2, "n": 3, "eager": True, "w": 4}
        yield {"h": h, "T": 1, "C": 2, "n": 4, "eager": False, "w": 4}
        yield {"h": h, "T": 12, "C": 1, "n": 1, "eager": False, "w": 4}
    # transfer functions: finer time grid, shifted values
    for h in ("frechet", "grape"):
        yield {"h": h, "T": 2, "C": 2, "tf": 2, "eager": True}
        yield {"h": h, "T": 1, "C": 2, "tf": 2, "amp": "uf", "eager": False}
    yield {"h": "spectral"}
    if big:
        yield {"h": "frechet", "T": 2, "C": 2, "n": 3, "eager": False}
        yield {"h": "total", "T": 2, "C": 2, "n": 3, "w": 9}
    yield {"h": "reject"}


def frechet(env, cfg):
    m = cfg.get("method")
    if cfg.get("dm"):
        # exponential in dexp is spectral: only the derivative is compared
        hook_expm(env, 2)
    b = build(env, cfg, calculate_propagator_derivatives=cfg["eager"])
    s = b["s"]
    y = pars(env, b)
    s.set_optimization_parameters(y)
    y = b["x"](y)
    if not cfg["eager"] and not cfg.get("dm"):
        # the propagators are available before the derivatives
        check_list(env, "propagators", s.propagators,
                   props(env, b, y, m))
    d = s.frechet_deriv_propagators
    g = gens(env, b, y)
    env.check("one list per control", len(d) == b["C"])
    for c in range(b["C"]):
        env.check("one entry per time step", len(d[c]) == b["T"])
        for t in range(b["T"]):
            env.check_eq("derivative[control][time]", d[c][t].data, tdexp(
                env, g[t], mscale(env, b["hc"][c], -env.I), b["tau"][t], m))
    if not cfg.get("dm"):
        check_list(env, "propagators with derivatives", s.propagators,
                   props(env, b, y, m))
        check_list(env, "forward", s.forward_propagators,
                   fwd(env, props(env, b, y, m), b["psi"]))
    inputs_unchanged(env, b)


def hook_expm(env, n):
    """eigensolvers are not consulted for the derivative itself; the
    exponential computed on the side is left arbitrary."""
    if not env.symbolic:
        return

    def solve(a, *x, **k):
        return env.carr("junk_l", (n,)), eye(env, n)
    env.hook("eig", solve)
    env.hook("sci_eig", solve)


def grape(env, cfg):
    b = build(env, cfg, calculate_propagator_derivatives=False,
              frechet_deriv_approx_method="grape")
    s = b["s"]
    y = pars(env, b)
    s.set_optimization_parameters(y)
    y = b["x"](y)
    ps = props(env, b, y)
    d = s.frechet_deriv_propagators
    env.check("one list per control", len(d) == b["C"])
    for c in range(b["C"]):
        env.check("one entry per time step", len(d[c]) == b["T"])
        for t in range(b["T"]):
            ref = mscale(env, mm(env, mscale(env, b["hc"][c], -env.I),
                                 ps[t]), b["tau"][t])
            env.check_eq("derivative[control][time]", d[c][t].data, ref)
    check_list(env, "propagators", s.propagators, ps)
    inputs_unchanged(env, b)


def total(env, cfg):
    """The product rule built from forward, reversed and derivative
    propagators is the gradient of the total propagator."""
    b = build(env, cfg)
    s = b["s"]
    y = pars(env, b)
    T, C, n = b["T"], b["C"], b["n"]
    s.set_optimization_parameters(y)
    f, r, d = (s.forward_propagators, s.reversed_propagators,
               s.frechet_deriv_propagators)
    out = [[[[None] * C for _ in range(T)] for _ in range(n)]
           for _ in range(n)]
    for t in range(T):
        for c in range(C):
            g = (r[T - t - 1] * d[c][t] * f[t]).data
            for i in range(n):
                for j in range(n):
                    out[i][j][t][c] = g[i, j]

    def cost(x):
        if env.symbolic:
            return fwd(env, props(env, b, x), b["psi"])[-1]
        s.set_optimization_parameters(x)
        return s.forward_propagators[-1].data
    env.check_grad("gradient of the total propagator", cost, y,
                   env.array(out))


def spectral(env, cfg):
    K, lam, V = eig_setup(env, 2)
    env.assume(lam[0] > lam[1] + 0.05)
    hc = env.herm("hc", 2)
    y = env.rarr("y", (1, 1))
    tau = env.rarr("tau", (1,), positive=True)
    hd = madd(env, K, hc, -y[0, 0])
    s = env.q("solver_algorithms").SchroedingerSolver(
        h_drift=[op(env, hd)], h_ctrl=[op(env, hc)], tau=tau,
        exponential_method="spectral")
    s.set_optimization_parameters(y)
    d = s.frechet_deriv_propagators[0][0].data
    t = tau[0]
    if env.symbolic:
        f = mchain(env, dagger(env, V), hc, V)
        g = env.mat([[-env.I * f[i, j] * ddiff(
            env, t, -env.I * lam[i], -env.I * lam[j])
            for j in range(2)] for i in range(2)])
        ref = mchain(env, V, g, dagger(env, V))
    else:
        ref = env.frechet(-1j * K * t, -1j * hc * t)
    env.check_eq("spectral derivative", d, ref)


def reject(env, cfg):
    b = build(env, {"T": 2, "C": 1}, frechet_deriv_approx_method="none")
    b["s"].set_optimization_parameters(pars(env, b))
    env.raises("unknown approximation", ValueError,
               lambda: b["s"].frechet_deriv_propagators)
