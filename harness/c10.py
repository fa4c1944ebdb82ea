"""C10: Lindblad master equation solver."""
from .common import *
from .solv import *

BOUNDS = ("dimension 2 (4x4 superoperators; dimension 1 and 3 for the "
          "generator of one step), 1..2 time steps, 1..2 controls, 0..2 "
          "dissipation channels given as Lindblad operators, dissipation "
          "superoperators or functions, with and without prefactors; every "
          "operator entry, rate, duration and amplitude"
          "; up to 5 steps, 4 controls and 4 channels in dimension 1; "
          "12 steps with one channel; propagators in dimension 3 and 4; "
          "oversampling transfer function with offset and arbitrary amplitude functions")


def configs(tier):
    big = tier == "thorough"
    for how in ("lind", "sup", "lindpre", "suppre", "func"):
        for T, C, L in ((1, 1, 1), (2, 1, 2), (2, 2, 1)) + (
                ((3, 2, 2),) if big else ()):
            yield {"h": "props", "how": how, "T": T, "C": C, "L": L}
            yield {"h": "deriv", "how": how, "T": T, "C": C, "L": L,
                   "dpre": how not in ("lind", "sup")}
        yield {"h": "props", "how": how, "T": 5, "C": 4, "L": 4, "n": 1}
        yield {"h": "deriv", "how": how, "T": 4, "C": 3, "L": 3, "n": 1,
               "dpre": how not in ("lind", "sup")}
        yield {"h": "deriv", "how": how, "T": 1, "C": 1, "L": 1, "dpre": 0,
               "grape": 1}
        yield {"h": "props", "how": how, "T": 1, "C": 2, "L": 2, "n": 3}
        yield {"h": "props", "how": how, "T": 1, "C": 1, "L": 1, "n": 4}
        yield {"h": "props", "how": how, "T": 12, "C": 1, "L": 1, "n": 1}
    yield {"h": "props", "how": "lind", "T": 2, "C": 2, "L": 1,
           "init": "rho"}
    yield {"h": "props", "how": "lindpre", "T": 2, "C": 2, "L": 1,
           "amp": "lin", "init": "rho"}
    for how in ("lindpre", "suppre", "func"):
        # Lindblad operators of dimension 1 do not dissipate
        n = 2 if how == "lindpre" else 1
        yield {"h": "props", "how": how, "T": 2, "C": 1, "L": 2, "tf": 2,
               "amp": "uf"}
        yield {"h": "deriv", "how": how, "T": 1 if n == 2 else 2, "C": 2,
               "L": 2, "tf": 2, "amp": "uf", "dpre": 1, "n": n, "eager": 1}
        yield {"h": "deriv", "how": how, "T": 2, "C": 2, "L": 2,
               "amp": "lin", "dpre": 1, "n": n, "before": 1}
        yield {"h": "deriv", "how": how, "T": 3 - n, "C": 2, "L": 3,
               "amp": "uf", "dpre": 1, "grape": 1, "n": n}
    for m in ("first_order", "approx"):
        yield {"h": "props", "how": "suppre", "T": 2, "C": 1, "L": 2,
               "method": m, "n": 1}
    for sk in (None, False):
        yield {"h": "spectral", "T": 2, "skew": sk}
    yield {"h": "grad", "how": "lindpre", "T": 1, "C": 1, "L": 1}
    yield {"h": "grad", "how": "func", "T": 1, "C": 2, "L": 1}
    yield {"h": "reuse", "how": "lind", "T": 2, "C": 1, "L": 2}
    yield {"h": "reuse", "how": "sup", "T": 2, "C": 1, "L": 2}
    yield {"h": "reuse", "how": "suppre", "T": 2, "C": 1, "L": 2}
    yield {"h": "master", "n": 2, "L": 1}
    yield {"h": "master", "n": 2, "L": 2}
    if big:
        yield {"h": "master", "n": 3, "L": 1, "w": 9}


def dissipator(env, l):
    """D such that D vec(r) = vec(l r l^d - (l^d l r + r l^d l)/2),
    columns from the action on matrix units."""
    n = l.shape[0]
    ld = dagger(env, l)
    ll = mm(env, ld, l)
    cols = []
    for j in range(n):
        for i in range(n):
            e = zeros(env, n, n)
            e[i, j] = env._c(1, 0)
            r = madd(env, mchain(env, l, e, ld), madd(
                env, mm(env, ll, e), mm(env, e, ll)), env._c(-0.5, 0))
            cols.append(vec(env, r))
    return env.mat([[cols[j][i, 0] for j in range(n * n)]
                    for i in range(n * n)])


def hamil(env, h):
    """-i [h, .] on column stacked matrices."""
    n = h.shape[0]
    cols = []
    for j in range(n):
        for i in range(n):
            e = zeros(env, n, n)
            e[i, j] = env._c(1, 0)
            r = madd(env, mm(env, h, e), mm(env, e, h), -1)
            cols.append(vec(env, mscale(env, r, -env.I)))
    return env.mat([[cols[j][i, 0] for j in range(n * n)]
                    for i in range(n * n)])


def setup(env, cfg, **extra):
    how, L, n = cfg["how"], cfg["L"], cfg.get("n", 2)
    T, C = cfg["T"] * cfg.get("tf", 1), cfg["C"]
    kw = dict(extra)
    ls, ds = [], []
    for k in range(L):
        if how in ("lind", "lindpre"):
            l = env.carr("l%d" % k, (n, n))
            ls.append(l)
            ds.append(dissipator(env, l))
        else:
            d = env.carr("d%d" % k, (n * n, n * n)) if L == 1 or cfg.get(
                "full") else mscale(env, eye(env, n * n), env.cplx(
                    "d%d" % k))
            if L > 1:
                d[0, n * n - 1] = env.cplx("d%d_o" % k)
            ls.append(d)
            ds.append(d)
    ops = [op(env, x) for x in ls]
    if how in ("lind", "lindpre"):
        kw["lindblad_operators"] = ops
    elif how in ("sup", "suppre"):
        kw["initial_diss_super_op"] = ops
    rate = env.rarr("rate", (C, L))
    base = env.rarr("base", (L,))
    calls = []

    # a[t][k] = base_k + sum_c rate[c,k] (u[t,c]^2 + x[t,0] u[t,c]);
    # the derivative by the amplitudes is the total one without x
    xw = 0 if cfg.get("h") == "grad" else 1
    def spoil(*arrays):
        # the functions may do what they like with their arguments
        for a in arrays:
            for t in range(a.shape[0]):
                for c in range(a.shape[1]):
                    a[t, c] = 0

    def pre(u, x):
        calls.append((u.copy(), x.copy()))
        out = env.array([[base[k] + sum(
            rate[c, k] * (u[t, c] * u[t, c] + xw * x[t, 0] * u[t, c])
            for c in range(C)) for k in range(L)] for t in range(T)])
        spoil(u, x)
        return out

    def dpre(u, x):
        out = env.array([[[rate[c, k] * (2 * u[t, c] + xw * x[t, 0])
                           for k in range(L)]
                          for c in range(C)] for t in range(T)])
        spoil(u, x)
        return out
    if how in ("lindpre", "suppre"):
        kw["prefactor_function"] = pre
        if cfg.get("dpre"):
            kw["prefactor_derivative_function"] = dpre
    if how == "func":
        def sup(u, x):
            a = pre(u, x)
            out = []
            for t in range(T):
                m = zeros(env, n * n, n * n)
                for k in range(L):
                    m = madd(env, m, ds[k], a[t, k])
                out.append(env.D(m))
            return out

        def dsup(u, x):
            a = dpre(u, x)
            out = []
            for t in range(T):
                row = []
                for c in range(C):
                    m = zeros(env, n * n, n * n)
                    for k in range(L):
                        m = madd(env, m, ds[k], a[t, c, k])
                    row.append(env.D(m))
                out.append(row)
            return out
        kw["super_operator_function"] = sup
        if cfg.get("dpre"):
            kw["super_operator_derivative_function"] = dsup
    init = None
    if cfg.get("init") == "rho":
        rho = env.carr("rho", (n, n))
        init = vec(env, rho)
        kw["initial_state"] = op(env, init)
    c2 = {k: v for k, v in cfg.items() if k != "init"}
    b = build(env, c2, "LindbladSolver", **kw)
    b["psi"] = init if init is not None else eye(env, n * n)

    def ratefn(u, x):
        if how in ("lind", "sup"):
            return [env.num(1)] * L
        return [base[k] + sum(rate[c, k] * (u[c] * u[c] + xw * x[0] * u[c])
                              for c in range(C))
                for k in range(L)]

    def gen(y):
        out = []
        for t in range(T):
            u = b["amp"]([y[t, j] for j in range(b["ny"])])
            h = b["hd"][t]
            for c in range(C):
                h = madd(env, h, b["hc"][c], u[c])
            g = hamil(env, h)
            for k, a in enumerate(ratefn(u, y[t])):
                g = madd(env, g, ds[k], a)
            out.append(g)
        return out
    b.update(gen=gen, ds=ds, ls=ls, lops=ops, rate=rate, calls=calls, L=L)
    return b


def lprops(env, b, y):
    m = b.get("method")
    return [texp(env, g, b["tau"][t], m)
            for t, g in enumerate(b["gen"](y))]


def lind_unchanged(env, b):
    inputs_unchanged(env, b)
    for o, l in zip(b["lops"], b["ls"]):
        env.check_eq("dissipation operators unchanged", o.data, l)


def props(env, cfg):
    b = setup(env, cfg)
    s = b["s"]
    y = pars(env, b)
    s.set_optimization_parameters(y)
    b["method"] = cfg.get("method")
    y = b["x"](y)
    ps = lprops(env, b, y)
    check_list(env, "propagators", s.propagators, ps)
    if b["psi"].shape[1] == 1 or b["T"] == 1:
        check_list(env, "forward", s.forward_propagators,
                   fwd(env, ps, b["psi"]))
    lind_unchanged(env, b)
    if b["calls"]:
        u, x = b["calls"][0]
        env.check_eq("transferred parameters handed on", x, y)
        env.check_eq("amplitudes handed on", u, amps(env, b, y))
        u[0, 0] = 99.
        x[0, 0] = 99.
        # the function received copies
        s2 = b["s"]
        check_list(env, "propagators", s2.propagators, ps)


def deriv(env, cfg):
    kw = {"calculate_unitary_derivatives": False}
    if cfg.get("eager"):
        kw["calculate_unitary_derivatives"] = True
    if cfg.get("grape"):
        kw["frechet_deriv_approx_method"] = "grape"
    b = setup(env, cfg, **kw)
    s = b["s"]
    y = pars(env, b)
    s.set_optimization_parameters(y)
    y = b["x"](y)
    u = amps(env, b, y)
    if cfg.get("before"):
        s.propagators
    d = s.frechet_deriv_propagators
    env.check("layout", len(d) == b["C"])
    g = b["gen"](y)
    for c in range(b["C"]):
        env.check("layout", len(d[c]) == b["T"])
        for t in range(b["T"]):
            e = hamil(env, b["hc"][c])
            if cfg.get("dpre"):
                for k in range(b["L"]):
                    e = madd(env, e, b["ds"][k],
                             b["rate"][c, k] * (2 * u[t, c] + y[t, 0]))
            if cfg.get("grape"):
                ref = mscale(env, mm(env, e, env.expm(mscale(
                    env, g[t], b["tau"][t]))), b["tau"][t])
            else:
                ref = env.frechet(mscale(env, g[t], b["tau"][t]),
                                  mscale(env, e, b["tau"][t]))
            env.check_eq("derivative[control][time]", d[c][t].data, ref)
    lind_unchanged(env, b)


def grad(env, cfg):
    """The derivatives are the gradient of the propagator."""
    cfg = dict(cfg, dpre=1)
    b = setup(env, cfg)
    s = b["s"]
    y = pars(env, b)
    s.set_optimization_parameters(y)
    d = s.frechet_deriv_propagators
    m = d[0][0].data.shape[0]
    out = [[[[d[c][t].data[i, j] for c in range(b["C"])]
             for t in range(b["T"])] for j in range(m)] for i in range(m)]

    def cost(x):
        if env.symbolic:
            return lprops(env, b, x)[0]
        s.set_optimization_parameters(x)
        return s.propagators[0].data
    env.check_grad("gradient of the propagator", cost, y, env.array(out))


def spectral(env, cfg):
    """The generator of a dissipative evolution is not skew hermitian."""
    T = cfg["T"]
    hd, hc = env.herm("hd", 1), env.herm("hc", 1)
    d = env.carr("d", (1, 1))
    one_dim(env)
    tau = env.rarr("tau", (T,), positive=True)
    kw = {} if cfg["skew"] is None else {"is_skew_hermitian": cfg["skew"]}
    s = env.q("solver_algorithms").LindbladSolver(
        h_drift=[op(env, hd)], h_ctrl=[op(env, hc)], tau=tau.copy(),
        initial_diss_super_op=[op(env, d)], exponential_method="spectral",
        **kw)
    s.set_optimization_parameters(env.rarr("y", (T, 1)))
    for t in range(T):
        env.check_eq("propagator", s.propagators[t].data[0, 0],
                     env.exp(d[0, 0] * tau[t]))
        env.check_eq("derivative",
                     s.frechet_deriv_propagators[0][t].data[0, 0],
                     env.num(0))


def reuse(env, cfg):
    """Two solvers built from the same operators, and one solver used for
    several pulses, agree with fresh evaluations."""
    b = setup(env, cfg)
    s = b["s"]
    y, z = pars(env, b, "y"), pars(env, b, "z")
    for x in (y, z, y):
        s.set_optimization_parameters(x)
        check_list(env, "propagators", s.propagators, lprops(env, b, x))
        lind_unchanged(env, b)
    sa = env.q("solver_algorithms")
    kw = {"lindblad_operators" if cfg["how"] == "lind" else
          "initial_diss_super_op": b["lops"]}
    if cfg["how"] == "suppre":
        return
    s2 = sa.LindbladSolver(h_drift=b["drift"], h_ctrl=b["ops"],
                           tau=b["tau"].copy(), **kw)
    s2.set_optimization_parameters(z)
    check_list(env, "second solver", s2.propagators, lprops(env, b, z))


def master(env, cfg):
    """First order step: trace and hermiticity are preserved and the
    right hand side is the master equation."""
    n = cfg["n"]
    c2 = dict(cfg, how="lind", T=1, C=1, method="first_order")
    b = setup(env, c2)
    s = b["s"]
    y = pars(env, b)
    s.set_optimization_parameters(y)
    P = s.propagators[0].data
    rho = env.herm("rho", n)
    out = env.q("matrix").convert_ket_vectorized_density_matrix_to_square(
        op(env, mm(env, P, vec(env, rho)))).data
    env.check_eq("trace preserved", trace(env, out), trace(env, rho))
    env.check_eq("hermiticity preserved", out, dagger(env, out))
    h = madd(env, b["hd"][0], b["hc"][0], y[0, 0])
    r = mscale(env, madd(env, mm(env, h, rho), mm(env, rho, h), -1), -env.I)
    for l in b["ls"]:
        ld = dagger(env, l)
        ll = mm(env, ld, l)
        r = madd(env, r, madd(env, mchain(env, l, rho, ld), madd(
            env, mm(env, ll, rho), mm(env, rho, ll)), env._c(-0.5, 0)))
    env.check_eq("master equation", out, madd(env, rho, r, b["tau"][0]))
