"""C16: pulses, noise and frequencies handed to the filter functions."""
from .common import *
from .solv import *
from .c08 import generator

BOUNDS = ("1..2 (3 thorough) time steps, 1..2 and 12 controls, 0..3 noise "
          "operators, 2 frequencies, dimension 2 (some 3 and 4); every Hamiltonian, "
          "amplitude, duration, susceptibility, spectrum and frequency; "
          "pulses created repeatedly for the same and for other amplitudes"
          "; 4 steps with 3 controls and 4 noise operators, 12 steps or 12 noise operators; every solver class, "
          "oversampling transfer function with offset")
ASSUMPTIONS = ["the filter_functions package is replaced by its interface: "
               "a pulse sequence keeps operators sorted by identifier, and "
               "diagonalisation, infidelity and its derivative are free "
               "values"]


def configs(tier):
    big = tier == "thorough"
    for amp in (None, "lin", "uf"):
        for noise in ("none", "list", "call", "old"):
            yield {"h": "pulse", "T": 2, "C": 2, "N": 2, "noise": noise,
                   "amp": amp}
    yield {"h": "pulse", "T": 1, "C": 12, "N": 1, "noise": "list",
           "drift": "op"}
    yield {"h": "pulse", "T": 2, "C": 1, "N": 3, "noise": "call",
           "drift": "one", "basis": 1}
    yield {"h": "pulse", "T": 4, "C": 3, "N": 4, "noise": "call"}
    for n in (3, 4):
        for cls in ("SchroedingerSolver", "SchroedingerSMCControlNoise"):
            yield {"h": "pulse", "T": 2, "C": 2, "N": 2, "n": n,
                   "noise": "call", "cls": cls, "basis": int(n > 1)}
        yield {"h": "pulse", "T": 1, "C": 1, "N": 2, "n": n,
               "noise": "list", "basis": int(n > 1)}
        yield {"h": "cost", "T": 2, "C": 2, "N": 2, "n": n, "noise": "call",
               "omega": 1, "deriv": 1, "basis": int(n > 1)}
    yield {"h": "pulse", "T": 12, "C": 2, "N": 2, "noise": "call"}
    yield {"h": "pulse", "T": 1, "C": 3, "N": 12, "noise": "list"}
    yield {"h": "cost", "T": 2, "C": 3, "N": 12, "noise": "call",
           "omega": 1, "deriv": 1}
    if big:
        yield {"h": "pulse", "T": 3, "C": 3, "N": 3, "noise": "call",
               "amp": "uf"}
        yield {"h": "pulse", "T": 2, "C": 12, "N": 12, "noise": "call"}
    for om in (0, 1):
        for noise in ("none", "list", "call"):
            for d in (0, 1):
                yield {"h": "cost", "T": 2, "C": 2, "N": 2, "noise": noise,
                       "omega": om, "deriv": d, "amp": "uf" if d else None}
    yield {"h": "cost", "T": 1, "C": 12, "N": 3, "noise": "call",
           "omega": 1, "deriv": 1}
    if big:
        yield {"h": "cost", "T": 3, "C": 3, "N": 3, "noise": "call",
               "omega": 1, "deriv": 1, "amp": "lin"}
    for cls in ("SchroedingerSolver", "SchroedingerSMonteCarlo",
                "SchroedingerSMCControlNoise", "LindbladSolver"):
        for amp in ("uf", "lin"):
            yield {"h": "pulse", "T": 2, "C": 2, "N": 2, "noise": "call",
                   "amp": amp, "tf": 2, "cls": cls, "basis": 1}
        yield {"h": "cost", "T": 2, "C": 2, "N": 2, "noise": "call",
               "omega": 1, "deriv": 1, "amp": "uf", "tf": 2, "cls": cls}
        yield {"h": "cost", "T": 2, "C": 1, "N": 2, "noise": "list",
               "omega": 0, "deriv": 1, "cls": cls}
    for N, T in ((1, 2), (3, 1)):
        yield {"h": "sampled", "T": T, "C": 1, "N": N, "noise": "none",
               "cls": "SchroedingerSMonteCarlo"}
    yield {"h": "sphere", "T": 2, "C": 2, "N": 2, "noise": "call",
           "amp": "lin"}
    yield {"h": "sphere", "T": 3, "C": 1, "N": 1, "noise": "none", "tf": 2}
    yield {"h": "reject"}


NAMES = ("Z", "B", "A", "M", "K", "Y", "C", "X", "D", "W", "E", "V")


def noise_model(env, cfg, b):
    """-> constructor argument, function of the amplitudes giving the
    expected operators and susceptibilities."""
    N, T, C = cfg["N"], cfg["T"] * cfg.get("tf", 1), cfg["C"]
    kind = cfg["noise"]
    if kind == "none":
        return None, None
    hn = [env.herm("hn%d" % i, cfg.get("n", 2)) for i in range(N)]
    if kind == "list":
        c = env.rarr("nc", (N, T))
        return [[hn[i], c[i], NAMES[i]] for i in range(N)], \
            lambda y, x, u: [(hn[i], c[i]) for i in range(N)]
    w = env.rarr("nw", (N, 3))

    def expect(y, x, u):
        if kind == "old":
            return [(hn[i], w[i, 2] * u[:, 0]) for i in range(N)]
        y = y[0, 0] if cfg.get("tf") else y[:, 0]
        return [(hn[i], w[i, 0] * y + w[i, 1] * x[:, 0]
                 + w[i, 2] * u[:, 0]) for i in range(N)]

    if kind == "old":
        def call(u):
            return [[h, k, NAMES[i]] for i, (h, k) in enumerate(
                expect(None, None, u))]
    else:
        def call(y, x, u):
            return [[h, k, NAMES[i]] for i, (h, k) in enumerate(
                expect(y, x, u))]
    return call, expect


def spy(env, T, n):
    """Replace the diagonalisation; -> list of its calls."""
    calls = []

    def diagonalize(hamiltonian, dt):
        k = len(calls)
        r = (env.rarr("eval%d" % k, (T, n)), env.carr("evec%d" % k,
                                                      (T, n, n)),
             env.carr("prop%d" % k, (T + 1, n, n)))
        calls.append((hamiltonian, dt, r))
        return r
    env.patch(env.lib("filter_functions.numeric"), "diagonalize",
              diagonalize)
    return calls


def setup(env, cfg):
    hn, expect = noise_model(env, cfg, None)
    kw = {"filter_function_h_n": hn}
    B = env.lib("filter_functions.basis").Basis
    bases = [B([0]), B([1])] if env.symbolic else [
        B.pauli(1) if cfg.get("n", 2) == 2 else B.ggm(cfg["n"]),
        B.ggm(cfg.get("n", 2))]
    if cfg.get("basis"):
        kw["filter_function_basis"] = bases[1]
    if cfg.get("deriv"):
        T = cfg["T"] * cfg.get("tf", 1)
        w = env.rarr("dw", (cfg["N"], cfg["C"], T, 3))

        def deriv(y, x, u):
            return env.array([[[w[i, c, t, 0] * y[0, 0]
                                + w[i, c, t, 1] * u[t, c]
                                + w[i, c, t, 2] * x[t, 0]
                                for t in range(T)]
                               for c in range(cfg["C"])]
                              for i in range(cfg["N"])])
        kw["filter_function_n_coeffs_deriv"] = deriv
    cls = cfg.get("cls", "SchroedingerSolver")
    if "SMC" in cls or "Monte" in cls:
        kw["noise_trace_generator"] = generator(env, env.rarr(
            "xi", (1, 1, cfg["T"] * cfg.get("tf", 1))))
    if "Monte" in cls:
        kw["h_noise"] = [op(env, env.herm("mc", cfg.get("n", 2)))]
    if "Lind" in cls:
        kw["lindblad_operators"] = [op(env, env.carr("l", (cfg.get("n", 2),) * 2))]
    b = build(env, cfg, cls, **kw)
    b["expect"], b["bases"] = expect, bases
    b["deriv"] = kw.get("filter_function_n_coeffs_deriv")
    b["calls"] = spy(env, b["T"], b["n"])
    return b


def amplitudes(env, b, y):
    return amps(env, b, b["x"](y))


def position(ids, name):
    ids = [str(i) for i in ids]
    env_ok = ids.count(str(name)) == 1
    return ids.index(str(name)) if env_ok else None


def verify(env, cfg, b, ps, y, c_ids=None, n_ids=None):
    """The pulse sequence describes the solver's evolution."""
    T, C, n = b["T"], b["C"], b["n"]
    u = amplitudes(env, b, y)
    env.check_eq("durations", ps.dt, b["tau"])
    ids = [str(i) for i in ps.c_oper_identifiers]
    env.check("one identifier per control", len(set(ids)) == len(ids) == C)
    if c_ids is None:
        # identifiers count the controls
        c_ids = sorted(ids, key=lambda s: (len(s), s))
    env.check("known controls", sorted(map(str, c_ids)) == sorted(ids))
    for c in range(C):
        k = position(ids, c_ids[c])
        env.check_eq("control operator", ps.c_opers[k], b["hc"][c])
        env.check_eq("control amplitude", ps.c_coeffs[k], u[:, c])
    ids = [str(i) for i in ps.n_oper_identifiers]
    if b["expect"] is None:
        env.check("a single noise term", len(ids) == 1)
        env.check_eq("no noise", ps.n_opers[0], zeros(env, n, n))
    else:
        ex = b["expect"](y, b["x"](y), u)
        env.check("noise terms", len(set(ids)) == len(ids) == len(ex))
        if n_ids is None:
            n_ids = b["s"].filter_function_n_oper_identifiers
        env.check("known noise", cfg["h"] == "sampled" or list(
            map(str, n_ids)) == list(NAMES[:len(ex)]))
        for i, (h, c) in enumerate(ex):
            k = position(ids, n_ids[i])
            env.check_eq("noise operator", ps.n_opers[k], h)
            env.check_eq("susceptibility", ps.n_coeffs[k], c)
    ham, dt, (val, vec, prop) = b["calls"][-1]
    env.check("shape of the Hamiltonian", tuple(ham.shape) == (T, n, n))
    for t in range(T):
        h = b["hd"][t]
        for c in range(C):
            h = madd(env, h, mscale(env, b["hc"][c], u[t, c]))
        env.check_eq("total Hamiltonian", ham[t], h)
    env.check_eq("durations", dt, b["tau"])
    env.check_eq("eigenvalues", ps.eigvals, val)
    env.check_eq("eigenvectors", ps.eigvecs, vec)
    env.check_eq("propagators", ps.propagators, prop)
    env.check_eq("total propagator", ps.total_propagator, prop[T])


def pulse(env, cfg):
    b = setup(env, cfg)
    s = b["s"]
    env.raises("no parameters", ValueError, lambda: s.create_pulse_sequence())
    y = pars(env, b)
    y0 = y.copy()
    how = env.choice("how", 2)
    if how:
        ps = s.create_pulse_sequence(new_amps=y)
    else:
        s.set_optimization_parameters(y)
        ps = s.create_pulse_sequence()
    verify(env, cfg, b, ps, y0)
    if cfg.get("basis"):
        env.check("basis of the solver", ps.basis is b["bases"][1])
    env.check("stored", s.pulse_sequence is ps)
    # the same amplitudes, another basis
    ps._frequency_data["control_matrix"] = 1
    ps._intermediates["first_order_integral"] = 1
    ps = s.create_pulse_sequence(ff_basis=b["bases"][0])
    verify(env, cfg, b, ps, y0)
    env.check("basis of the call", ps.basis is b["bases"][0])
    env.check("nothing left of the previous basis",
              not ps._frequency_data and not ps._intermediates)
    # other amplitudes
    z = pars(env, b, "z")
    s.set_optimization_parameters(z)
    ps = s.create_pulse_sequence()
    verify(env, cfg, b, ps, z)
    env.check("nothing left of the previous pulse",
              not ps._frequency_data and not ps._intermediates)
    ps = s.create_pulse_sequence(new_amps=y)
    verify(env, cfg, b, ps, y0)
    env.check_eq("parameters unchanged", y, y0)


def sampled(env, cfg):
    """Without other noise the operators of the Monte Carlo solver, with
    susceptibility one."""
    N, T = cfg["N"], cfg["T"]
    hn = [env.herm("mc%d" % i, 2) for i in range(N)]
    b = build(env, cfg, cfg["cls"], h_noise=[op(env, h) for h in hn],
              noise_trace_generator=generator(
                  env, env.rarr("xi", (N, 1, T))))
    b["calls"] = spy(env, T, 2)
    b["expect"] = lambda y, x, u: [(h, env.array([env.num(1)] * T))
                                   for h in hn]
    y = pars(env, b)
    s = b["s"]
    ps = s.create_pulse_sequence(new_amps=y)
    ids = list(map(str, s.filter_function_n_oper_identifiers))
    env.check("identifiers", len(set(ids)) == len(ids) == N)
    verify(env, cfg, b, ps, y, n_ids=ids)


def sphere(env, cfg):
    """The evolution shown is the one of the current pulse."""
    b = setup(env, cfg)
    s = b["s"]
    log = []

    def plot(pulse, psi0=None, b=None, n_samples=None, cmap="winter",
             add_cbar=False, show=True, return_Bloch=False,
             cbar_kwargs=None, **bloch_kwargs):
        log.append((pulse, return_Bloch))
        return log if return_Bloch else None
    env.patch(env.lib("filter_functions.plotting"),
              "plot_bloch_vector_evolution", plot)
    y, z = pars(env, b), pars(env, b, "z")
    for p, new in ((y, 1), (z, 0), (y, 1), (z, 1)):
        back = env.choice("back%d" % len(log), 2) if p is z and new else new
        p0 = p.copy()
        if new:
            got = s.plot_bloch_sphere(new_amps=p, return_Bloch=bool(back))
        else:
            s.set_optimization_parameters(p)
            got = s.plot_bloch_sphere()
        env.check("one plot", bool(log))
        ps, r = log[-1]
        env.check("returned object", got is (log if back else None))
        verify(env, cfg, b, ps, p0)
        env.check_eq("parameters unchanged", p, p0)
    env.check("one plot each", len(log) == 4)


def cost(env, cfg):
    T, C, N = cfg["T"] * cfg.get("tf", 1), cfg["C"], cfg["N"]
    M = 1 if cfg["noise"] == "none" else N
    b = setup(env, dict(cfg, deriv=cfg["deriv"]
                        and cfg["noise"] != "none"))
    s = b["s"]
    om = env.rarr("om", (2,), positive=True)
    w = env.rarr("sp", (M, 2))
    psd = lambda o: env.array([[w[i, 0] * o[k] + w[i, 1] for k in range(2)]
                               for i in range(M)])
    log, sampled = [], []
    value = env.rarr("value", (M,))
    dvalue = env.rarr("dvalue", (M, T, C))

    def infidelity(pulse, spectrum, omega, n_oper_identifiers=None,
                   which="total", show_progressbar=False,
                   cache_intermediates=False, return_smallness=False,
                   test_convergence=False):
        log.append((pulse, spectrum, omega, None, n_oper_identifiers, None))
        env.check("total infidelity", which == "total"
                  and not return_smallness and not test_convergence)
        return value

    def infidelity_derivative(pulse, spectrum, omega,
                              control_identifiers=None,
                              n_oper_identifiers=None, n_coeffs_deriv=None):
        log.append((pulse, spectrum, omega, control_identifiers,
                    n_oper_identifiers, n_coeffs_deriv))
        return dvalue

    def sample(pulse, n_samples=300, spacing="log",
               include_quasistatic=False, omega_min=None, omega_max=None):
        f = env.rarr("fr%d" % len(sampled), (2,), positive=True)
        sampled.append(f)
        return f
    env.patch(env.lib("filter_functions.numeric"), "infidelity", infidelity)
    env.patch(env.lib("filter_functions.gradient"), "infidelity_derivative",
              infidelity_derivative)
    env.patch(env.lib("filter_functions.util"), "get_sample_frequencies",
              sample)
    cf = env.q("cost_functions").OperatorFilterFunctionInfidelity(
        solver=s, noise_power_spec_density=psd,
        omega=om if cfg["omega"] else None)

    def look(y, grad):
        if len(log) != 1:
            env.check("one evaluation", False)
            return
        ps, spectrum, omega, c_ids, n_ids, nd = log.pop()
        if cfg["omega"]:
            env.check_eq("frequencies", omega, om)
        else:
            ok = False
            for f in sampled:
                ok = ok | ((omega[0] == f[0]) & (omega[1] == f[1]))
            env.check("sample frequencies", ok)
        env.check_eq("spectrum", spectrum(omega) if callable(spectrum)
                     else spectrum, psd(omega))
        if n_ids is None:
            n_ids = sorted(NAMES[:N])
        if grad and c_ids is None:
            c_ids = sorted(str(i) for i in ps.c_oper_identifiers)
        verify(env, cfg, b, ps, y, c_ids if grad else None, n_ids)
        if b["deriv"]:
            if grad:
                env.check_eq("derivatives of the susceptibilities", nd,
                             b["deriv"](
                    y, b["x"](y), amplitudes(env, b, y)))
        else:
            env.check("no derivatives", nd is None)

    y, z = pars(env, b), pars(env, b, "z")
    first = env.choice("first", 2)
    for p, order in ((y, (0, 1) if first else (1, 0)), (z, (0, 1)),
                     (y, (1, 0))):
        s.set_optimization_parameters(p)
        for g in order:
            if g:
                d = cf.grad()
                look(p, True)
                env.check("shape of the gradient",
                          tuple(d.shape) == (T, M, C))
                for t in range(T):
                    for i in range(M):
                        for c in range(C):
                            env.check_eq("gradient", d[t, i, c],
                                         dvalue[i, t, c])
            else:
                v = cf.costs()
                look(p, False)
                env.check_eq("infidelity", v, value)


def reject(env, cfg):
    h = env.herm("h", 2)
    c = env.rarr("c", (1,))
    for term in ([[h, c]], [[h, c, 1]]):
        b = build(env, {"T": 1, "C": 1}, filter_function_h_n=term)
        spy(env, 1, 2)
        y = pars(env, b)
        env.raises("malformed noise term", ValueError,
                   lambda: b["s"].create_pulse_sequence(new_amps=y))
