"""C08: Monte Carlo propagation over explicit noise traces."""
from . import pool

from .common import *
from .solv import *
from .c07 import hook_expm

BOUNDS = ("1..2 time steps, 1..2 controls, 1..2 noise operators, 1..3 traces "
          "(thorough: 3 of each), dimension 2, noise amplitude function "
          "absent / arbitrary, one or several processes; every noise sample, "
          "operator, duration and amplitude"
          "; dimension 3 and 4 for 1..2 steps, 5 for one; 12 steps or 12 "
          "traces and up to 5 steps, 4 controls, 3 noise operators and 6 traces "
          "in dimension 1; oversampling "
          "transfer function with offset; Taylor methods up to second order; "
          "spectral method for non-hermitian Hamiltonians of dimension 1")
ASSUMPTIONS = ["multiprocessing.Pool.map applies the function to every task "
               "in order"]


def configs(tier):
    big = tier == "thorough"
    shapes = [(1, 1, 1, 1), (2, 1, 1, 2), (2, 2, 2, 2), (1, 2, 1, 3),
              (3, 1, 2, 2)]
    if big:
        shapes += [(3, 2, 3, 3), (2, 3, 2, 3), (3, 3, 1, 2)]
    for T, C, N, K in shapes:
        for amp in (0, 1):
            yield {"h": "run", "T": T, "C": C, "N": N, "K": K, "naf": amp}
        yield {"h": "deriv", "T": T, "C": C, "N": N, "K": K, "how": "exact"}
        yield {"h": "deriv", "T": T, "C": C, "N": N, "K": K, "how": "grape"}
        yield {"h": "deriv", "T": T, "C": C, "N": N, "K": K, "how": "eager"}
    for T, C, N, K, n in ((5, 4, 3, 6, 1), (4, 1, 4, 2, 2),
                          (2, 3, 1, 5, 2)):
        yield {"h": "run", "T": T, "C": C, "N": N, "K": K, "naf": n - 1,
               "n": n}
        yield {"h": "deriv", "T": T, "C": C, "N": N, "K": K, "n": n,
               "how": "exact"}
    for T, C, N, K, n in ((2, 1, 2, 2, 3), (1, 2, 1, 2, 4), (12, 1, 1, 1, 1),
                          (1, 1, 1, 12, 1), (1, 1, 1, 1, 5)):
        yield {"h": "run", "T": T, "C": C, "N": N, "K": K, "naf": n % 2,
               "n": n}
        for how in ("exact", "grape"):
            yield {"h": "deriv", "T": T, "C": C, "N": N, "K": K, "n": n,
                   "how": how}
    yield {"h": "run", "T": 2, "C": 1, "N": 1, "K": 2, "naf": 0, "P": 2}
    yield {"h": "run", "T": 2, "C": 1, "N": 1, "K": 2, "naf": 0, "P": None}
    yield {"h": "run", "T": 2, "C": 1, "N": 2, "K": 2, "naf": 1,
           "init": "ket"}
    yield {"h": "run", "T": 2, "C": 2, "N": 1, "K": 2, "naf": 1,
           "amp": "lin", "init": "ket"}
    # transfer functions: finer time grid, shifted values
    yield {"h": "run", "T": 2, "C": 1, "N": 1, "K": 2, "naf": 1, "tf": 2}
    yield {"h": "run", "T": 1, "C": 2, "N": 2, "K": 2, "naf": 0, "tf": 2,
           "amp": "uf"}
    for how in ("exact", "eager", "grape"):
        yield {"h": "deriv", "T": 2, "C": 2, "N": 1, "K": 2, "naf": 1,
               "tf": 2, "how": how, "amp": "uf"}
        for before in (1, 2):
            yield {"h": "deriv", "T": 2, "C": 1, "N": 1, "K": 2,
                   "how": how, "before": before}
    for m in ("first_order", "second_order", "approx"):
        yield {"h": "run", "T": 1 if m == "second_order" else 2, "C": 1,
               "N": 1, "K": 2, "naf": 0, "method": m, "init": "ket"}
    yield {"h": "run", "T": 2, "C": 1, "N": 1, "K": 2, "naf": 0, "P": 2,
           "method": "first_order", "init": "ket"}
    for m in ("first_order", "second_order"):
        for how in ("exact", "eager"):
            yield {"h": "deriv", "T": 2, "C": 1, "N": 1, "K": 2, "how": how,
                   "method": m}
    for P in (1, 2):
        yield {"h": "spectral", "T": 2, "K": 2, "P": P}
    yield {"h": "zero", "T": 2, "C": 1, "N": 1, "K": 2}
    yield {"h": "ffnoise", "T": 2, "N": 2}
    yield {"h": "ffnoise", "T": 2, "N": 2, "tf": 2}
    yield {"h": "reject"}


def generator(env, samples):
    """A noise generator returning the given samples."""
    N, K, T = samples.shape
    # the number of traces as given, left to the samples, or several traces
    # per requested sample as for deterministic quasi static noise
    asked = (None, K, 1)[K % 3]

    class Gen(env.q("noise").NoiseTraceGenerator):
        @property
        def n_traces(self):
            return K if asked == 1 else super().n_traces

        def __init__(self):
            super().__init__(n_samples_per_trace=T, n_traces=asked,
                             always_redraw_samples=False,
                             n_noise_operators=N, noise_samples=None)
            self.calls = 0

        def _sample_noise(self):
            self.calls += 1
            self._noise_samples = samples.copy()
    return Gen()


def setup(env, cfg, **kw):
    N, K, n = cfg["N"], cfg["K"], cfg.get("n", 2)
    T = cfg["T"] * cfg.get("tf", 1)
    pool.install(env, "solver_algorithms", pickled=True)
    hn = [env.herm("hn%d" % i, n) for i in range(N)]
    smp = env.rarr("xi", (N, K, T))
    gen = generator(env, smp)
    nops = [op(env, h) for h in hn]
    seen = []
    naf, nref = None, None
    if cfg.get("naf"):
        k = env.real("kn")

        def naf(noise_samples, optimization_parameters,
                transferred_parameters, control_amplitudes):
            seen.append((noise_samples.shape, optimization_parameters,
                         transferred_parameters, control_amplitudes))
            return noise_samples * k + control_amplitudes[:, None, :1] * 0.5
    b = build(env, cfg, "SchroedingerSMonteCarlo", h_noise=nops,
              noise_trace_generator=gen, processes=cfg.get("P", 1),
              noise_amplitude_function=naf, **kw)
    b.update(hn=hn, smp=smp, gen=gen, nops=nops, seen=seen,
             k=env.real("kn") if cfg.get("naf") else None)
    return b


def ngens(env, b, y, k):
    """Generators of trace k."""
    out = []
    for t, g in enumerate(gens(env, b, y)):
        u0 = b["amp"]([y[t, j] for j in range(b["ny"])])[0]
        for i, h in enumerate(b["hn"]):
            x = b["smp"][i, k, t]
            if b["k"] is not None:
                x = x * b["k"] + u0 * 0.5
            g = madd(env, g, mscale(env, h, -env.I), x)
        out.append(g)
    return out


def nprops(env, b, y, k, method=None):
    return [texp(env, g, b["tau"][t], method)
            for t, g in enumerate(ngens(env, b, y, k))]


def run(env, cfg):
    b = setup(env, cfg)
    s = b["s"]
    y = pars(env, b)
    y0 = y.copy()
    s.set_optimization_parameters(y)
    x0 = b["x"](y0)
    K = cfg["K"]
    m = cfg.get("method")
    order = env.choice("order", 3)
    if order == 0:
        s.propagators_noise
    elif order == 1:
        s.reversed_propagators_noise
    ps = props(env, b, x0, m)
    fn, rn, pn = (s.forward_propagators_noise, s.reversed_propagators_noise,
                  s.propagators_noise)
    env.check("one list per trace", len(fn) == K and len(rn) == K and
              len(pn) == K)
    for k in range(K):
        nps = nprops(env, b, x0, k, m)
        check_list(env, "noisy propagators", pn[k], nps)
        check_list(env, "noisy forward propagators", fn[k],
                   fwd(env, nps, b["psi"]))
        check_list(env, "noisy reversed propagators", rn[k], rev(env, nps))
    check_list(env, "noise free propagators", s.propagators, ps)
    check_list(env, "noise free forward", s.forward_propagators,
               fwd(env, ps, b["psi"]))
    check_list(env, "noise free reversed", s.reversed_propagators,
               rev(env, ps))
    inputs_unchanged(env, b)
    for o, h in zip(b["nops"], b["hn"]):
        env.check_eq("noise operators unchanged", o.data, h)
    env.check_eq("samples unchanged", b["gen"].noise_samples, b["smp"])
    env.check("noise is sampled once", b["gen"].calls == 1)
    if b["seen"]:
        shp, o, t, u = b["seen"][0]
        env.check("shape of the noise samples",
                  tuple(shp) == (b["T"], K, cfg["N"]))
        env.check_eq("optimization parameters handed on", o, y0)
        env.check_eq("transferred parameters handed on", t, x0)
        env.check_eq("control amplitudes handed on", u, amps(env, b, x0))


def deriv(env, cfg):
    kw = {"exact": {}, "eager": {"calculate_propagator_derivatives": True},
          "grape": {"frechet_deriv_approx_method": "grape"}}[cfg["how"]]
    m = cfg.get("method")
    if m:
        # the exponential computed along with a Taylor derivative is spectral
        hook_expm(env, 2)
    b = setup(env, cfg, **kw)
    s = b["s"]
    y = pars(env, b)
    s.set_optimization_parameters(y)
    y = b["x"](y)
    if cfg.get("before"):
        # noise free results read first
        s.propagators, s.forward_propagators
    if cfg.get("before") == 2:
        s.frechet_deriv_propagators
        s.reversed_propagators_noise
    d = s.frechet_deriv_propagators_noise
    d0 = s.frechet_deriv_propagators
    env.check("layout", len(d) == cfg["K"] and len(d0) == b["C"])
    g0 = gens(env, b, y)
    for k in [None] + list(range(cfg["K"])):
        gs = g0 if k is None else ngens(env, b, y, k)
        dk = d0 if k is None else d[k]
        env.check("layout", len(dk) == b["C"])
        for c in range(b["C"]):
            env.check("layout", len(dk[c]) == b["T"])
            for t in range(b["T"]):
                e = mscale(env, b["hc"][c], -env.I)
                if cfg["how"] == "grape":
                    ref = mscale(env, mm(env, e, texp(
                        env, gs[t], b["tau"][t])), b["tau"][t])
                else:
                    ref = tdexp(env, gs[t], e, b["tau"][t], m)
                env.check_eq("derivative%s" % ("" if k is None else
                                               " with noise"),
                             dk[c][t].data, ref)
    for k in range(0 if m else cfg["K"]):
        check_list(env, "propagators", s.propagators_noise[k],
                   nprops(env, b, y, k))
    env.check("noise is sampled once", b["gen"].calls == 1)
    inputs_unchanged(env, b)


def spectral(env, cfg):
    """The flag of skew hermitian generators decides the eigensolver."""
    T, K = cfg["T"], cfg["K"]
    # dimension 1: eigh would only see the real part
    hd, hc = env.carr("hd", (1, 1)), env.herm("hc", 1)
    hn = env.herm("hn", 1)
    smp = env.rarr("xi", (1, K, T))
    gen = generator(env, smp)
    pool.install(env, "solver_algorithms", pickled=True)
    one_dim(env)
    tau = env.rarr("tau", (T,), positive=True)
    s = env.q("solver_algorithms").SchroedingerSMonteCarlo(
        h_drift=[op(env, hd)], h_ctrl=[op(env, hc)],
        tau=tau.copy(), h_noise=[op(env, hn)],
        noise_trace_generator=gen, processes=cfg["P"],
        exponential_method="spectral", is_skew_hermitian=False)
    y = env.rarr("y", (T, 1))
    s.set_optimization_parameters(y)
    for t in range(T):
        h = hd[0, 0] + y[t, 0] * hc[0, 0]
        env.check_eq("propagator", s.propagators[t].data[0, 0],
                     env.exp(-env.I * h * tau[t]))
        for k in range(K):
            env.check_eq("noisy propagator",
                         s.propagators_noise[k][t].data[0, 0],
                         env.exp(-env.I * (h + smp[0, k, t] * hn[0, 0])
                                 * tau[t]))
    if cfg["P"] != 1:
        return
    d, dn = s.frechet_deriv_propagators, s.frechet_deriv_propagators_noise
    for t in range(T):
        h = hd[0, 0] + y[t, 0] * hc[0, 0]
        f = -env.I * hc[0, 0] * tau[t]
        env.check_eq("derivative", d[0][t].data[0, 0],
                     f * env.exp(-env.I * h * tau[t]))
        for k in range(K):
            env.check_eq("noisy derivative", dn[k][0][t].data[0, 0],
                         f * env.exp(-env.I * (h + smp[0, k, t] * hn[0, 0])
                                     * tau[t]))


def zero(env, cfg):
    """Vanishing noise reproduces the noise free evolution."""
    b = setup(env, cfg)
    b["smp"][...] = 0
    s = b["s"]
    s.set_optimization_parameters(pars(env, b))
    for k in range(cfg["K"]):
        for t in range(cfg["T"]):
            env.check_eq("propagator", s.propagators_noise[k][t].data,
                         s.propagators[t].data)
            env.check_eq("forward", s.forward_propagators_noise[k][t].data,
                         s.forward_propagators[t].data)


def ffnoise(env, cfg):
    """Noise Hamiltonian handed to the filter function formalism."""
    T, N = cfg["T"], cfg["N"]
    X = T * cfg.get("tf", 1)
    hn = [env.herm("hn%d" % i, 2) for i in range(N)]
    gen = generator(env, env.rarr("xi", (N, 1, X)))
    kw = dict(h_noise=[op(env, h) for h in hn], noise_trace_generator=gen)
    b = build(env, {"T": T, "C": 1, "tf": cfg.get("tf")},
              "SchroedingerSMonteCarlo", **kw)
    y = pars(env, b)
    b["s"].set_optimization_parameters(y)
    h = b["s"].create_ff_h_n
    env.check("one entry per operator", len(h) == N)
    for i in range(N):
        env.check_eq("operator", h[i][0], hn[i])
        env.check_eq("susceptibility", list(h[i][1]), [1] * X)
    env.check("distinct identifiers", len(set(x[2] for x in h)) == N)
    env.check("identifiers known",
              list(b["s"].filter_function_n_oper_identifiers) ==
              [x[2] for x in h])
    # a callable receives parameters, transferred parameters, amplitudes
    got = []

    def h_n(*a):
        got.append(a)
        o, t, u = a
        return [[hn[0], u[:, 0], "A"]]
    b = build(env, {"T": T, "C": 1, "tf": cfg.get("tf")},
              "SchroedingerSMonteCarlo", filter_function_h_n=h_n, **kw)
    y = pars(env, b)
    b["s"].set_optimization_parameters(y)
    h = b["s"].create_ff_h_n
    env.check("identifier", [x[2] for x in h] == ["A"])
    env.check_eq("coefficients", h[0][1], b["x"](y)[:, 0])
    # the Schroedinger solver without noise
    b = build(env, {"T": T, "C": 1})
    h = b["s"].create_ff_h_n
    env.check("no noise", len(h) == 1)
    env.check_eq("no noise", h[0][0].data, zeros(env, 2, 2))


def reject(env, cfg):
    b = setup(env, {"T": 1, "C": 1, "N": 1, "K": 1, "P": 0})
    b["s"].set_optimization_parameters(pars(env, b))
    env.raises("processes", ValueError, lambda: b["s"].propagators_noise)
    b = setup(env, {"T": 1, "C": 1, "N": 1, "K": 1},
              frechet_deriv_approx_method="none")
    b["s"].set_optimization_parameters(pars(env, b))
    env.raises("unknown approximation", ValueError,
               lambda: b["s"].frechet_deriv_propagators_noise)
