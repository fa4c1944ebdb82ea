"""C09: Monte Carlo noise on the transferred optimization parameters."""
from .common import *
from .solv import *
from . import pool
from .c08 import generator
from .c07 import hook_expm

BOUNDS = ("1..2 time steps, 1..2 controls, 1..2 traces, amplitude function "
          "identity / linear (real or "
          "complex) / arbitrary, dimension 2; every sample, "
          "operator, duration and parameter"
          "; dimension 3 and 4; 12 steps or 12 traces and up to 6 steps, 4 controls and 5 traces in dimension 1; "
          "oversampling transfer function with offset; several processes; "
          "derivatives exact and first order")


def configs(tier):
    yield {"h": "run", "T": 6, "C": 4, "K": 5, "amp": None, "n": 1}
    yield {"h": "run", "T": 2, "C": 2, "K": 2, "tf": 2, "amp": "uf"}
    yield {"h": "run", "T": 2, "C": 1, "K": 2, "amp": "clin"}
    yield {"h": "run", "T": 2, "C": 3, "K": 2, "amp": "lin"}
    yield {"h": "run", "T": 1, "C": 2, "K": 2, "tf": 2, "amp": "lin"}
    yield {"h": "run", "T": 2, "C": 1, "K": 2, "amp": "uf", "P": 2,
           "init": "ket"}
    yield {"h": "run", "T": 2, "C": 1, "K": 2, "amp": "uf", "P": None,
           "method": "first_order", "init": "ket"}
    for m in ("first_order", "approx"):
        yield {"h": "run", "T": 2, "C": 1, "K": 2, "amp": None,
               "method": m, "init": "ket"}
    for how in ("exact", "eager", "grape"):
        yield {"h": "deriv", "T": 2, "C": 2, "K": 2, "amp": "uf",
               "how": how, "tf": 2}
        yield {"h": "deriv", "T": 2, "C": 2, "K": 2, "amp": "lin",
               "how": how}
    yield {"h": "deriv", "T": 2, "C": 1, "K": 2, "amp": "uf",
           "how": "exact", "method": "second_order"}
    for T, C, K, n in ((2, 2, 2, 3), (1, 2, 2, 4), (12, 1, 1, 1),
                       (1, 1, 12, 1)):
        yield {"h": "run", "T": T, "C": C, "K": K, "amp": "uf", "n": n}
        for how in ("exact", "grape"):
            yield {"h": "deriv", "T": T, "C": C, "K": K, "amp": None,
                   "n": n, "how": how}
    yield {"h": "spectral", "T": 2, "K": 2}
    yield {"h": "run", "T": 4, "C": 3, "K": 2, "amp": "uf"}
    for T, C, K in ((1, 1, 1), (2, 1, 2), (2, 2, 2), (1, 2, 2)) + (
            ((3, 2, 2),) if tier == "thorough" else ()):
        for amp in (None, "lin", "uf"):
            yield {"h": "run", "T": T, "C": C, "K": K, "amp": amp}
            yield {"h": "zero", "T": T, "C": C, "K": K, "amp": amp}


def setup(env, cfg, zero, **kw):
    ny = 2 if cfg["amp"] in ("lin", "clin") else cfg["C"]
    smp = env.rarr("xi", (ny, cfg["K"], cfg["T"] * cfg.get("tf", 1)))
    if zero:
        smp[...] = 0
    gen = generator(env, smp)
    b = build(env, cfg, "SchroedingerSMCControlNoise",
              noise_trace_generator=gen, **kw)
    return b, smp


def run(env, cfg):
    pool.install(env, "solver_algorithms", pickled=True)
    b, smp = setup(env, cfg, False, processes=cfg.get("P", 1))
    s, m = b["s"], cfg.get("method")
    y = pars(env, b)
    s.set_optimization_parameters(y)
    y = b["x"](y)
    for k in range(cfg["K"]):
        z = env.mat([[y[t, j] + smp[j, k, t] for j in range(b["ny"])]
                     for t in range(b["T"])], "f")
        ps = props(env, b, z, m)
        check_list(env, "noisy propagators", s.propagators_noise[k], ps)
        check_list(env, "noisy forward", s.forward_propagators_noise[k],
                   fwd(env, ps, b["psi"]))
        check_list(env, "noisy reversed", s.reversed_propagators_noise[k],
                   rev(env, ps))
    check_list(env, "noise free", s.propagators, props(env, b, y, m))
    inputs_unchanged(env, b)
    env.check_eq("samples unchanged", s.noise_trace_generator.noise_samples,
                 smp)


def deriv(env, cfg):
    """Derivatives by the control amplitudes at the noisy parameters."""
    kw = {"exact": {}, "eager": {"calculate_propagator_derivatives": True},
          "grape": {"frechet_deriv_approx_method": "grape"}}[cfg["how"]]
    m = cfg.get("method")
    if m:
        hook_expm(env, 2)
    b, smp = setup(env, cfg, False, **kw)
    s = b["s"]
    y = pars(env, b)
    s.set_optimization_parameters(y)
    y = b["x"](y)
    d = s.frechet_deriv_propagators_noise
    for k in range(cfg["K"]):
        z = env.mat([[y[t, j] + smp[j, k, t] for j in range(b["ny"])]
                     for t in range(b["T"])], "f")
        g = gens(env, b, z)
        for c in range(b["C"]):
            e = mscale(env, b["hc"][c], -env.I)
            for t in range(b["T"]):
                if cfg["how"] == "grape":
                    ref = mscale(env, mm(env, e, texp(
                        env, g[t], b["tau"][t])), b["tau"][t])
                else:
                    ref = tdexp(env, g[t], e, b["tau"][t], m)
                env.check_eq("derivative", d[k][c][t].data, ref)


def spectral(env, cfg):
    """The flag of skew hermitian generators decides the eigensolver."""
    T, K = cfg["T"], cfg["K"]
    # dimension 1: eigh would only see the real part
    hd, hc = env.carr("hd", (1, 1)), env.herm("hc", 1)
    smp = env.rarr("xi", (1, K, T))
    one_dim(env)
    tau = env.rarr("tau", (T,), positive=True)
    s = env.q("solver_algorithms").SchroedingerSMCControlNoise(
        h_drift=[op(env, hd)], h_ctrl=[op(env, hc)], tau=tau.copy(),
        noise_trace_generator=generator(env, smp),
        exponential_method="spectral", is_skew_hermitian=False)
    y = env.rarr("y", (T, 1))
    s.set_optimization_parameters(y)
    for t in range(T):
        for k in range(K):
            h = hd[0, 0] + (y[t, 0] + smp[0, k, t]) * hc[0, 0]
            env.check_eq("noisy propagator",
                         s.propagators_noise[k][t].data[0, 0],
                         env.exp(-env.I * h * tau[t]))


def zero(env, cfg):
    b, smp = setup(env, cfg, True)
    s = b["s"]
    s.set_optimization_parameters(pars(env, b))
    for k in range(cfg["K"]):
        check_list(env, "without noise", s.propagators_noise[k],
                   [p.data for p in s.propagators])
