"""C27: quasi static noise and Gaussian sampling."""
import math

from .common import *

BOUNDS = ("1..3 noise operators, 1..4 (6 thorough) traces, 1..3 samples per "
          "trace, 1..5 (8 thorough) deterministic samples; every standard "
          "deviation, mean and random draw"
          "; 5 traces of 7 deterministic samples, up to 16, 40 and 101 "
          "deterministic samples; 4 operators, 12 traces of 2 and 4 traces "
          "of 12 samples")
ASSUMPTIONS = ["erf and erfinv are uninterpreted functions inverse to each "
               "other"]


def configs(tier):
    big = tier == "thorough"
    for n in (1, 2, 3, 4, 5, 9, 12, 16, 40, 101) + ((6, 8) if big else ()):
        yield {"h": "gauss", "n": n}
    yield {"h": "bell"}
    for O, n, T in ((1, 2, 1), (1, 3, 2), (2, 2, 3), (3, 2, 1), (2, 3, 2),
                    (1, 4, 3), (1, 7, 5), (4, 12, 2), (1, 4, 12)) + (
                        ((3, 4, 2), (2, 6, 2)) if big else ()):
        yield {"h": "det", "O": O, "n": n, "T": T, "corr": 1}
        yield {"h": "det", "O": O, "n": n, "T": T, "corr": 0}
        yield {"h": "mc", "O": O, "n": n, "T": T}
    yield {"h": "det", "O": 2, "n": 1, "T": 2, "corr": 0}
    yield {"h": "mc", "O": 4, "n": 5, "T": 4}
    yield {"h": "shared", "O": 2, "n": 3}
    yield {"h": "keep"}
    for cls in ("base", "static"):
        yield {"h": "sizes", "cls": cls, "shape": [2, 5, 3]}
        yield {"h": "sizes", "cls": cls, "shape": [4, 2, 7]}
    yield {"h": "reject"}


def gauss(env, cfg):
    """Equal probability between adjacent samples."""
    nz = env.q("noise")
    n = cfg["n"]
    std, mean = env.real("std", positive=True), env.real("mean")
    use = env.choice("mean given", 2)
    if not use:
        mean = env.num(0)
    x = nz.sample_1dim_gaussian_distribution(
        std, n, **({"mean": mean} if use else {}))
    env.check("number of samples", tuple(x.shape) == (n,))
    for k in range(n):
        # erf((x - mean) / (sqrt(2) std)) = 2 P(X < x) - 1
        z = (x[k] - mean) / (env.sqrt(env.num(2)) * std)
        env.check_eq("probability below a sample",
                     env.num(env.lib("scipy").special.erf(z)),
                     env.num(2 * k + 1) / n - 1)
        env.check_eq("symmetric samples", x[k] - mean,
                     mean - x[n - 1 - k])
    z = env.real("z", 0.01, 0.99)
    y = nz.inverse_cumulative_gaussian_distribution_function(
        z=z, std=std, mean=mean)
    env.check_eq("inverse cumulative distribution", env.num(env.lib("scipy").special.erf(
        (y - mean) / (env.sqrt(env.num(2)) * std))), 2 * z - 1)


def bell(env, cfg):
    """Density of the normal distribution."""
    nz = env.q("noise")
    s, t = env.real("s", 0.2, 3), env.real("t", 0.2, 3)
    x, y = env.real("x"), env.real("y")
    pi = env.lib("numpy").pi
    b = nz.bell_curve_1dim(x, s)
    ref = env.exp(-x * x / (2 * s * s)) / (env.sqrt(2 * env.num(pi)) * s)
    env.check_eq("one dimension", b, ref)
    c = nz.bell_curve_2dim(x, s, y, t)
    env.check_eq("two dimensions", c, ref * env.exp(
        -y * y / (2 * t * t)) / (env.sqrt(2 * env.num(pi)) * t))
    a = nz.bell_curve_1dim(env.array([x, y]), s)
    env.check_eq("array", a, env.array([b, nz.bell_curve_1dim(y, s)]))


def stds(env, O):
    return [env.real("std%d" % i, 0.1, 5) for i in range(O)]


def det(env, cfg):
    """Each operator is sampled on its own, with the given deviation."""
    nz = env.q("noise")
    O, n, T = cfg["O"], cfg["n"], cfg["T"]
    sd = stds(env, O)
    given = list(sd)
    g = nz.NTGQuasiStatic(standard_deviation=given, n_samples_per_trace=T,
                          n_traces=n, correct_std_for_discrete_sampling=bool(
                              cfg["corr"]))
    env.check("given deviations unchanged", len(given) == O)
    for a, b in zip(given, sd):
        env.check_eq("given deviations unchanged", a, b)
    env.check("sizes", g.n_traces == n * O and g.n_noise_operators == O
              and g.n_samples_per_trace == T)
    x = g.noise_samples
    env.check("shape", tuple(x.shape) == (O, n * O, T))
    for i in range(O):
        vals = []
        for j in range(n * O):
            for t in range(1, T):
                env.check_eq("constant in time", x[i, j, t], x[i, j, 0])
            if j // n != i:
                env.check_eq("no noise on other operators", x[i, j, 0],
                             env.num(0))
            else:
                vals.append(x[i, j, 0])
        env.check_eq("mean", sum(vals, env.num(0)), env.num(0))
        if cfg["corr"]:
            env.check_eq("variance of the samples", sum(
                (v * v for v in vals), env.num(0)), n * sd[i] * sd[i])
        else:
            ref = nz.sample_1dim_gaussian_distribution(sd[i], n)
            env.check_eq("equal probability samples", env.array(vals), ref)
        for a, b in zip(vals, vals[1:]):
            env.check("ascending samples", a < b)


def linear_map(env, fn):
    """fn() as a function of its normal draws: value for free draws, the
    draws, and the value for each unit vector of draws."""
    rec = []
    d0 = env._draw

    def install(f):
        if env.symbolic:
            env.hook("draw", f)
        else:
            env._draw = f

    def first(kind):
        if kind != "normal":
            env.unsupported("other random numbers")
        rec.append(d0(kind))
        return rec[-1]
    install(first)
    x = fn()
    cols = []
    for m in range(len(rec)):
        cnt = [0]

        def unit(kind):
            cnt[0] += 1
            return env.num(1) if cnt[0] == m + 1 else env.num(0)
        install(unit)
        cols.append(fn())
    install(d0)
    return x, rec, cols


def flat(x):
    return [x[i] for i in np_index(x.shape)]


def np_index(shape):
    out = [()]
    for n in shape:
        out = [o + (k,) for o in out for k in range(n)]
    return out


def mc(env, cfg):
    """Independent normal draws with the given deviation."""
    nz = env.q("noise")
    O, n, T = cfg["O"], cfg["n"], cfg["T"]
    sd = stds(env, O)
    g = nz.NTGQuasiStatic(standard_deviation=list(sd), n_traces=n,
                          n_samples_per_trace=T, sampling_mode="monte_carlo")
    env.check("sizes", g.n_traces == n and g.n_noise_operators == O)
    x, rec, cols = linear_map(env, lambda: g.noise_samples)
    env.check("shape", tuple(x.shape) == (O, n, T))
    z = env.num(0)
    for i in range(O):
        for j in range(n):
            for t in range(T):
                env.check_eq("linear in the draws", x[i, j, t], sum(
                    (r * c[i, j, t] for r, c in zip(rec, cols)), z))
                env.check_eq("constant in time", x[i, j, t], x[i, j, 0])
            for k in range(O):
                for l in range(n):
                    env.check_eq("covariance", sum(
                        (c[i, j, 0] * c[k, l, 0] for c in cols), z),
                        sd[i] * sd[i] if (i, j) == (k, l) else z)


def shared(env, cfg):
    """Two generators from one list of deviations are the same."""
    nz = env.q("noise")
    sd = stds(env, cfg["O"])
    kw = dict(n_samples_per_trace=1, n_traces=cfg["n"])
    kind = env.choice("container", 2)
    given = [list, env.array][kind](sd)
    a = nz.NTGQuasiStatic(standard_deviation=given, **kw)
    b = nz.NTGQuasiStatic(standard_deviation=given, **kw)
    env.check_eq("same samples", a.noise_samples, b.noise_samples)
    env.check_eq("given deviations unchanged", env.array(given),
                 env.array(sd))
    env.check("independent storage", a.noise_samples is not b.noise_samples)


def keep(env, cfg):
    """Stored samples are kept unless they shall be redrawn."""
    nz = env.q("noise")
    s = env.rarr("s", (2, 3, 2))
    kw = dict(standard_deviation=stds(env, 2), n_samples_per_trace=2,
              n_traces=3, sampling_mode="monte_carlo",
              correct_std_for_discrete_sampling=False)
    a = nz.NTGQuasiStatic(noise_samples=s, always_redraw_samples=False, **kw)
    env.check("precalculated samples", a.noise_samples is s)
    env.check("precalculated samples kept", a.noise_samples is s)
    b = nz.NTGQuasiStatic(always_redraw_samples=False, **kw)
    x = b.noise_samples
    k = x.copy()
    env.check_eq("drawn once", b.noise_samples, k)
    c = nz.NTGQuasiStatic(noise_samples=s, **kw)
    y = c.noise_samples
    yk = y.copy()
    n = [0]
    d0 = env._draw

    def count(kind):
        n[0] += 1
        return d0(kind)
    if env.symbolic:
        env.hook("draw", count)
    else:
        env._draw = count
    z = c.noise_samples
    env.check("redrawn on every access", n[0] > 0 and z is not s)
    env.check_eq("earlier samples unchanged", y, yk)
    n[0] = 0
    b.noise_samples
    env.check("not redrawn", n[0] == 0)


def sizes(env, cfg):
    """Sizes which are not given are those of the samples."""
    nz = env.q("noise")
    O, n, T = cfg["shape"]
    smp = env.rarr("s", (O, n, T))
    draws = []

    def make(**kw):
        if cfg["cls"] == "static":
            kw.pop("n_noise_operators")
            return nz.NTGQuasiStatic(
                standard_deviation=stds(env, O), noise_samples=smp,
                always_redraw_samples=False,
                correct_std_for_discrete_sampling=False,
                sampling_mode="monte_carlo", **kw)

        class Gen(nz.NoiseTraceGenerator):
            def _sample_noise(self):
                draws.append(1)
                self._noise_samples = smp
        return Gen(noise_samples=smp, always_redraw_samples=False, **kw)
    for which in range(4):
        kw = dict(n_samples_per_trace=T, n_traces=n, n_noise_operators=O)
        if which:
            kw[sorted(kw)[which - 1]] = None
        else:
            kw = dict.fromkeys(kw)
        for nm, v in (("n_samples_per_trace", T), ("n_traces", n),
                      ("n_noise_operators", O)):
            env.check("size of the samples", getattr(make(**kw), nm) == v)
    env.check("given samples are not drawn again", not draws)
    if cfg["cls"] == "base":
        class Gen(nz.NoiseTraceGenerator):
            def _sample_noise(self):
                draws.append(1)
                self._noise_samples = smp
        g = Gen(noise_samples=None, always_redraw_samples=False,
                n_samples_per_trace=T, n_traces=None,
                n_noise_operators=None)
        env.check("drawn for the size", g.n_traces == n
                  and g.n_noise_operators == O and len(draws) == 1)
        # given sizes count before any sample is drawn
        g = Gen(noise_samples=None, always_redraw_samples=True,
                n_samples_per_trace=T, n_traces=n + 1,
                n_noise_operators=O + 1)
        env.check("given sizes", g.n_traces == n + 1
                  and g.n_noise_operators == O + 1
                  and g.n_samples_per_trace == T and len(draws) == 1)


def reject(env, cfg):
    nz = env.q("noise")
    kw = dict(standard_deviation=stds(env, 1), n_samples_per_trace=2)
    g = nz.NTGQuasiStatic(n_traces=2, sampling_mode="other",
                          correct_std_for_discrete_sampling=False, **kw)
    env.raises("unknown sampling mode", ValueError, lambda: g.noise_samples)
    env.raises("unknown sampling mode", ValueError, lambda: g.n_traces)
    env.raises("one trace has no deviation", (RuntimeWarning, RuntimeError),
               lambda: nz.NTGQuasiStatic(n_traces=1, **kw))
    kw["standard_deviation"] = stds(env, 2)
    env.raises("one trace per operator has no deviation",
               (RuntimeWarning, RuntimeError),
               lambda: nz.NTGQuasiStatic(n_traces=1, **kw))
