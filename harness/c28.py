"""C28: colored noise has the requested spectrum."""
import math

from .common import *
from .c27 import linear_map, np_index
from .c29 import Axes, use_plt

BOUNDS = ("1..4, 6, 8 and 12 samples, 1..3 operators, 1..4 and 12 traces, "
          "low frequency extension 1..3; periodograms of 2..6 (8 thorough) "
          "samples, 1..2 (3) averages; every positive spectral density, "
          "sample distance and random draw")
ASSUMPTIONS = ["numpy's discrete Fourier transform is replaced by its "
               "definition; draws are independent with variance one"]


def configs(tier):
    big = tier == "thorough"
    for n in (1, 2, 3, 4, 6, 8, 12):
        yield {"h": "fast", "n": n, "shape": [1], "p2": 0}
    for n in (2, 3, 4, 5, 6, 7, 15) + ((8, 9, 11) if big else ()):
        yield {"h": "fast", "n": n, "shape": [1], "p2": 1}
    yield {"h": "fast", "n": 3, "shape": [2], "p2": 0}
    yield {"h": "fast", "n": 4, "shape": [2, 2], "p2": 0}
    yield {"h": "fast", "n": 2, "shape": [], "p2": 0}
    for n, r, O, K in ((2, 1, 1, 1), (2, 2, 1, 2), (1, 3, 2, 1),
                       (3, 2, 1, 1), (2, 3, 2, 2),
                       (4, 3, 3, 4), (2, 1, 1, 12), (12, 1, 1, 1)) + (
            ((4, 3, 1, 1), (4, 2, 2, 2)) if big else ()):
        yield {"h": "trace", "n": n, "r": r, "O": O, "K": K}
    for n, K, scaling in ((2, 1, None), (3, 1, "density"), (4, 2, "density"),
                          (4, 1, "spectrum"), (6, 1, None)) + (
            ((8, 1, "density"), (5, 3, "spectrum")) if big else ()):
        for log in (None, "loglog") if n == 3 else (None,):
            yield {"h": "periodogram", "n": n, "K": K, "scaling": scaling,
                   "log": log}
    for n in (31, 32, 33):
        yield {"h": "length", "n": n}
    yield {"h": "redraw"}
    yield {"h": "reject"}


def density(env):
    """An arbitrary positive spectral density, undefined at zero."""
    zero = []
    s = env.uf("S", lambda f: 0.7 / abs(f) + 0.2 if f else 1.,
               facts=lambda z, *y: z > 0)

    def fn(f):
        for i in np_index(f.shape):
            zero.append(f[i] == 0)
        return s(f)
    return s, fn, zero


def autocov(env, s, dt, n, lag):
    """Sum of S(f) df cos(2 pi f lag dt) over the frequencies k / (n dt);
    the Nyquist frequency counts half."""
    np = env.lib("numpy")
    tot = env.num(0)
    for k in range(1, n // 2 + 1):
        w = env.num(1) / 2 if 2 * k == n else env.num(1)
        tot = tot + w * s(env.num(k) / (n * dt)) / (n * dt) * env.num(
            np.cos(2 * np.pi * ((k * lag) % n) / n))
    return tot


def check_cov(env, x, rec, cols, s, dt, n):
    """Independent traces with that covariance, linear in the draws."""
    z = env.num(0)
    lead = np_index(x.shape[:-1])
    L = x.shape[-1]
    for a in lead:
        for i in range(L):
            env.check_eq("linear in the draws", x[a + (i,)], sum(
                (r * c[a + (i,)] for r, c in zip(rec, cols)), z))
    for a in lead:
        for b in lead:
            for i in range(L):
                for j in range(i + 1 if a == b else L):
                    env.check_eq("covariance", sum(
                        (c[a + (i,)] * c[b + (j,)] for c in cols), z),
                        autocov(env, s, dt, n, i - j) if a == b else z)


def fast(env, cfg):
    nz = env.q("noise")
    n = cfg["n"]
    dt = env.real("dt", 0.1, 5)
    s, fn, zero = density(env)
    m = n
    if cfg["p2"]:
        m = 2 ** int(math.floor(math.log2(n)))
    kw = {"r_power_of_two": True} if cfg["p2"] else {}
    x, rec, cols = linear_map(env, lambda: nz.fast_colored_noise(
        fn, dt, n, tuple(cfg["shape"]), **kw))
    env.check("shape", tuple(x.shape) == tuple(cfg["shape"]) + (m,))
    for c in zero:
        env.check("density not evaluated at zero frequency", not bool(c))
    check_cov(env, x, rec, cols, s, dt, m)


def length(env, cfg):
    """Rounded down to a power of two."""
    n = cfg["n"]
    s, fn, zero = density(env)
    x = env.q("noise").fast_colored_noise(fn, env.real("dt", 0.1, 5), n,
                                          (1,), r_power_of_two=True)
    env.check("shape", tuple(x.shape) == (1, 16 if n < 32 else 32))
    for c in zero:
        env.check("density not evaluated at zero frequency", not bool(c))


def trace(env, cfg):
    """Traces of a generator are cut from longer ones."""
    nz = env.q("noise")
    n, r, O, K = cfg["n"], cfg["r"], cfg["O"], cfg["K"]
    dt = env.real("dt", 0.1, 5)
    s, fn, zero = density(env)
    kw = {"low_frequency_extension_ratio": r} if r > 1 else {}
    g = nz.NTGColoredNoise(n_samples_per_trace=n, noise_spectral_density=fn,
                           dt=dt, n_traces=K, n_noise_operators=O, **kw)
    env.check("sizes", g.n_samples_per_trace == n and g.n_traces == K
              and g.n_noise_operators == O)
    x, rec, cols = linear_map(env, lambda: g.noise_samples)
    env.check("shape", tuple(x.shape) == (O, K, n))
    check_cov(env, x, rec, cols, s, dt, n * r)


def periodogram(env, cfg):
    """The curves shown: mean periodogram and requested density."""
    nz = env.q("noise")
    n, K = cfg["n"], cfg["K"]
    dt = env.real("dt", 0.1, 5)
    s, fn, zero = density(env)
    g = nz.NTGColoredNoise(n_samples_per_trace=n, noise_spectral_density=fn,
                           dt=dt)
    kw = {}
    if cfg["scaling"]:
        kw["scaling"] = cfg["scaling"]
    if cfg["log"]:
        kw["log_plot"] = cfg["log"]
    dev = []

    def show():
        plt = Axes()
        use_plt(env, plt)
        dev.append(g.plot_periodogram(K, **kw))
        cs = []
        for name, a, k in plt.calls:
            if name in ("plot", "loglog", "semilogx", "semilogy"):
                env.check("axes", name == (cfg["log"] or "plot"))
                cs.append(a)
        env.check("two curves", len(cs) == 2)
        for a in cs:
            env.check_eq("frequencies", a[0], env.array(
                [env.num(k) / (n * dt) for k in range(n // 2 + 1)]))
        return env.array([list(a[1]) for a in cs])
    y, rec, cols = linear_map(env, show)
    inner = range(1, (n + 1) // 2)
    tot = env.num(0)
    for k in inner:
        f = env.num(k) / (n * dt)
        env.check_eq("requested density", y[1, k], s(f))
        # a quadratic form of the draws: its mean is its trace
        env.check_eq("mean of the periodogram", sum(
            (c[0, k] for c in cols), env.num(0)),
            s(f) / (1 if cfg["scaling"] != "spectrum" else n * dt))
    for k in range(1, n // 2 + 1)[:-1]:
        tot = tot + (y[0, k] - y[1, k]) * (y[0, k] - y[1, k])
    env.check_eq("deviation", dev[0] * dev[0], tot)
    env.check("no negative deviation", env.num(dev[0]) >= 0)
    plt = Axes()
    use_plt(env, plt)
    g.plot_periodogram(K, draw_plot=False)
    env.check("nothing drawn", not plt.calls)
    env.raises("scaling", ValueError,
               lambda: g.plot_periodogram(K, scaling="power"))


def redraw(env, cfg):
    nz = env.q("noise")
    dt = env.real("dt", 0.1, 5)
    s, fn, zero = density(env)
    keep = env.choice("keep", 2) == 1
    g = nz.NTGColoredNoise(n_samples_per_trace=2, noise_spectral_density=fn,
                           dt=dt, always_redraw_samples=not keep)
    x = g.noise_samples
    x0 = x.copy()
    n = [0]
    d0 = env._draw

    def count(kind):
        n[0] += 1
        return d0(kind)
    if env.symbolic:
        env.hook("draw", count)
    else:
        env._draw = count
    y = g.noise_samples
    env.check("redrawn only if requested", (n[0] == 0) == keep)
    if keep:
        env.check_eq("kept", y, x0)
    env.check_eq("earlier samples unchanged", x, x0)


def reject(env, cfg):
    nz = env.q("noise")
    s, fn, zero = density(env)
    kw = dict(n_samples_per_trace=2, noise_spectral_density=fn)
    env.raises("ratio below one", ValueError, lambda: nz.NTGColoredNoise(
        dt=env.real("dt", 0.1, 5),
        low_frequency_extension_ratio=env.real("r", -2, 0.9), **kw))
    env.raises("dt has to be a scalar", ValueError,
               lambda: nz.NTGColoredNoise(dt=[1., 2.], **kw))
    for k in ("n_traces", "n_noise_operators", "n_samples_per_trace"):
        g = nz.NTGColoredNoise(dt=1., **dict(kw, **{k: None}))
        env.raises("unknown " + k, ValueError, lambda: g.noise_samples)
