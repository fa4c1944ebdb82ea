"""C29: what the plotting functions hand to matplotlib."""
import sys
import types

import numpy as np

from symx.loader import ColorMap, ColorMaps

from .c26 import fill
from .common import *
from .tfs import *

BOUNDS = ("1..2 runs of 1..3 evaluations with 1..3 costs; 1..3 Hamiltonians "
          "of dimension 2 (3 thorough) with any spectrum; pulses of 1..3 "
          "steps (one of 6) and 1..3 (4) controls, oversampling 1..3, padding "
          "0..2 of every kind; "
          "concatenations of two oversampling parts")
ASSUMPTIONS = ["matplotlib is replaced by a recorder of the calls; its color "
               "map is the real one; a plotted curve is the data given to "
               "plot, bar or scatter"]


def configs(tier):
    big = tier == "thorough"
    for runs in ([1], [3, 1], [2, 2]):
        for F in (1, 2) + ((3,) if big else ()):
            yield {"h": "costs", "runs": runs, "F": F}
            yield {"h": "absolute", "runs": runs, "F": F}
    for n in (1, 2) + ((3,) if big else ()):
        for color in (0, 1):
            for ax in (0, 1):
                yield {"h": "spectrum", "n": n, "color": color, "ax": ax}
    yield {"h": "spectrum", "n": 1, "color": 1, "ax": 1, "d": 3}
    if big:
        yield {"h": "spectrum", "n": 2, "color": 1, "ax": 0, "d": 3}
    for n in (1, 2) + ((3,) if big else ()):
        yield {"h": "bloch", "n": n}
    yield {"h": "colors", "d": 2, "n": 1}
    yield {"h": "colors", "d": 3, "n": 2 if big else 1}
    for T, C, over, pad in ((1, 1, 1, 0), (2, 1, 2, 0), (2, 2, 1, 1),
                            (3, 1, 1, 1)):
        yield {"h": "pulse", "T": T, "C": C, "over": over, "pad": pad}
    yield {"h": "pulse", "T": 2, "C": 1, "over": 2, "pad": 1, "equal": 1}
    for i, bound in enumerate((None, "n", "right_n")):
        yield {"h": "pulse", "T": 2, "C": 1 + i, "over": 2, "pad": 1,
               "bound": bound, "off": 1}
    yield {"h": "pulse", "T": 6, "C": 4, "over": 3, "pad": 2}
    for kind in ("TF", "MTF"):
        yield {"h": "concat", "kind": kind, "T": 2, "C": 1}
        yield {"h": "concat", "kind": kind, "T": 2, "C": 2}


class Axes:
    """Records calls; stands for pyplot, a figure and axes."""

    def __init__(self):
        self.calls = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name == "get_cmap":
            return ColorMap
        if name in ("cm", "colormaps"):
            return ColorMaps()

        def f(*a, **k):
            self.calls.append((name, a, k))
            if name == "subplots":
                return self, self
            if name in ("gca", "gcf", "figure", "subplot"):
                return self
            return []
        return f

    def drawn(self, *names):
        return [c for c in self.calls if c[0] in names]


def curves(ax):
    """(x or None, list of y, label) of everything plotted."""
    out, names = [], []
    for n, a, k in ax.calls:
        if n == "legend" and a and not hasattr(a[0], "calls"):
            names = list(a[-1])
        if n not in ("plot", "semilogy", "step"):
            continue
        a = [x for x in a if not isinstance(x, str)]
        x, y = (None, a[0]) if len(a) == 1 else (a[0], a[1])
        if np.ndim(y) == 2:
            labels = k.get("label")
            for j in range(y.shape[1]):
                out.append([x, list(y[:, j]), labels[j] if isinstance(
                    labels, (list, tuple)) else labels])
        else:
            out.append([x, list(y), k.get("label")])
    for c, s in zip(out, names):
        c[2] = s
    return out


def use_plt(env, plt):
    """Stands for matplotlib.pyplot wherever the code holds it."""
    env.patch(env.lib("matplotlib"), "pyplot", plt)


def steps(env, x, n):
    if x is not None:
        env.check_eq("iterations", list(x), [env.num(i) for i in range(n)])


def costs(env, cfg):
    d, vs = fill(env, cfg)
    an = env.q("analyser")
    a = an.Analyser(d)
    for n in range(len(cfg["runs"])):
        ax, plt = Axes(), Axes()
        use_plt(env, plt)
        if n % 2:
            got = a.plot_costs(n, ax=ax)
            env.check("given axes", not plt.drawn("plot", "subplots"))
            env.check("returned axes", got is ax)
        else:
            a.plot_costs(n=n) if n else a.plot_costs()
            ax = plt
        cs = curves(ax)
        env.check("one curve per cost function", len(cs) == cfg["F"])
        s = vs[n]["optim_summary"]
        for f, (x, y, lab) in enumerate(cs):
            env.check("label", lab == s.indices[f])
            env.check("every iteration", len(y) == len(s.costs))
            steps(env, x, len(y))
            env.check_eq("cost of the iteration", y,
                         [c[f] for c in s.costs])


def absolute(env, cfg):
    d, vs = fill(env, cfg)
    an = env.q("analyser")
    plt = Axes()
    use_plt(env, plt)
    an.Analyser(d).plot_absolute_costs()
    cs = curves(plt)
    env.check("one curve per run", len(cs) == len(vs))
    for (x, y, _), v in zip(cs, vs):
        src = v["optim_summary"].costs
        steps(env, x, len(y))
        for k, c in enumerate(src):
            env.check_eq("root of the squared sum", y[k] * y[k],
                         sum((z * z for z in c), env.num(0)))
            env.check("not negative", y[k] >= 0)
        for z in y[len(src):]:
            env.check("nothing after the end of a run", z != z)


def weights(env, es, c, n, vec, d, limits=True):
    """c: row n of the colors; vec: absolute values of the components."""
    import matplotlib
    base = [[env.num(float(x)) for x in
             matplotlib.colormaps["brg"](k / (d - 1))[:3]]
            for k in range(d)]
    mix = [sum((vec[k] * base[k][j] for k in range(d)), env.num(0))
           for j in range(3)]
    for j in range(3):
        if limits:
            env.check("color range", c[j] <= 1 + 1e-9)
        for i in range(j):
            env.check_eq("mixed by weight", c[j] * mix[i], c[i] * mix[j])
    one = env.num(1)
    for j in range(3):
        one = one * (1 - c[j])
    env.check_eq("full brightness", one, env.num(0))


def colors(env, cfg):
    es = env.q("energy_spectrum")
    plt = Axes()
    use_plt(env, plt)
    d, n = cfg["d"], cfg["n"]
    v = env.rarr("v", (n, d))
    given = v.copy()
    for i in range(n):
        env.assume(v[i, 0] > 0.01)
    c = es.vector_color_map(v)
    env.check("one color per vector", tuple(c.shape) == (n, 3))
    for i in range(n):
        weights(env, es, [c[i, j] for j in range(3)], i,
                [abs(given[i, k]) for k in range(d)], d)
    env.check_eq("argument unchanged", v, given)


def spectrum(env, cfg):
    es = env.q("energy_spectrum")
    plt = Axes()
    use_plt(env, plt)
    known = []
    d = cfg.get("d", 2)
    for i in range(cfg["n"] if d == 3 else 0):
        # the moduli of the eigenvectors are not symmetric
        (a, b), (c, e) = [env.unit_vector("G%d%d" % (i, k), 2)
                          for k in range(2)]
        for v in (a, b, c, e):
            env.assume(v > 0.1)
        V = env.mat([[a, -b * c, b * e], [b, a * c, -a * e],
                     [env.num(0), e, c]])
        lam = [env.real("l%d%d" % (i, j)) for j in range(3)]
        env.assume((lam[0] < lam[1]) & (lam[1] < lam[2]))
        known.append((mchain(env, V, diag(env, lam), dagger(env, V)),
                      lam, V))
    for i in range(cfg["n"] if d == 2 else 0):
        V = env.unitary2("V%d" % i)
        lam = [env.real("l%d%d" % (i, j)) for j in range(2)]
        env.assume(lam[0] < lam[1])
        known.append((mchain(env, V, diag(env, lam), dagger(env, V)),
                      lam, V))
        a = env.unit_vector("V%d" % i, 4)
        env.assume(a[0] * a[0] + a[1] * a[1] > 0.01)
        env.assume(a[2] * a[2] + a[3] * a[3] > 0.01)
    eig_hooks(env, known)
    hs = [op(env, K.copy()) for K, _, _ in known]
    x = env.rarr("x", (cfg["n"],))
    ax = Axes() if cfg["ax"] else plt
    kw = {"ax": ax} if cfg["ax"] else {}
    if not cfg["color"]:
        kw["use_spectral_decomposition"] = False
    got = es.plot_energy_spectrum(hs, x, "field", s=3, **kw)
    if cfg["ax"]:
        env.check("given axes", got is ax and not plt.drawn("scatter"))
    pts = ax.drawn("scatter")
    env.check("one set of points per level", len(pts) == d)
    for j, (_, a, k) in enumerate(pts):
        k = dict(zip(("x", "y", "s", "c"), a), **k)
        env.check("options", k["s"] == 3)
        env.check_eq("position", k["x"], x)
        env.check_eq("level", list(k["y"]), [lam[j] for _, lam, _ in known])
        if not cfg["color"]:
            continue
        for i, (_, _, V) in enumerate(known):
            weights(env, es, [k["c"][i, q] for q in range(3)], i,
                    [env.sqrt(abs2(V[q, j])) for q in range(d)], d, d == 2)
    lab = ax.drawn("set_xlabel", "xlabel")
    env.check("x label", bool(lab) and lab[-1][1][0] == "field")
    for h, (K, _, _) in zip(hs, known):
        env.check_eq("operators unchanged", h.data, K)


class Qutip:
    """The part of qutip which is used; records the points."""

    def __init__(self, env):
        self.env, self.points, self.made = env, [], 0
        i = env.I
        z, o = env.num(0), env.num(1)
        self.m = types.ModuleType("qutip")
        for k, v in (("x", [[z, o], [o, z]]), ("y", [[z, -i], [i, z]]),
                     ("z", [[o, z], [z, -o]])):
            setattr(self.m, "sigma" + k, lambda v=v: env.mat(v))
        self.m.Qobj = lambda a, *_, **k: env.array(a).copy()
        self.m.expect = self.expect
        self.m.Bloch = self.bloch

    def expect(self, a, s):
        e = mchain(self.env, dagger(self.env, s), a, s)[0, 0] \
            if s.shape[1] == 1 else trace(mm(self.env, a, s))
        return e.real

    def bloch(self, fig=None, axes=None, **k):
        self.options, self.axes = k, axes
        self.sphere = Axes()
        self.sphere.axes = Axes()

        def add(p, *a, **k):
            self.points.append(p)
        self.sphere.add_points = add
        return self.sphere


def bloch(env, cfg):
    """The curve on the sphere consists of the Bloch vectors."""
    m = env.q("plotting")
    n = cfg["n"]
    us = [env.unitary2("U%d" % i) for i in range(n)]
    psi = env.mat([[z] for z in (env.unitary2("psi")[:, 0])])
    props = [op(env, u.copy()) for u in us]
    state = op(env, psi.copy())
    qt, plt = Qutip(env), Axes()
    use_plt(env, plt)
    back = env.choice("returned", 2)
    kw = {"return_bloch": True} if back else {}
    def other():
        m.plot_bloch_vector_evolution([op(env, eye(env, 3))], state)
    if env.symbolic:
        for k, v in vars(qt.m).items():
            if not k.startswith("__"):
                env.patch(env.lib("qutip"), k, v)
        got = m.plot_bloch_vector_evolution(props, state, **kw)
        env.raises("one qubit", ValueError, other)
    else:
        old = sys.modules.get("qutip")
        sys.modules["qutip"] = qt.m
        try:
            got = m.plot_bloch_vector_evolution(props, state, **kw)
            env.raises("one qubit", ValueError, other)
        finally:
            del sys.modules["qutip"]
            if old is not None:
                sys.modules["qutip"] = old
    if back:
        env.check("returned sphere", got is qt.sphere)
    env.check("one curve", len(qt.points) == 1)
    env.check("drawn", bool(qt.sphere.drawn("make_sphere", "show",
                                            "render")))
    a = qt.points[0]
    env.check("a vector for every propagator", tuple(a.shape) == (3, n))
    for j, u in enumerate(us):
        v = mm(env, u, psi)
        x, y = v[0, 0], v[1, 0]
        c = x.conjugate() * y
        env.check_eq("Bloch vector", [a[i, j] for i in range(3)],
                     [c.real * 2, c.imag * 2, abs2(x) - abs2(y)])
    for p, u in zip(props, us):
        env.check_eq("propagators unchanged", p.data, u)
    env.check_eq("state unchanged", state.data, psi)


def concat(env, cfg):
    """The second part's parameters are what the first part returns."""
    m = env.q("transfer_function")
    T, C = cfg["T"], cfg["C"]
    plt = Axes()
    use_plt(env, plt)
    if cfg["kind"] == "TF":
        a = m.OversamplingTF(num_ctrls=C, oversampling=2)
        b = m.OversamplingTF(num_ctrls=C, oversampling=2,
                             bound_type=("x", 1))
        tf = m.ConcatenateTF(a, b)
    else:
        a = m.OversamplingMTF(num_ctrls=C, oversampling=2)
        b = m.OversamplingMTF(num_ctrls=C, oversampling=2,
                              bound_type=("x", 1))
        tf = m.ConcatenateMTF(a, b)
    dt = [env.real("dt%d" % i, 0.1, 5) for i in range(T)]
    tf.set_times(env.array(dt))
    y = env.rarr("y", (T, C))
    given = y.copy()
    tf.plot_pulse(y)
    bars = []
    for n, x, k in plt.calls:
        if n == "bar":
            bars.append(dict(zip(("x", "height", "width"), x), **k))
    env.check("two sets of bars per control", len(bars) == 2 * C)
    u, v = tf(given), a(given)
    for c in range(C):
        tr, raw = bars[2 * c], bars[2 * c + 1]
        if raw.get("fill", 1):
            tr, raw = raw, tr
        xt, at = list(tf.x_times), list(a.x_times)
        check_bars(env, "control amplitudes", tr, xt, env.num(0),
                   [u[i, c] for i in range(u.shape[0])])
        check_bars(env, "parameters of the second part", raw, at, sum(
            xt[:b.num_padding_elements[0]], env.num(0)),
            [v[i, c] for i in range(2 * T)])
    env.check_eq("parameters unchanged", y, given)


def centers(ds, start):
    out = []
    for d in ds:
        out.append(start + d / 2)
        start = start + d
    return out


def check_bars(env, label, bars, ds, start, height):
    """Bars of that height which cover the steps."""
    env.check_eq("height of the " + label, list(bars["height"]), height)
    env.check_eq("centers of the " + label, list(bars["x"]),
                 centers(ds, start))
    w = bars["width"]
    env.check_eq("width of the " + label,
                 list(w) if np.ndim(w) else [env.num(w)] * len(ds), ds)


def pulse(env, cfg):
    """Bars of the parameters and of the control amplitudes."""
    m = env.q("transfer_function")
    T, C, over, pad = (cfg[k] for k in ("T", "C", "over", "pad"))
    plt = Axes()
    use_plt(env, plt)
    kw = {}
    if cfg.get("bound", "x"):
        kw["bound_type"] = (cfg.get("bound", "x"), pad)
    if cfg.get("off"):
        kw["offset"] = env.real("off")
        tf = m.OversamplingMTF(num_ctrls=C, oversampling=over, **kw)
    else:
        tf = m.OversamplingTF(num_ctrls=C, oversampling=over, **kw)
    dt = env.rarr("dt", (1 if cfg.get("equal") else T,), lo=0.1, hi=5)
    dt = [dt[0 if cfg.get("equal") else i] for i in range(T)]
    tf.set_times(env.array(dt))
    y = env.rarr("y", (T, C))
    given = y.copy()
    tf.plot_pulse(y, xlabel="t", ylabel="a")
    bars = []
    for n, a, k in plt.calls:
        if n == "bar":
            bars.append(dict(zip(("x", "height", "width"), a), **k))
    env.check("two sets of bars per control", len(bars) == 2 * C)
    u, xt = tf(given), list(tf.x_times)
    first = tf.num_padding_elements[0]
    for c in range(C):
        tr, raw = bars[2 * c], bars[2 * c + 1]
        if raw.get("fill", 1):
            tr, raw = raw, tr
        check_bars(env, "control amplitudes", tr, xt, env.num(0),
                   [u[i, c] for i in range(u.shape[0])])
        check_bars(env, "parameters", raw, dt, sum(
            xt[:first], env.num(0)), [given[i, c] for i in range(T)])
    lab = {n: a[0] for n, a, k in plt.calls if n in ("xlabel", "ylabel")}
    env.check("labels", lab == {"xlabel": "t", "ylabel": "a"})
    env.check_eq("parameters unchanged", y, given)
