"""Solvers and reference values for cost functions."""
from .common import *
from .solv import *
from .c08 import setup as mc_setup, nprops
from .c10 import setup as lind_setup, lprops


def schroed(env, cfg):
    c = dict(cfg)
    b = build(env, c)
    b["y"] = pars(env, b)
    b["s"].set_optimization_parameters(b["y"].copy())
    return b


def final(env, b, y=None):
    """Reference final propagator times initial state."""
    return fwd(env, props(env, b, b["y"] if y is None else y),
               b["psi"])[-1]


def trunc(env, m, idx, cols=True):
    if idx is None:
        return m
    r = [[m[i, j] for j in (idx if cols else range(m.shape[1]))]
         for i in idx]
    return env.mat(r)


def overlap2(env, t, psi):
    """|<t|psi>|^2 for kets."""
    z = sum((t[i, 0].conjugate() * psi[i, 0] for i in range(t.shape[0])),
            env.num(0))
    return abs2(z)


def norm2(env, psi):
    return sum((abs2(x) for x in list(psi.reshape(-1))), env.num(0))


def ent(env, target, u):
    d = target.shape[0]
    z = trace(env, mm(env, dagger(env, target), u))
    return abs2(z) / (d * d)


def ent_channel(env, target, E, idx=None):
    """(1/d^2) sum_ij <i|T^d E(|i><j|) T|j> over computational states;
    E acts on column stacked matrices."""
    d = target.shape[0]
    dim = int(round(E.shape[0] ** 0.5))
    idx = list(range(dim)) if idx is None else idx
    full = zeros(env, dim, d)           # embeds the target
    for a, i in enumerate(idx):
        for c in range(d):
            full[i, c] = target[a, c]
    tot = env.num(0)
    for a, i in enumerate(idx):
        for c, j in enumerate(idx):
            e = zeros(env, dim, dim)
            e[i, j] = env._c(1, 0)
            v = mm(env, E, vec(env, e))
            m = env.mat([[v[q * dim + p, 0] for q in range(dim)]
                         for p in range(dim)])
            w = mchain(env, dagger(env, full), m, full)
            tot = tot + w[a, c]
    return tot.real / (d * d)


def snapshot(s, noise=False):
    out = [[p.data.copy() for p in s.propagators],
           [p.data.copy() for p in s.forward_propagators],
           [p.data.copy() for p in s.reversed_propagators]]
    if noise:
        for l in (s.propagators_noise, s.forward_propagators_noise,
                  s.reversed_propagators_noise):
            out.append([p.data.copy() for r in l for p in r])
    return out


def same_snapshot(env, s, old, noise=False):
    new = snapshot(s, noise)
    for a, b in zip(old, new):
        for x, y in zip(a, b):
            env.check_eq("solver results unchanged by the cost function",
                         y, x)


def nfinal(env, b, k):
    return fwd(env, nprops(env, b, b["y"], k), b["psi"])[-1]


def mc(env, cfg, **kw):
    b = mc_setup(env, cfg, **kw)
    b["y"] = pars(env, b)
    b["s"].set_optimization_parameters(b["y"].copy())
    return b


def svd1(env, known):
    """Singular value decompositions of 1x1 matrices [z]."""
    def svd(a, **k):
        for z, r in known:
            if env.equal(a, env.mat([[z]])):
                return env.mat([[z / r]]), env.array([r]), eye(env, 1)
        env.unsupported("svd")
    env.hook("svd", svd)
    env.hook("sci_svd", svd)


def super_op(env, u):
    """vec(u r u^d) = S vec(r)."""
    n = u.shape[0]
    cols = []
    for j in range(n):
        for i in range(n):
            e = zeros(env, n, n)
            e[i, j] = env._c(1, 0)
            cols.append(vec(env, mchain(env, u, e, dagger(env, u))))
    return env.mat([[cols[j][i, 0] for j in range(n * n)]
                    for i in range(n * n)])


def fixed(env, n, fwd_props=None, noise=None, C=1, T=1, cls=None, **over):
    """A solver whose results are the given matrices."""
    sa = env.q("solver_algorithms")
    base = getattr(sa, cls or ("SchroedingerSMonteCarlo" if noise is not None
                               else "SchroedingerSolver"))
    D = env.q("matrix").DenseOperator
    given = dict(over)
    if fwd_props is not None:
        given["forward_propagators"] = [D(x.copy()) for x in fwd_props]
    if noise is not None:
        given.setdefault("forward_propagators_noise", [
            [D(x.copy()) for x in row] for row in noise])
    sub = type("Fixed" + base.__name__, (base,), {
        k: property(lambda self, v=v: v) for k, v in given.items()})
    hc = [op(env, eye(env, n)) for _ in range(C)]
    kw = {}
    if noise is not None:
        from .c08 import generator
        kw = dict(h_noise=[op(env, eye(env, n))],
                  noise_trace_generator=generator(
                      env, env.array([[[env.num(0)] * T] * len(noise)])))
    s = sub(h_drift=[op(env, zeros(env, n, n))] * T, h_ctrl=hc,
            tau=[1.0] * T, **kw)
    return s, given
