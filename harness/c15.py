"""C15: cost gradients are the derivatives of the cost values."""
from .common import *
from .solv import *
from .cst import *

BOUNDS = ("dimension 2..4, 1..3 time steps, 1..3 controls, 1..2 noise "
          "traces, computational subspaces of size 1..2; solvers with "
          "arbitrary Hamiltonians (few steps), and arbitrary propagators "
          "with arbitrary derivatives (more steps)"
          "; up to 5 steps, 4 controls and 4 traces, or 12 traces, in dimension 1 with "
          "real propagators")
ASSUMPTIONS = ["in the given-propagator configurations the entries of the "
               "step propagators are arbitrary differentiable functions of "
               "the amplitudes of their step; real solvers are decided by "
               "C06 to C10"]


def configs(tier):
    big = tier == "thorough"
    for T, C in ((1, 1), (2, 1), (1, 2)) + (((2, 2),) if big else ()):
        yield {"h": "solver", "kind": "state", "T": T, "C": C}
        if T == 1 or big:
            yield {"h": "solver", "kind": "operation", "T": T, "C": C}
    yield {"h": "solver", "kind": "leak", "T": 1, "C": 2, "idx": [1]}
    yield {"h": "lindblad", "T": 1, "C": 1}
    yield {"h": "noise", "T": 1, "C": 1, "K": 2, "neg": 0}
    yield {"h": "noise", "T": 1, "C": 2, "K": 1, "neg": 1}
    for T, C in ((2, 3), (3, 2)):
        r = {"real": int(T == 3)}
        yield dict(r, h="given", kind="state", n=2, T=T, C=C, basis=1)
        yield dict(r, h="given", kind="operation", n=2, T=T, C=C)
        yield dict(r, h="given", kind="leak", n=2, T=T, C=C, idx=[1])
    for idx in ([2, 0], [1]):
        for kind in ("state", "rescaled", "operation", "leak"):
            T = 1 if kind == "rescaled" else 2
            yield {"h": "given", "kind": kind, "n": 3, "T": T, "C": 2,
                   "idx": idx, "basis": int(T > 1 or len(idx) > 1)}
            if T == 1:
                yield {"h": "given", "kind": kind, "n": 3, "T": 2, "C": 1,
                       "idx": idx, "basis": 1, "real": 1}
    for rem in ([0], [1]):
        yield {"h": "given", "kind": "subspace", "n": 4, "T": 1, "C": 2,
               "dims": [2, 2], "remove": rem}
        yield {"h": "given", "kind": "subspace", "n": 4, "T": 2, "C": 1,
               "dims": [2, 2], "remove": rem, "sparse": 1, "basis": 1}
    yield {"h": "given", "kind": "super", "n": 4, "T": 2, "C": 1, "d": 2,
           "sparse": 1}
    yield {"h": "given", "kind": "super", "n": 4, "T": 1, "C": 2, "d": 2}
    yield {"h": "given", "kind": "super", "n": 4, "T": 1, "C": 2, "d": 2,
           "idx": [1]}
    for neg in (0, 1):
        yield {"h": "givenn", "n": 2, "T": 2, "C": 2, "K": 2, "neg": neg,
               "real": neg}
        yield {"h": "givenn", "n": 3, "T": 1, "C": 2, "K": 2, "neg": neg,
               "idx": [2, 0], "sparse": 1}
        yield {"h": "givenn", "n": 3, "T": 2, "C": 1, "K": 1, "neg": neg,
               "idx": [1]}
    # the whole space in another order
    for kind in ("state", "rescaled", "operation", "leak"):
        yield {"h": "given", "kind": kind, "n": 2, "T": 1, "C": 2,
               "idx": [1, 0], "basis": 1}
    yield {"h": "givenn", "n": 2, "T": 1, "C": 2, "K": 3, "neg": 0,
           "idx": [1, 0], "sparse": 1}
    for kind in ("state", "operation"):
        yield {"h": "given", "kind": kind, "n": 1, "T": 5, "C": 4,
               "real": 1}
        yield {"h": "given", "kind": kind, "n": 2, "T": 4, "C": 1,
               "basis": 1, "real": 1, "sparse": 1}
    yield {"h": "givenn", "n": 1, "T": 4, "C": 3, "K": 4, "neg": 0,
           "real": 1}
    yield {"h": "givenn", "n": 1, "T": 3, "C": 4, "K": 4, "neg": 1,
           "real": 1}
    for neg in (0, 1):
        yield {"h": "givenn", "n": 1, "T": 1, "C": 1, "K": 12, "neg": neg,
               "real": 1}
    yield {"h": "closest", "noise": 0}
    yield {"h": "closest", "noise": 1}
    yield {"h": "layout"}


def mk(env, kind, s, t, cfg):
    c = env.q("cost_functions")
    idx = list(cfg["idx"]) if cfg.get("idx") else None
    if kind in ("state", "rescaled"):
        return c.StateInfidelity(s, op(env, t), computational_states=idx,
                                 rescale_propagated_state=kind == "rescaled")
    if kind == "subspace":
        return c.StateInfidelitySubspace(s, op(env, t), list(cfg["dims"]),
                                         list(cfg["remove"]))
    if kind == "operation":
        return c.OperationInfidelity(s, op(env, t),
                                     computational_states=idx)
    if kind == "super":
        return c.OperationInfidelity(s, op(env, t),
                                     super_operator_formalism=True,
                                     computational_states=idx)
    if kind == "leak":
        return c.LeakageError(s, idx)
    raise ValueError(kind)


def target(env, kind, cfg, n):
    idx = cfg.get("idx")
    m = len(idx) if idx else n
    if kind == "leak":
        return None
    if kind == "subspace":
        for r in cfg["remove"]:
            m //= cfg["dims"][r]
    if kind == "super":
        m = len(idx) if idx else cfg["d"]
    if kind in ("state", "rescaled", "subspace"):
        t = env.carr("t", (m, 1))
        return dagger(env, t)
    return env.carr("t", (m, m))


def through(env, b, mkcf, noise=False):
    """Gradient of the cost function of a real solver; the cost values are
    those of the code itself (decided by C12 to C14)."""
    s, y = b["s"], pars(env, b)
    cf = mkcf()
    s.set_optimization_parameters(y.copy())
    old = snapshot(s, noise)
    c = cf.costs()
    if b.get("positive"):
        env.assume(c > 0)
    g = cf.grad()
    same_snapshot(env, s, old, noise)

    def cost(x):
        if env.symbolic:
            return c
        s.set_optimization_parameters(x.copy())
        return cf.costs()
    env.check_grad("gradient", cost, y, perm(env, g))


def perm(env, g):
    """Entries [time, control]."""
    env.check("gradient is a matrix", len(g.shape) == 2)
    return g


def solver(env, cfg):
    kind = cfg["kind"]
    b = build(env, dict(cfg, n=2, drift="op",
                        init="ket" if kind == "state" else None))
    t = target(env, kind, cfg, 2)
    b["positive"] = kind == "leak"
    through(env, b, lambda: mk(env, kind, b["s"], t, cfg))
    if t is not None:
        t2 = target(env, kind, cfg, 2)
        env.check_eq("target unchanged", t, t2)


def lindblad(env, cfg):
    b = lind_setup(env, {"how": "lind", "T": cfg["T"], "C": cfg["C"],
                         "L": 1})
    t = env.carr("t", (2, 2))
    through(env, b, lambda: mk(env, "super", b["s"], t, cfg))


def noise(env, cfg):
    b = mc_setup(env, dict(cfg, N=1, drift="op"))
    t = env.carr("t", (2, 2))
    through(env, b, lambda: env.q(
        "cost_functions").OperationNoiseInfidelity(
            b["s"], op(env, t), neglect_systematic_errors=bool(cfg["neg"])),
        True)


def family(env, cfg, tag, T, C, n):
    """Step propagators whose entries are arbitrary functions of the
    amplitudes of their step, and their derivatives."""
    import math
    import zlib

    def fun(nm):
        h = zlib.crc32(nm.encode())
        k = [((h >> (5 * i)) % 17 - 8.5) / 6 for i in range(C)]
        b = (h % 63) / 10

        def f(*x):
            return math.sin(sum(p * q for p, q in zip(k, x)) + b)

        def d(c):
            return lambda *x: k[c] * math.cos(
                sum(p * q for p, q in zip(k, x)) + b)
        ds = [d(c) for c in range(C)]
        return env.uf(nm, f, ds), [env.uf(nm + "'%d" % c, ds[c])
                                   for c in range(C)]
    sp = cfg.get("sparse")

    def zero(i, j):
        return sp and i != j and (i + j) % 2 == 0
    F = {}
    for t in range(T):
        for i in range(n):
            for j in range(n):
                if not zero(i, j):
                    F[t, i, j] = [fun("%sP%d_%d%d%s" % (tag, t, i, j, x))
                                  for x in ("r" if cfg.get("real") else "ri")]

    def mat(t, g):
        return env.mat([[
            env._c(*([g(f) for f in F[t, i, j]] + [0])[:2]) if (t, i, j) in F
            else env._c(0, 0) for j in range(n)] for i in range(n)])

    def P(y):
        return [mat(t, lambda f: f[0](*[y[t, c] for c in range(C)]))
                for t in range(T)]

    def dP(y):
        return [[mat(t, lambda f: f[1][k](*[y[t, c] for c in range(C)]))
                 for t in range(T)] for k in range(C)]
    return P, dP


def ops(env, ms):
    return [op(env, m) for m in ms]


def res(env, P, dP, y, init):
    ps = P(y)
    return (ops(env, ps), ops(env, fwd(env, ps, init)),
            ops(env, rev(env, ps)), [ops(env, r) for r in dP(y)])


def given(env, cfg):
    kind, n, T, C = cfg["kind"], cfg["n"], cfg["T"], cfg["C"]
    P, dP = family(env, cfg, "", T, C, n)
    vecs = kind in ("state", "rescaled", "subspace")
    init = env.carr("psi", (n, 1)) if vecs else eye(env, n)
    if vecs and cfg.get("basis"):
        init = env.mat([[env._c(int(i == 1), 0)] for i in range(n)])
    t = target(env, kind, cfg, n)
    y = env.rarr("y", (T, C))

    def cf(x):
        a, f, r, d = res(env, P, dP, x, init)
        s, _ = fixed(env, cfg.get("d", n), C=C, T=T, propagators=a,
                     forward_propagators=f, reversed_propagators=r,
                     frechet_deriv_propagators=d)
        return mk(env, kind, s, t, cfg), s
    k, s = cf(y)
    c = k.costs()
    if kind == "leak":
        env.assume(c > 0)
    if kind == "rescaled":
        env.assume(norm2(env, trunc(env, s.forward_propagators[-1].data,
                                    cfg["idx"], False)) > 0.1)
    g = k.grad()
    env.check_grad("gradient", lambda x: c if env.symbolic
                   else cf(x)[0].costs(), y, perm(env, g))
    a, f, r, d = res(env, P, dP, y, init)
    for x, z in ((s.propagators, a), (s.forward_propagators, f),
                 (s.reversed_propagators, r),
                 (sum(s.frechet_deriv_propagators, []), sum(d, []))):
        for p, q in zip(x, z):
            env.check_eq("solver results unchanged", p.data, q.data)


def givenn(env, cfg):
    n, T, C, K = cfg["n"], cfg["T"], cfg["C"], cfg["K"]
    fs = [family(env, cfg, "n%d" % k, T, C, n) for k in range(K)]
    f0 = family(env, cfg, "", T, C, n)
    idx = list(cfg["idx"]) if cfg.get("idx") else None
    m = len(idx) if idx else n
    t = env.carr("t", (m, m))
    y = env.rarr("y", (T, C))
    e = eye(env, n)

    def cf(x):
        a, f, r, d = res(env, *f0, x, e)
        rs = [res(env, *p, x, e) for p in fs]
        s, _ = fixed(env, n, noise=[[e]] * K, C=C, T=T, propagators=a,
                     forward_propagators=f, reversed_propagators=r,
                     frechet_deriv_propagators=d,
                     propagators_noise=[q[0] for q in rs],
                     **{"forward_propagators_noise": [q[1] for q in rs]},
                     reversed_propagators_noise=[q[2] for q in rs],
                     frechet_deriv_propagators_noise=[q[3] for q in rs])
        return env.q("cost_functions").OperationNoiseInfidelity(
            s, op(env, t), computational_states=idx,
            neglect_systematic_errors=bool(cfg["neg"]))
    k = cf(y)
    c = k.costs()
    g = k.grad()
    env.check_grad("gradient", lambda x: c if env.symbolic else cf(x).costs(),
                   y, perm(env, g))


def closest(env, cfg):
    """Cost function with the mapping to the closest unitary."""
    P, dP = family(env, {}, "", 1, 1, 2)
    t = env.carr("t", (1, 1))
    y = env.rarr("y", (1, 1))
    e = eye(env, 2)
    c = env.q("cost_functions")

    def cf(x):
        a, f, r, d = res(env, P, dP, x, e)
        z = f[-1].data[1, 1]
        env.assume(abs2(z) > 0.05)
        if env.symbolic:
            svd1(env, [(z, env.sqrt(abs2(z)))])
        kw = dict(propagators=a, forward_propagators=f,
                  reversed_propagators=r, frechet_deriv_propagators=d)
        if cfg["noise"]:
            kw.update({k + "_noise": [v] for k, v in kw.items()})
            s, _ = fixed(env, 2, noise=[[e]], **kw)
            return c.OperationNoiseInfidelity(
                s, op(env, t), computational_states=[1],
                map_to_closest_unitary=True,
                neglect_systematic_errors=False)
        s, _ = fixed(env, 2, **kw)
        return c.OperationInfidelity(s, op(env, t),
                                     computational_states=[1],
                                     map_to_closest_unitary=True)
    k = cf(y)
    v = k.costs()
    env.check_grad("gradient with closest unitary",
                   lambda x: v if env.symbolic else cf(x).costs(), y,
                   k.grad())


def layout(env, cfg):
    """Costs without an implemented gradient say so."""
    c = env.q("cost_functions")
    s, _ = fixed(env, 2, [eye(env, 2)], noise=[[eye(env, 2)]])
    t = op(env, eye(env, 2))
    for k in (c.StateNoiseInfidelity(s, t),
              c.LiouvilleMonteCarloEntanglementInfidelity(s, t),
              c.IncoherentLeakageError(s, [0]), c.LeakageLiouville(s, [0])):
        env.raises("no gradient", NotImplementedError, k.grad)
