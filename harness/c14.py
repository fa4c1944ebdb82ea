"""C14: leakage costs."""
from .common import *
from .solv import *
from .cst import *

BOUNDS = ("dimension 2..4, computational subspaces of size 1..3 in any "
          "order, 1..3 and 12 noise traces; every propagator entry")


def configs(tier):
    big = tier == "thorough"
    yield {"h": "solver", "kind": "leak", "idx": [1]}
    yield {"h": "solver", "kind": "incoherent", "idx": [0]}
    yield {"h": "solver", "kind": "unitary", "idx": [0]}
    yield {"h": "solver", "kind": "unitary_mc", "idx": [1]}
    yield {"h": "solver", "kind": "lindblad", "idx": [1]}
    for n, idx in ((2, [0]), (2, [1]), (3, [0, 1]), (3, [2, 0]), (3, [1]),
                   (4, [3, 1]), (4, [0, 1, 2])):
        for kind in ("leak", "incoherent", "unitary"):
            yield {"h": "given", "kind": kind, "n": n, "idx": idx, "K": 1}
        yield {"h": "given", "kind": "incoherent", "n": n, "idx": idx, "K": 3}
        if n < 4 or big:
            yield {"h": "given", "kind": "channel", "n": n, "idx": idx}
            for K in (1, 3):
                yield {"h": "given", "kind": "unitary_mc", "n": n,
                       "idx": idx, "K": K}
            yield {"h": "given", "kind": "channel_mc", "n": n, "idx": idx,
                   "K": 2}
    for n, idx in ((2, [0]), (3, [2, 0]), (3, [0, 1])):
        yield {"h": "given", "kind": "unitary", "n": n, "idx": idx,
               "verbose": 1}
    for kind in ("leak", "incoherent", "unitary"):
        yield {"h": "given", "kind": kind, "n": 2, "idx": [1, 0], "K": 2}
    yield {"h": "given", "kind": "channel", "n": 2, "idx": [1, 0]}
    for kind in ("incoherent", "unitary_mc", "channel_mc"):
        yield {"h": "given", "kind": kind, "n": 2, "idx": [1], "K": 12}
    yield {"h": "unit", "idx": [0]}
    yield {"h": "unit", "idx": [1, 0]}


def leak(env, u, idx):
    """1 - mean population staying in the subspace."""
    tot = env.num(0)
    for i in idx:
        for j in idx:
            tot = tot + abs2(u[i, j])
    return 1 - tot / len(idx)


def leak_out(env, u, idx):
    """Mean population of the leakage states."""
    tot = env.num(0)
    for j in idx:
        for i in range(u.shape[0]):
            if i not in idx:
                tot = tot + abs2(u[i, j])
    return tot / len(idx)


def leak_channel(env, E, n, idx):
    tot = env.num(0)
    for j in idx:
        for i in range(n):
            if i not in idx:
                tot = tot + E[i + n * i, j + n * j].real
    return tot / len(idx)


def one(env, cf, ref, clip=False):
    if clip:
        pos = bool(ref > 0)
        ref = ref if pos else env.num(0)
    for _ in range(2):
        c = cf.costs()
        c = c if not hasattr(c, "reshape") or not c.shape else \
            c.reshape(-1)[0]
        env.check_eq("leakage", c, ref)


def mk(env, s, cfg):
    c = env.q("cost_functions")
    kind, idx = cfg["kind"], list(cfg["idx"])
    if kind == "leak":
        return c.LeakageError(s, idx)
    if kind == "incoherent":
        return c.IncoherentLeakageError(s, idx)
    return c.LeakageLiouville(
        s, idx, input_unitary=kind.startswith("unitary"),
        monte_carlo=kind.endswith("_mc"), verbose=cfg.get("verbose", 0))


def mean(env, xs):
    return sum(xs, env.num(0)) / len(xs)


def solver(env, cfg):
    kind, idx = cfg["kind"], cfg["idx"]
    noise = kind in ("incoherent", "unitary_mc")
    if noise:
        b = mc(env, {"T": 1, "C": 1, "N": 1, "K": 2})
    elif kind == "lindblad":
        b = lind_setup(env, {"how": "lind", "T": 1, "C": 1, "L": 1})
        b["y"] = pars(env, b)
        b["s"].set_optimization_parameters(b["y"].copy())
    else:
        b = schroed(env, {"n": 2, "T": 2, "C": 1})
    s = b["s"]
    cf = mk(env, s, cfg)
    old = snapshot(s, noise)
    if kind == "leak":
        one(env, cf, leak(env, final(env, b), idx), True)
    elif kind == "incoherent":
        one(env, cf, mean(env, [leak(env, nfinal(env, b, k), idx)
                                for k in range(2)]))
    elif kind == "unitary":
        one(env, cf, leak_out(env, final(env, b), idx))
    elif kind == "unitary_mc":
        one(env, cf, mean(env, [leak_out(env, nfinal(env, b, k), idx)
                                for k in range(2)]))
    else:
        E = fwd(env, lprops(env, b, b["y"]), eye(env, 4))[-1]
        one(env, cf, leak_channel(env, E, 2, idx))
    same_snapshot(env, s, old, noise)


def given(env, cfg):
    kind, n, idx = cfg["kind"], cfg["n"], cfg["idx"]
    m = n * n if kind.startswith("channel") else n
    fin = env.carr("f", (m, m))
    noisy = [env.carr("n%d" % k, (m, m)) for k in range(cfg.get("K", 1))]
    mcs = kind == "incoherent" or kind.endswith("_mc")
    e = eye(env, m)
    mid = env.carr("m", (m, m))
    s, _ = fixed(env, n, [e, mid, fin],
                 [[e, mid, x] for x in noisy] if mcs else None, T=2)
    cf = mk(env, s, cfg)
    if kind == "leak":
        one(env, cf, leak(env, fin, idx), True)
    elif kind == "incoherent":
        one(env, cf, mean(env, [leak(env, x, idx) for x in noisy]))
    elif kind == "unitary":
        one(env, cf, leak_out(env, fin, idx))
    elif kind == "unitary_mc":
        one(env, cf, mean(env, [leak_out(env, x, idx) for x in noisy]))
    elif kind == "channel":
        one(env, cf, leak_channel(env, fin, n, idx))
    else:
        one(env, cf, mean(env, [leak_channel(env, x, n, idx)
                                for x in noisy]))
    env.check_eq("solver results unchanged by the cost function",
                 s.forward_propagators[-1].data, fin)
    if mcs:
        for k, x in enumerate(noisy):
            env.check_eq("solver results unchanged by the cost function",
                         s.forward_propagators_noise[k][-1].data, x)


def unit(env, cfg):
    """For unitaries: within [0, 1], zero for block diagonal ones, equal in
    both formulations."""
    idx = cfg["idx"]
    u = env.unitary2("u", phase=True)
    s, _ = fixed(env, 2, [eye(env, 2), u])
    c = env.q("cost_functions")
    a = c.LeakageError(s, list(idx)).costs()
    b = c.LeakageLiouville(s, list(idx), input_unitary=True).costs()
    env.check("not negative", a >= 0)
    env.check("at most one", a <= 1)
    env.check_eq("formulations agree", a, b.reshape(-1)[0])
