"""C13: noise averaged infidelities of the Monte Carlo solver."""
from .common import *
from .solv import *
from .cst import *

BOUNDS = ("dimension 2 and 3, 1..2 time steps, 1..3 noise traces, "
          "computational subspaces of size 1..2; every operator, sample, "
          "amplitude, state and target"
          "; up to 6 traces in dimension 1, 12 given in dimension 2; "
          "dimension 4 with 2..4 computational states")


def configs(tier):
    big = tier == "thorough"
    base = {"T": 1, "C": 1, "N": 1}
    for K in (1, 2, 3):
        for neg in (0, 1):
            yield dict(base, h="state", K=K, neg=neg, n=2)
            yield dict(base, h="operation", K=K, neg=neg, n=2)
    yield dict(base, h="state", K=1, neg=0, n=2, T=2)
    yield dict(base, h="operation", K=2, neg=1, n=2, T=2)
    for idx in ([0, 2], [2, 1], [1]):
        for neg in (0, 1):
            for r in (0, 1):
                if r and (len(idx) > 1 and neg):
                    continue
                yield {"h": "statef", "n": 3, "idx": idx, "neg": neg,
                       "rescale": r, "K": 1 if r else 2}
            yield {"h": "operationf", "n": 3, "idx": idx, "neg": neg, "K": 2}
            if len(idx) == 1:
                yield {"h": "operationf", "n": 3, "idx": idx, "neg": neg,
                       "K": 1, "closest": 1}
    for neg in (0, 1):
        for h in ("statef", "operationf"):
            yield {"h": h, "n": 2, "idx": [1, 0], "neg": neg, "rescale": 0,
                   "K": 3}
    yield {"h": "liouvillef", "K": 2, "n": 2, "idx": [1, 0]}
    for how in ("state", "operation"):
        yield dict(base, h="notarget", K=2, n=2, how=how)
    yield dict(base, h="liouville", K=2, n=2)
    yield {"h": "liouvillef", "K": 3, "n": 2}
    yield {"h": "liouvillef", "K": 2, "n": 3, "idx": [2, 0], "w": 3}
    yield {"h": "liouvillef", "K": 2, "n": 2, "idx": [1]}
    for neg in (0, 1):
        yield dict(base, h="state", K=6, neg=neg, n=1)
        yield dict(base, h="operation", K=6, neg=neg, n=1, N=3)
    yield dict(base, h="operation", K=5, neg=0, n=2)
    yield {"h": "liouvillef", "K": 6, "n": 1}
    yield dict(base, h="zero", K=2, n=2)
    for idx in ([3, 0, 1], [2, 0], [0, 1, 2, 3]):
        for neg in (0, 1):
            yield {"h": "statef", "n": 4, "idx": idx, "neg": neg,
                   "rescale": 0, "K": 2}
            yield {"h": "operationf", "n": 4, "idx": idx, "neg": neg, "K": 2}
    yield {"h": "liouvillef", "K": 1, "n": 4, "w": 9}
    yield {"h": "liouvillef", "K": 1, "n": 4, "idx": [3, 0, 1], "w": 9}
    yield {"h": "operationf", "n": 2, "idx": [0, 1], "neg": 0, "K": 12}
    if big:
        yield dict(base, h="operation", K=3, neg=0, n=2, T=2, N=2)
        yield dict(base, h="state", K=4, neg=0, n=3, T=1)
        yield {"h": "liouvillef", "K": 3, "n": 3, "idx": [2, 0], "w": 3}
        yield {"h": "statef", "n": 3, "idx": [1, 0], "neg": 1,
               "rescale": 1, "K": 1}


def mean(env, xs):
    return sum(xs, env.num(0)) / len(xs)


def state(env, cfg):
    b = mc(env, dict(cfg, init="ket"))
    s, n = b["s"], b["n"]
    t = env.carr("t", (n, 1))
    T = op(env, dagger(env, t) if cfg["K"] == 2 else t)
    td = T.data.copy()
    cf = env.q("cost_functions").StateNoiseInfidelity(
        solver=s, target=T, neglect_systematic_errors=bool(cfg["neg"]))
    mine = getattr(cf, "target", T).data.copy()
    old = snapshot(s, True)
    r = final(env, b) if cfg["neg"] else t
    ref = mean(env, [1 - overlap2(env, r, nfinal(env, b, k))
                     for k in range(cfg["K"])])
    env.check_eq("infidelity", cf.costs(), ref)
    env.check_eq("infidelity again", cf.costs(), ref)
    same_snapshot(env, s, old, True)
    env.check_eq("target unchanged", T.data, td)
    env.check("noise is sampled once", b["gen"].calls == 1)
    env.check_eq("target of the cost function unchanged",
                 getattr(cf, "target", T).data, mine)


def operation(env, cfg):
    b = mc(env, cfg)
    s, n = b["s"], b["n"]
    t = env.carr("t", (n, n))
    T = op(env, t)
    cf = env.q("cost_functions").OperationNoiseInfidelity(
        solver=s, target=T, neglect_systematic_errors=bool(cfg["neg"]))
    mine = getattr(cf, "target", T).data.copy()
    old = snapshot(s, True)
    r = final(env, b) if cfg["neg"] else t
    ref = mean(env, [1 - ent(env, r, nfinal(env, b, k))
                     for k in range(cfg["K"])])
    env.check_eq("infidelity", cf.costs(), ref)
    env.check_eq("infidelity again", cf.costs(), ref)
    same_snapshot(env, s, old, True)
    env.check_eq("target unchanged", T.data, t)
    env.check("noise is sampled once", b["gen"].calls == 1)
    env.check_eq("target of the cost function unchanged",
                 getattr(cf, "target", T).data, mine)


def given(env, cfg, cols):
    n, K = cfg["n"], cfg["K"]
    fin = env.carr("f", (n, cols))
    noisy = [env.carr("n%d" % k, (n, cols)) for k in range(K)]
    init = eye(env, n) if cols == n else fin
    # a middle step that must not matter
    mid = env.carr("m", (n, cols))
    s, given = fixed(env, n, [init, mid, fin],
                     [[init, mid, x] for x in noisy], T=2)
    return s, fin, noisy


def untouched(env, s, fin, noisy):
    env.check_eq("solver results unchanged by the cost function",
                 s.forward_propagators[-1].data, fin)
    for k, x in enumerate(noisy):
        env.check_eq("solver results unchanged by the cost function",
                     s.forward_propagators_noise[k][-1].data, x)


def statef(env, cfg):
    idx = cfg["idx"]
    s, fin, noisy = given(env, cfg, 1)
    t = env.carr("t", (len(idx), 1))
    T = op(env, dagger(env, t))
    cf = env.q("cost_functions").StateNoiseInfidelity(
        solver=s, target=T, neglect_systematic_errors=bool(cfg["neg"]),
        computational_states=list(idx),
        rescale_propagated_state=bool(cfg["rescale"]))
    r = trunc(env, fin, idx, False) if cfg["neg"] else t
    out = []
    for x in noisy:
        p = trunc(env, x, idx, False)
        f = overlap2(env, r, p)
        if cfg["rescale"]:
            env.assume(norm2(env, p) > 0)
            f = f / norm2(env, p)
            if cfg["neg"]:
                env.assume(norm2(env, r) > 0)
                f = f / norm2(env, r)
        out.append(1 - f)
    env.check_eq("infidelity", cf.costs(), mean(env, out))
    untouched(env, s, fin, noisy)
    env.check_eq("target unchanged", T.data, dagger(env, t))


def operationf(env, cfg):
    idx = cfg["idx"]
    s, fin, noisy = given(env, cfg, cfg["n"])
    t = env.carr("t", (len(idx), len(idx)))
    T = op(env, t)
    cf = env.q("cost_functions").OperationNoiseInfidelity(
        solver=s, target=T, neglect_systematic_errors=bool(cfg["neg"]),
        computational_states=list(idx),
        map_to_closest_unitary=bool(cfg.get("closest")))
    r = trunc(env, fin, idx) if cfg["neg"] else t
    ps = [trunc(env, x, idx) for x in noisy]
    if cfg.get("closest"):
        known = []
        for m in ps + ([r] if cfg["neg"] else []):
            a = env.sqrt(abs2(m[0, 0]))
            env.assume(a > 0)
            known.append((m[0, 0], a))
        svd1(env, known)
        ps = [env.mat([[z / a]]) for z, a in known[:len(ps)]]
        if cfg["neg"]:
            r = env.mat([[known[-1][0] / known[-1][1]]])
    env.check_eq("infidelity", cf.costs(), mean(
        env, [1 - ent(env, r, p) for p in ps]))
    untouched(env, s, fin, noisy)
    env.check_eq("target unchanged", T.data, t)


def notarget(env, cfg):
    """Without a target the systematic errors are neglected."""
    st = cfg["how"] == "state"
    b = mc(env, dict(cfg, init="ket") if st else cfg)
    c = env.q("cost_functions")
    cls = c.StateNoiseInfidelity if st else c.OperationNoiseInfidelity
    cf = cls(solver=b["s"], target=None, neglect_systematic_errors=False)
    f = overlap2 if st else ent
    env.check_eq("infidelity", cf.costs(), mean(env, [
        1 - f(env, final(env, b), nfinal(env, b, k))
        for k in range(cfg["K"])]))


def liouville(env, cfg):
    b = mc(env, cfg)
    s, n = b["s"], b["n"]
    t = env.carr("t", (n, n))
    T = op(env, t)
    c = env.q("cost_functions")
    cf = c.LiouvilleMonteCarloEntanglementInfidelity(solver=s, target=T)
    old = snapshot(s, True)
    ref = mean(env, [1 - ent(env, t, nfinal(env, b, k))
                     for k in range(cfg["K"])])
    env.check_eq("infidelity of the averaged channel", cf.costs(), ref)
    same_snapshot(env, s, old, True)
    env.check_eq("target unchanged", T.data, t)


def liouvillef(env, cfg):
    n, idx = cfg["n"], cfg.get("idx")
    s, fin, noisy = given(env, cfg, n)
    m = len(idx) if idx else n
    t = env.carr("t", (m, m))
    T = op(env, t)
    cf = env.q("cost_functions").LiouvilleMonteCarloEntanglementInfidelity(
        solver=s, target=T, computational_states=idx)
    env.check_eq("infidelity of the averaged channel", cf.costs(), mean(
        env, [1 - ent(env, t, trunc(env, x, idx)) for x in noisy]))
    untouched(env, s, fin, noisy)
    env.check_eq("target unchanged", T.data, t)


def zero(env, cfg):
    """Without noise only the systematic error remains."""
    b = mc_setup(env, cfg)
    b["smp"][...] = 0
    s = b["s"]
    s.set_optimization_parameters(pars(env, b))
    t = env.carr("t", (2, 2))
    c = env.q("cost_functions")
    a = c.OperationNoiseInfidelity(s, op(env, t),
                                   neglect_systematic_errors=False)
    d = c.OperationInfidelity(s, op(env, t))
    env.check_eq("no noise", a.costs(), d.costs())
