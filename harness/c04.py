"""C04: truncation to a subspace and closest unitary."""
import itertools

from .common import *

BOUNDS = ("dimensions 2..4, every ordered index selection of length 1..3 (dimension 4: five "
          "selections, thorough all); "
          "closest unitary for subspaces of dimension 2 with the singular "
          "value decomposition as symbolic factors; entries symbolic")
ASSUMPTIONS = ["scipy.linalg.svd returns factors U, s, V^dag of its argument "
               "(U, V unitary, s > 0)"]


def configs(tier):
    ds = [2, 3] if tier == "quick" else [2, 3, 4]
    for d in ds:
        for n in range(1, min(d, 3) + 1):
            for idx in itertools.permutations(range(d), n):
                for kind in ("sq", "ket", "bra"):
                    yield {"h": "trunc", "d": d, "idx": list(idx),
                           "kind": kind}
        yield {"h": "none", "d": d}
    if tier == "quick":
        for idx in ([0, 1, 2, 3], [3, 0, 2, 1], [3, 1], [0, 2, 1], [2]):
            for kind in ("sq", "ket", "bra"):
                yield {"h": "trunc", "d": 4, "idx": idx, "kind": kind}
    for idx in ([0, 1], [1, 0], [0, 2]):
        yield {"h": "polar", "d": 3, "idx": idx}
    yield {"h": "closest", "d": 2}


def shape(d, kind):
    return {"sq": (d, d), "ket": (d, 1), "bra": (1, d)}[kind]


def pick(env, a, idx, kind):
    if kind == "sq":
        return env.mat([[a[i, j] for j in idx] for i in idx])
    if kind == "ket":
        return env.mat([[a[i, 0]] for i in idx])
    return env.mat([[a[0, j] for j in idx]])


def trunc(env, cfg):
    d, idx, kind = cfg["d"], cfg["idx"], cfg["kind"]
    a = env.carr("a", shape(d, kind))
    A = op(env, a)
    T = A.truncate_to_subspace(list(idx))
    env.check_eq("truncation", T.data, pick(env, a, idx, kind))
    env.check_eq("operator unchanged", A.data, a)
    T[0, 0] = env._c(9, 9)
    env.check_eq("independent storage", A.data, a)
    T = A.truncate_to_subspace(subspace_indices=list(idx),
                               map_to_closest_unitary=False)
    env.check_eq("truncation kw", T.data, pick(env, a, idx, kind))
    if kind != "sq":
        p = pick(env, a, idx, kind)
        n2 = sum(abs2(p[i, j]) for i in range(p.shape[0])
                 for j in range(p.shape[1]))
        env.assume(n2 > 0.01)
        T = A.truncate_to_subspace(list(idx), map_to_closest_unitary=True)
        t = T.data
        env.check_eq("rescaled norm", sum(
            abs2(t[i, j]) for i in range(t.shape[0])
            for j in range(t.shape[1])), 1)
        env.check_eq("rescaled direction",
                     mscale(env, t, env.sqrt(n2)), p)
        env.check_eq("operator unchanged", A.data, a)


def none(env, cfg):
    a = env.carr("a", (cfg["d"], cfg["d"]))
    A = op(env, a)
    env.check("reference", A.truncate_to_subspace(None) is A)
    env.check("reference", A.truncate_to_subspace(
        None, map_to_closest_unitary=True) is A)
    env.check_eq("unchanged", A.data, a)


def svd_setup(env):
    u, v = env.unitary2("u", phase=True), env.unitary2("v")
    s = [env.real("s0", positive=True), env.real("s1", positive=True)]
    env.assume(s[0] > s[1])
    m = mchain(env, u, env.mat([[s[0] + 0 * env.I, env._c(0, 0)],
                                [env._c(0, 0), s[1] + 0 * env.I]]),
               dagger(env, v))

    def svd(a, full_matrices=True, compute_uv=True, **k):
        if env.equal(a, m):
            return u.copy(), env.array(s), dagger(env, v)
        if env.equal(a, dagger(env, m)):
            return v.copy(), env.array(s), dagger(env, u)
        env.unsupported("svd of another matrix")
    env.hook("svd", svd)
    env.hook("sci_svd", svd)
    return m, mm(env, u, dagger(env, v))


def polar(env, cfg):
    d, idx = cfg["d"], cfg["idx"]
    m, w = svd_setup(env)
    a = env.carr("a", (d, d))
    for i, x in enumerate(idx):
        for j, y in enumerate(idx):
            a[x, y] = m[i, j]
    A = op(env, a)
    T = A.truncate_to_subspace(list(idx), map_to_closest_unitary=True)
    env.check_eq("polar factor", T.data, w)
    env.check_eq("unitary", mm(env, T.data, dagger(env, T.data)),
                 eye(env, 2))
    env.check_eq("operator unchanged", A.data, a)


def closest(env, cfg):
    m, w = svd_setup(env)
    A = op(env, m)
    C = env.q("matrix").closest_unitary(A)
    env.check_eq("closest unitary", C.data, w)
    env.check_eq("argument unchanged", A.data, m)
    C = env.q("util").closest_unitary(A.data)
    env.check_eq("util.closest_unitary", C, w)
