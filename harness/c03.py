"""C03: vectorization of density matrices and unitary superoperators."""
from .common import *

BOUNDS = "dimensions 1..4 (thorough 5), all entries symbolic"


def configs(tier):
    for d in ([1, 2, 3, 4] if tier == "quick" else [1, 2, 3, 4, 5]):
        for t in ("op", "arr"):
            yield {"h": "vecs", "d": d, "t": t}
            yield {"h": "sup", "d": d, "t": t}
    yield {"h": "bad"}


def mk(env, cfg, a):
    return op(env, a) if cfg["t"] == "op" else a.copy()


def val(o):
    return o.data if hasattr(o, "ptrace") else o


def vecs(env, cfg):
    d = cfg["d"]
    m = env.q("matrix")
    r = env.carr("r", (d, d))
    R = mk(env, cfg, r)
    v = m.ket_vectorize_density_matrix(R)
    env.check("type", type(v) is type(R))
    env.check_eq("column stacking", val(v), vec(env, r))
    env.check_eq("input unchanged", val(R), r)
    b = m.convert_ket_vectorized_density_matrix_to_square(v)
    env.check_eq("round trip", val(b), r)
    env.check_eq("ket unchanged", val(v), vec(env, r))
    k = env.carr("k", (d * d, 1))
    K = mk(env, cfg, k)
    s = m.convert_ket_vectorized_density_matrix_to_square(K)
    env.check_eq("column unstacking", val(s), env.mat(
        [[k[j * d + i, 0] for j in range(d)] for i in range(d)]))
    env.check_eq("other round trip",
                 val(m.ket_vectorize_density_matrix(s)), k)


def sup(env, cfg):
    d = cfg["d"]
    m = env.q("matrix")
    u, r = env.carr("u", (d, d)), env.carr("r", (d, d))
    U = mk(env, cfg, u)
    S = m.convert_unitary_to_super_operator(U)
    env.check("type", type(S) is type(U))
    env.check_eq("superoperator", val(S), kron(env, conj(env, u), u))
    env.check_eq("input unchanged", val(U), u)
    lhs = mm(env, val(S), val(m.ket_vectorize_density_matrix(
        mk(env, cfg, r))))
    rhs = val(m.ket_vectorize_density_matrix(mk(env, cfg, mchain(
        env, u, r, dagger(env, u)))))
    env.check_eq("S vec(r) = vec(u r u^dag)", lhs, rhs)
    if d <= 2:
        w = env.carr("w", (d, d))
        env.check_eq("multiplicative",
                     mm(env, val(S), val(m.convert_unitary_to_super_operator(
                         mk(env, cfg, w)))),
                     val(m.convert_unitary_to_super_operator(
                         mk(env, cfg, mm(env, u, w)))))


def bad(env, cfg):
    m = env.q("matrix")
    a = env.carr("a", (2, 3))
    env.raises("not square", ValueError,
               lambda: m.ket_vectorize_density_matrix(op(env, a)))
    env.raises("not a ket", ValueError,
               lambda: m.convert_ket_vectorized_density_matrix_to_square(
                   op(env, a)))
    env.raises("type", ValueError,
               lambda: m.convert_unitary_to_super_operator([[1]]))
