"""C02: adjoint, transpose, trace, tensor product, partial trace."""
import itertools

from .common import *

BOUNDS = ("dimensions 1..3 (thorough 4), rectangular matrices included; "
          "partial trace over every proper subset (in every order) of 2 or 3 "
          "subsystems with dimensions 2..3; operators on transposed, reversed, "
          "strided or sliced arrays; all entries symbolic")


def configs(tier):
    shapes = [(1, 1), (2, 2), (3, 3), (2, 1), (1, 3), (2, 3)]
    if tier == "thorough":
        shapes += [(4, 4), (4, 2), (5, 1)]
    for s in shapes:
        yield {"h": "adj", "s": list(s)}
        for lay in LAYOUTS:
            yield {"h": "views", "s": list(s), "lay": lay}
    pairs = [((2, 2), (2, 2)), ((2, 2), (3, 3)), ((3, 1), (2, 1)),
             ((1, 2), (2, 2)), ((3, 3), (2, 2))]
    for a, b in pairs:
        yield {"h": "tensor", "a": list(a), "b": list(b)}
    dimss = [[2, 2], [2, 3], [3, 2], [2, 2, 2], [2, 2, 3], [3, 1, 2]]
    if tier == "thorough":
        dimss += [[2, 3, 2], [3, 2, 2], [3, 3], [2, 2, 2, 2], [4, 2, 2]]
    for dims in dimss:
        n = len(dims)
        for r in range(1, n):
            for rem in itertools.permutations(range(n), r):
                yield {"h": "ptrace", "dims": dims, "rem": list(rem)}
    for dims in ([2, 2], [2, 3], [3, 2]):
        yield {"h": "product", "dims": dims}
    yield {"h": "bad"}


def adj(env, cfg):
    s = tuple(cfg["s"])
    a = env.carr("a", s)
    A = op(env, a)
    ref = {"dag": dagger(env, a), "conj": conj(env, a),
           "conjugate": conj(env, a), "transpose": tp(env, a)}
    for nm, r in ref.items():
        A = op(env, a)
        o = getattr(A, nm)()
        env.check_eq(nm, o.data, r)
        env.check_eq(nm + " leaves the operator alone", A.data, a)
        env.check(nm + " shape", tuple(o.shape) == tuple(r.shape))
        # no shared storage
        o[0, 0] = env._c(5, 1)
        env.check_eq(nm + " result storage", A.data, a)
        o = getattr(A, nm)(do_copy=True)
        A[0, 0] = env._c(-5, 1)
        env.check_eq(nm + " copy storage", o.data, r)
        A = op(env, a)
        o = getattr(A, nm)(do_copy=False)
        env.check(nm + " in place", o is A)
        env.check_eq(nm + " in place value", A.data, r)
        back = getattr(A, nm)()
        env.check_eq(nm + " involution", back.data, a)
    A = op(env, a)
    env.check_eq("flatten", A.flatten(), [a[i, j] for i in range(s[0])
                                          for j in range(s[1])])
    f = A.flatten()
    f[0] = 3
    env.check_eq("flatten copies", A.data, a)
    if s[0] == s[1]:
        env.check_eq("trace", A.tr(), trace(env, a))
    n2 = sum(abs2(a[i, j]) for i in range(s[0]) for j in range(s[1]))
    nrm = A.norm("fro")
    env.check_eq("squared norm", nrm * nrm, n2)
    env.check("norm >= 0", nrm >= 0)
    env.check_eq("default norm", A.norm(), nrm)


def views(env, cfg):
    """Operators that wrap a part of a larger array."""
    s = tuple(cfg["s"])
    base, a = laid_out(env, "a", s, cfg["lay"])
    whole, ref = base.copy(), a.copy()
    b = env.carr("b", (2, 1))
    D = env.q("matrix").DenseOperator
    A = D(a)
    for nm, want in (("dag", dagger(env, ref)), ("conj", conj(env, ref)),
                     ("conjugate", conj(env, ref)),
                     ("transpose", tp(env, ref))):
        o = getattr(A, nm)()
        env.check_eq(nm, o.data, want)
        env.check_eq(nm + " leaves the array alone", base, whole)
        o[0, 0] = env._c(5, 1)
        env.check_eq(nm + " result storage", base, whole)
        env.check_eq(nm + " operand", A.data, ref)
        C = A.copy()
        o = getattr(C, nm)(do_copy=False)
        env.check_eq(nm + " in place on a copy", o.data, want)
        env.check_eq(nm + " of a copy leaves the array alone", base, whole)
        # a result can be used like any other operator
        o = getattr(A, nm)()
        o *= 2
        env.check_eq(nm + " then *=", o.data, mscale(env, want, 2))
        o = getattr(A, nm)().copy()
        o += 1
        env.check_eq(nm + " then copy", o.data, want + 1)
        env.check_eq(nm + " chain storage", base, whole)
    f = A.flatten()
    env.check_eq("flatten", f, [ref[i, j] for i in range(s[0])
                                for j in range(s[1])])
    f[0] = 3
    env.check_eq("flatten copies", base, whole)
    env.check_eq("kron", A.kron(D(b.copy())).data, kron(env, ref, b))
    env.check_eq("kron storage", base, whole)
    if s[0] == s[1]:
        env.check_eq("trace", A.tr(), trace(env, ref))


def tensor(env, cfg):
    a = env.carr("a", tuple(cfg["a"]))
    b = env.carr("b", tuple(cfg["b"]))
    A, B = op(env, a), op(env, b)
    K = A.kron(B)
    env.check_eq("kron", K.data, kron(env, a, b))
    env.check_eq("kron with array", A.kron(b).data, kron(env, a, b))
    env.check_eq("operands", A.data, a)
    env.check_eq("operands", B.data, b)
    if cfg["a"][0] == cfg["a"][1] and cfg["b"][0] == cfg["b"][1]:
        env.check_eq("tr(a x b)", K.tr(), trace(env, a) * trace(env, b))
    env.check_eq("(a x b)^dag", K.dag().data,
                 A.dag().kron(B.dag()).data)
    env.raises("bad kron operand", ValueError, lambda: A.kron("x"))


def unravel(k, dims):
    out = []
    for d in reversed(dims):
        out.append(k % d)
        k //= d
    return tuple(reversed(out))


def pt_ref(env, m, dims, rem):
    keep = [k for k in range(len(dims)) if k not in rem]
    dk = [dims[k] for k in keep]
    dr = [dims[k] for k in rem]
    n, r = 1, 1
    for x in dk:
        n *= x
    for x in dr:
        r *= x

    def flat(ik, ir):
        idx = [0] * len(dims)
        for k, v in zip(keep, ik):
            idx[k] = v
        for k, v in zip(rem, ir):
            idx[k] = v
        f = 0
        for d, v in zip(dims, idx):
            f = f * d + v
        return f
    rows = []
    for i in range(n):
        row = []
        for j in range(n):
            acc = env.num(0)
            for q in range(r):
                t = unravel(q, dr)
                acc = acc + m[flat(unravel(i, dk), t),
                              flat(unravel(j, dk), t)]
            row.append(acc)
        rows.append(row)
    return env.mat(rows)


def ptrace(env, cfg):
    dims, rem = cfg["dims"], cfg["rem"]
    n = 1
    for d in dims:
        n *= d
    a = env.carr("a", (n, n))
    A = op(env, a)
    R = A.ptrace(list(dims), list(rem))
    env.check_eq("partial trace", R.data, pt_ref(env, a, dims, rem))
    env.check_eq("operator unchanged", A.data, a)
    env.check_eq("trace preserved", R.tr(), trace(env, a))
    # kets are turned into density matrices
    k = env.carr("k", (n, 1))
    K = op(env, k)
    R = K.ptrace(list(dims), list(rem))
    env.check_eq("partial trace of a ket", R.data,
                 pt_ref(env, mm(env, k, dagger(env, k)), dims, rem))
    env.check_eq("ket unchanged", K.data, k)
    A = op(env, a)
    B = A.ptrace(list(dims), list(rem), do_copy=False)
    env.check("in place", B is A)
    env.check_eq("in place value", A.data, pt_ref(env, a, dims, rem))


def product(env, cfg):
    """ptrace(a x b) = a tr(b)."""
    p, q = cfg["dims"]
    a, b = env.carr("a", (p, p)), env.carr("b", (q, q))
    K = op(env, a).kron(op(env, b))
    env.check_eq("remove second", K.ptrace([p, q], [1]).data,
                 mscale(env, a, trace(env, b)))
    env.check_eq("remove first", K.ptrace([p, q], [0]).data,
                 mscale(env, b, trace(env, a)))


def bad(env, cfg):
    a = env.carr("a", (4, 4))
    env.raises("wrong dimensions", AssertionError,
               lambda: op(env, a).ptrace([2, 3], [0]))
    D = env.q("matrix").DenseOperator
    A = op(env, a)
    env.check_eq("equal dim", A.identity_like().data, eye(env, 4))
    env.raises("identity of a ket", AssertionError,
               lambda: D(env.carr("k", (2, 1))).identity_like())
