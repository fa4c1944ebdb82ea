"""C01: operator arithmetic and value semantics of the operands."""
from .common import *

BOUNDS = ("square matrices of dimension 1..4 (thorough: 5), kets and bras, all "
          "complex entries and scalars symbolic; every binary and in-place "
          "operator, operand kinds operator / array / real / complex / int; "
          "operands that wrap transposed, reversed, strided or sliced arrays")


def configs(tier):
    ds = [1, 2, 3, 4] if tier == "quick" else [1, 2, 3, 4, 5]
    for d in ds:
        for kind in ("op", "arr", "real", "cplx", "int", "npf", "npc"):
            yield {"h": "arith", "d": d, "kind": kind}
        yield {"h": "alias", "d": d}
        yield {"h": "rect", "d": d}
        yield {"h": "items", "d": d}
        for lay in LAYOUTS:
            yield {"h": "views", "d": d, "lay": lay}
    yield {"h": "reject", "d": 2}


def other(env, kind, d):
    if kind == "op":
        b = env.carr("b", (d, d))
        return env.D(b.copy()), b
    if kind == "arr":
        b = env.carr("b", (d, d))
        return b.copy(), b
    if kind == "real":
        s = env.real("s", nonzero=True)
        return s, s
    if kind == "cplx":
        s = env.cplx("s")
        env.assume(s.real * s.real + s.imag * s.imag > 0.01)
        return s, s
    if kind == "int":
        return -3, -3
    if kind == "npf":
        return env.np.float64(0.5), 0.5
    return env.np.complex128(0.5 - 2j), 0.5 - 2j


def val(env, o):
    return o.data if hasattr(o, "ptrace") else o


def arith(env, cfg):
    d, kind = cfg["d"], cfg["kind"]
    a = env.carr("a", (d, d))
    o, b = other(env, kind, d)
    matrix = kind in ("op", "arr")

    def ref(sym):
        rows = []
        if sym == "*" and matrix:
            return mm(env, a, b)
        for i in range(d):
            r = []
            for j in range(d):
                y = b[i, j] if matrix else b
                x = a[i, j]
                r.append(x + y if sym == "+" else x - y if sym == "-" else
                         x * y if sym == "*" else x / y)
            rows.append(r)
        return env.mat(rows)

    def unchanged(tag, A):
        env.check_eq(tag + ": left operand unchanged", A.data, a)
        if matrix:
            env.check_eq(tag + ": right operand unchanged", val(env, o), b)

    syms = ["+", "-", "*"]
    if kind == "arr":
        # elementwise division by an array
        for i in range(d):
            for j in range(d):
                env.assume(abs2(b[i, j]) > 0.01)
    if kind != "op":
        syms.append("/")
    for sym in syms:
        A = op(env, a)
        r = (A + o if sym == "+" else A - o if sym == "-" else
             A * o if sym == "*" else A / o)
        env.check_eq("a%sb" % sym, r.data, ref(sym))
        unchanged("a%sb" % sym, A)
        # the result is independent storage
        r[0, 0] = env._c(7, 0)
        unchanged("a%sb result storage" % sym, A)
        # in place
        A = op(env, a)
        B = A
        if sym == "+":
            B += o
        elif sym == "-":
            B -= o
        elif sym == "*":
            B *= o
        else:
            B /= o
        env.check("a%s=b is in place" % sym, B is A)
        env.check_eq("a%s=b" % sym, A.data, ref(sym))
        if matrix:
            env.check_eq("a%s=b: right operand unchanged" % sym,
                         val(env, o), b)
    if not matrix:
        A = op(env, a)
        if kind not in ("npf", "npc"):
            r = o * A
            env.check_eq("b*a", r.data, ref("*"))
            unchanged("b*a", A)
        r = A.__rmul__(o)
        env.check_eq("rmul", r.data, ref("*"))
        unchanged("rmul", A)
    elif kind == "arr":
        A = op(env, a)
        r = A.__rmul__(o)
        env.check_eq("array*a", r.data, mm(env, b, a))
        unchanged("array*a", A)


def alias(env, cfg):
    """Both operands the same object."""
    d = cfg["d"]
    a = env.carr("a", (d, d))
    A = op(env, a)
    env.check_eq("a+a", (A + A).data, mscale(env, a, 2))
    env.check_eq("a-a", (A - A).data, zeros(env, d, d))
    env.check_eq("a*a", (A * A).data, mm(env, a, a))
    env.check_eq("a unchanged", A.data, a)
    A += A
    env.check_eq("a+=a", A.data, mscale(env, a, 2))
    A = op(env, a)
    A *= A
    env.check_eq("a*=a", A.data, mm(env, a, a))
    A = op(env, a)
    A -= A
    env.check_eq("a-=a", A.data, zeros(env, d, d))
    # copies are independent in both directions
    A = op(env, a)
    C = A.copy()
    C += 1
    env.check_eq("copy: original unchanged", A.data, a)
    C = A.copy()
    A *= 2
    env.check_eq("copy: copy unchanged", C.data, a)
    env.check("copy type", type(C) is type(A))
    # evaluation order of a product chain
    b, c = env.carr("b", (d, d)), env.carr("c", (d, d))
    A, B, Cc = op(env, a), op(env, b), op(env, c)
    env.check_eq("(ab)c", (A * B * Cc).data, mchain(env, a, b, c))
    env.check_eq("a(b+c)", (A * (B + Cc)).data,
                 madd(env, mm(env, a, b), mm(env, a, c)))


def views(env, cfg):
    """Operators that wrap a part of a larger array."""
    d = cfg["d"]
    base, a = laid_out(env, "a", (d, d), cfg["lay"])
    b = env.carr("b", (d, d))
    whole = base.copy()
    D = env.q("matrix").DenseOperator
    s = env.cplx("s")
    env.assume(abs2(s) > 0.01)
    for i in range(d):
        for j in range(d):
            env.assume(abs2(b[i, j]) > 0.01)
    ref = a.copy()

    def intact(tag):
        env.check_eq(tag + ": array of the operand unchanged", base, whole)

    A = D(a)
    env.check_eq("the operator", A.data, ref)
    cases = [
        ("copy", lambda: A.copy(), ref),
        ("a+b", lambda: A + D(b.copy()), madd(env, ref, b)),
        ("a+array", lambda: A + b, madd(env, ref, b)),
        ("a-b", lambda: A - D(b.copy()), madd(env, ref, b, -1)),
        ("a*b", lambda: A * D(b.copy()), mm(env, ref, b)),
        ("b*a", lambda: D(b.copy()) * A, mm(env, b, ref)),
        ("a*array", lambda: A * b, mm(env, ref, b)),
        ("array*a", lambda: A.__rmul__(b), mm(env, b, ref)),
        ("a*s", lambda: A * s, mscale(env, ref, s)),
        ("s*a", lambda: s * A, mscale(env, ref, s)),
        ("a/s", lambda: A / s, mscale(env, ref, 1 / s)),
        ("a+1", lambda: A + 1, ref + 1),
        ("a-s", lambda: A - s, ref - s),
        ("a+a", lambda: A + A, mscale(env, ref, 2)),
        ("a*a", lambda: A * A, mm(env, ref, ref))]
    for nm, f, want in cases:
        r = f()
        env.check_eq(nm, r.data, want)
        intact(nm)
        r[0, 0] = env._c(7, 0)
        intact(nm + " result storage")
        env.check_eq(nm + " operand", A.data, ref)
    # in place operations on a copy
    for nm, f, want in (
            ("+=", lambda x: x.__iadd__(b), madd(env, ref, b)),
            ("-=", lambda x: x.__isub__(b), madd(env, ref, b, -1)),
            ("*=", lambda x: x.__imul__(s), mscale(env, ref, s)),
            ("*=b", lambda x: x.__imul__(b), mm(env, ref, b)),
            ("/=", lambda x: x.__itruediv__(s), mscale(env, ref, 1 / s))):
        r = f(A.copy())
        env.check_eq("copy %s" % nm, r.data, want)
        intact("copy %s" % nm)
    # a copy does not follow the array either
    r = A.copy()
    base[...] = 3
    env.check_eq("copy is independent of the array", r.data, ref)


def rect(env, cfg):
    d = cfg["d"]
    a = env.carr("a", (d, d))
    k = env.carr("k", (d, 1))
    A, K = op(env, a), op(env, k)
    env.check_eq("matrix*ket", (A * K).data, mm(env, a, k))
    env.check_eq("bra*ket", (K.dag() * K).data,
                 mm(env, dagger(env, k), k))
    env.check_eq("ket*bra", (K * K.dag()).data, mm(env, k, dagger(env, k)))
    env.check_eq("ket+ket", (K + K).data, mscale(env, k, 2))
    env.check_eq("unchanged", K.data, k)
    env.check_eq("unchanged", A.data, a)
    env.check("shape", tuple(K.shape) == (d, 1))


def items(env, cfg):
    d = cfg["d"]
    a = env.carr("a", (d, d))
    A = op(env, a)
    for i in range(d):
        for j in range(d):
            env.check_eq("getitem", A[i, j], a[i, j])
    z = env.cplx("z")
    A[d - 1, 0] = z
    for i in range(d):
        for j in range(d):
            env.check_eq("setitem", A[i, j],
                         z if (i, j) == (d - 1, 0) else a[i, j])
    D = env.q("matrix").DenseOperator
    env.check_eq("identity_like", A.identity_like().data, eye(env, d))
    B = D(A)
    env.check_eq("operator from operator", B.data, A.data)
    s2 = {"0": [[1, 0], [0, 1]], "x": [[0, 1], [1, 0]],
          "y": [[0, -1j], [1j, 0]], "z": [[1, 0], [0, -1]],
          "p": [[0, 1], [0, 0]], "m": [[0, 0], [1, 0]]}
    for n, m in s2.items():
        P = getattr(D, "pauli_" + n)()
        env.check_eq("pauli_" + n, P.data, env.mat(
            [[env._c(complex(x).real, complex(x).imag) for x in r]
             for r in m]))


def reject(env, cfg):
    a = env.carr("a", (2, 2))
    bad = [None, "x", [1, 2], {}]
    for o in bad:
        for nm, f in (("add", lambda A, o: A + o), ("sub", lambda A, o: A - o),
                      ("mul", lambda A, o: A * o),
                      ("div", lambda A, o: A / o)):
            A = op(env, a)
            env.raises("%s rejects %s" % (nm, type(o).__name__),
                       (NotImplementedError, ValueError, TypeError),
                       lambda: f(A, o))
            env.check_eq("operand unchanged", A.data, a)
    k = env.carr("k", (3, 1))
    env.raises("dimension mismatch", ValueError,
               lambda: op(env, a) * op(env, k))
    env.raises("constructor", ValueError,
               lambda: env.q("matrix").DenseOperator("abc"))
