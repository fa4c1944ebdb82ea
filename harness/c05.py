"""C05: matrix exponentials and their directional derivatives."""
from .common import *

BOUNDS = ("Taylor methods: every square matrix and direction of dimension "
          "1..4 and complex tau; spectral methods: every skew hermitian "
          "matrix (2x2; thorough: 3x3, five rotation parameters) incl. degenerate "
          "spectra and 2x2 matrices with two different eigenvalues (one "
          "eigenvector fixed; thorough: all); library methods: "
          "arguments handed to scipy for dimension 1..4")
ASSUMPTIONS = [
    "numpy.linalg.eigh / eig return eigenvalues and (unitary / invertible) "
    "eigenvectors of their argument",
    "Daleckii-Krein divided difference formula for the derivative of the "
    "exponential of a diagonalizable matrix"]


def configs(tier):
    ds = [1, 2, 3, 4] if tier == "quick" else [1, 2, 3, 4, 5]
    for d in ds:
        for m in ("first_order", "second_order", "third_order")[:7 - d]:
            for t in ("real", "cplx"):
                yield {"h": "taylor", "d": d, "m": m, "t": t}
        yield {"h": "library", "d": d}
    yield {"h": "skew", "n": 1}
    for ce in (0, 1):
        yield {"h": "skew", "n": 2, "ce": ce, "strict_div": True, "w": 5}
        yield {"h": "general", "ce": ce, "w": 9, "full": 0}
        yield {"h": "general", "ce": ce, "w": 9, "full": 0, "t": "cplx"}
        if tier == "thorough":
            yield {"h": "general", "ce": ce, "w": 50, "full": 1}
        yield {"h": "skew_general_solver", "ce": ce, "w": 5}
    if tier == "thorough":
        yield {"h": "skew", "n": 3, "ce": 0, "w": 20, "strict_div": True}
    for ce in (0, 1):
        yield {"h": "degenerate", "ce": ce, "which": [0, 0]}
        yield {"h": "degenerate", "ce": ce, "which": [0, 1, 0], "w": 9}
    yield {"h": "unitary", "n": 2}
    yield {"h": "decomp", "n": 2}
    yield {"h": "bad"}


def tau_of(env, t):
    return env.real("tau") if t == "real" else env.cplx("tau")


def taylor(env, cfg):
    d, m = cfg["d"], cfg["m"]
    a, e = env.carr("a", (d, d)), env.carr("e", (d, d))
    t = tau_of(env, cfg["t"])
    one = env._c(1, 0)
    A = op(env, a)
    n = {"first_order": 1, "second_order": 2, "third_order": 3}[m]
    at, et = mscale(env, a, t), mscale(env, e, t)
    ref, p, f = eye(env, d), eye(env, d), 1
    dref = zeros(env, d, d)
    powers = [eye(env, d)]
    for k in range(1, n + 1):
        powers.append(mm(env, powers[-1], at))
    for k in range(1, n + 1):
        f *= k
        ref = madd(env, ref, mscale(env, powers[k], one / f))
        for j in range(k):
            dref = madd(env, dref, mscale(env, mchain(
                env, powers[j], et, powers[k - 1 - j]), one / f))
    env.check_eq("series", A.exp(t, method=m).data, ref)
    E = op(env, e)
    env.check_eq("derivative of the series",
                 A.dexp(E, t, method=m).data, dref)
    env.check_eq("derivative, array direction",
                 A.dexp(e.copy(), tau=t, method=m).data, dref)
    env.check_eq("argument unchanged", A.data, a)
    env.check_eq("direction unchanged", E.data, e)


def library(env, cfg):
    d = cfg["d"]
    a, e = env.carr("a", (d, d)), env.carr("e", (d, d))
    t = env.cplx("tau")
    A, E = op(env, a), op(env, e)
    at, et = mscale(env, a, t), mscale(env, e, t)
    x = env.expm(at)
    f = env.frechet(at, et)
    env.check_eq("exp Frechet", A.exp(t, method="Frechet").data, x)
    env.check_eq("exp approx", A.exp(tau=t, method="approx").data, x)
    env.check_eq("dexp Frechet", A.dexp(E, t, method="Frechet").data, f)
    p, g = A.dexp(E, tau=t, method="Frechet", compute_expm=True)
    env.check_eq("dexp with exponential", p.data, x)
    env.check_eq("dexp with exponential", g.data, f)
    env.check_eq("argument unchanged", A.data, a)
    env.check_eq("direction unchanged", E.data, e)


def dk(env, V, Vi, lam, e, t):
    """Reference: exponential and its derivative in direction e."""
    n = V.shape[0]
    x = mchain(env, V, diag(env, [env.exp(t * z) for z in lam]), Vi)
    if not env.symbolic:
        a = mchain(env, V, diag(env, lam), Vi)
        return x, env.frechet(a * t, e * t)
    f = mchain(env, Vi, e, V)
    g = env.mat([[f[i, j] * ddiff(env, t, lam[i], lam[j])
                  for j in range(n)] for i in range(n)])
    return x, mchain(env, V, g, Vi)


def run(env, cfg, A, e, t, x, dx, skew):
    E = op(env, e)
    a = A.data.copy()
    env.check_eq("exp", A.exp(t, method="spectral",
                              is_skew_hermitian=skew).data, x)
    if not skew:
        p = A.prop(t)
        env.check_eq("propagator", p.data, x)
        env.check("kind of the propagator", type(p) is type(A))
    if cfg.get("ce"):
        p, g = A.dexp(E, t, method="spectral", is_skew_hermitian=skew,
                      compute_expm=True)
        env.check_eq("exp from dexp", p.data, x)
    else:
        g = A.dexp(E, t, method="spectral", is_skew_hermitian=skew)
    env.check_eq("dexp", g.data, dx)
    env.check_eq("argument unchanged", A.data, a)
    env.check_eq("direction unchanged", E.data, e)


def skew(env, cfg):
    n = cfg["n"]
    K, lam, V = eig_setup(env, n)
    e = env.carr("e", (n, n))
    t = env.real("tau")
    A = op(env, mscale(env, K, env.I))
    if cfg.get("ce") and n == 2:
        # exactly degenerate spectrum
        pass
    x, dx = dk(env, V, dagger(env, V), [env.I * v for v in lam], e, t)
    run(env, cfg, A, e, t, x, dx, True)


def skew_general_solver(env, cfg):
    """Skew hermitian matrices handed to the general method."""
    K, lam, V = eig_setup(env, 2)
    env.assume(lam[0] > lam[1] + 0.05)
    e = env.carr("e", (2, 2))
    t = env.real("tau")
    A = op(env, mscale(env, K, env.I))
    x, dx = dk(env, V, dagger(env, V), [env.I * v for v in lam], e, t)
    run(env, cfg, A, e, t, x, dx, False)


def general(env, cfg):
    """Diagonalizable, in general not normal."""
    one = env._c(1, 0)
    w = env.cplx("w01"), env.cplx("w10") if cfg["full"] else env._c(0, 0)
    W = env.mat([[one, w[0]], [w[1], one]])
    det = one - w[0] * w[1]
    env.assume(abs2(det) > 0.05)
    Wi = env.mat([[one / det, -w[0] / det], [-w[1] / det, one / det]])
    lam = [env.cplx("l0"), env.cplx("l1")]
    env.assume(abs2(lam[0] - lam[1]) > 0.05)
    a = mchain(env, W, diag(env, lam), Wi)

    def solve(m, *x, **k):
        if env.equal(m, a):
            return env.array(lam), W.copy()
        env.unsupported("eigendecomposition of another matrix")
    env.hook("eig", solve)
    env.hook("sci_eig", solve)
    t = tau_of(env, cfg.get("t", "real"))
    e = env.carr("e", (2, 2))
    A = op(env, a)
    x, dx = dk(env, W, Wi, lam, e, t)
    run(env, cfg, A, e, t, x, dx, False)


def degenerate(env, cfg):
    """Equal eigenvalues of a matrix which is not skew hermitian."""
    n = len(cfg["which"])
    l = [env.cplx("l0"), env.cplx("l1")]
    env.assume(abs2(l[0] - l[1]) > 0.05)
    lam = [l[i] for i in cfg["which"]]
    W = eye(env, n)
    a = diag(env, lam)

    def solve(m, *x, **k):
        if env.equal(m, a):
            return env.array(lam), W.copy()
        env.unsupported("eigendecomposition of another matrix")
    env.hook("eig", solve)
    env.hook("sci_eig", solve)
    t = env.real("tau")
    e = env.carr("e", (n, n))
    x, dx = dk(env, W, W, lam, e, t)
    run(env, cfg, op(env, a), e, t, x, dx, False)


def unitary(env, cfg):
    """exp(-i H t) is unitary; exp(A(s+t)) = exp(As) exp(At)."""
    n = cfg["n"]
    K, lam, V = eig_setup(env, n)
    s, t = env.real("s"), env.real("t")
    A = op(env, mscale(env, K, -env.I))
    kw = dict(method="spectral", is_skew_hermitian=True)
    U, W = A.exp(s, **kw), A.exp(t, **kw)
    env.check_eq("unitary", mm(env, U.data, dagger(env, U.data)),
                 eye(env, n))
    env.check_eq("inverse", mm(env, U.data, A.exp(-s, **kw).data),
                 eye(env, n))
    env.check_eq("composition", mm(env, U.data, W.data),
                 A.exp(s + t, **kw).data)
    env.check_eq("at zero", A.exp(0, **kw).data, eye(env, n))


def decomp(env, cfg):
    K, lam, V = eig_setup(env, 2)
    A = op(env, K)
    vals, vecs = A.spectral_decomposition(hermitian=True)
    env.check_eq("eigenpairs", madd(env, mm(env, K, vecs), mm(
        env, vecs, diag(env, list(vals))), -1), zeros(env, 2, 2))
    env.assume(lam[0] > lam[1] + 0.05)
    vals, vecs = A.spectral_decomposition()
    env.check_eq("eigenpairs", madd(env, mm(env, K, vecs), mm(
        env, vecs, diag(env, list(vals))), -1), zeros(env, 2, 2))


def bad(env, cfg):
    a = op(env, env.carr("a", (2, 2)))
    env.raises("unknown method", ValueError,
               lambda: a.exp(1, method="none"))
    env.raises("unknown method", NotImplementedError,
               lambda: a.dexp(a, 1, method="none"))
