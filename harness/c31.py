"""C31: rotation axis and angle, average gate fidelity, closest unitary."""
import numpy as np

from .common import *

BOUNDS = ("all 2x2 unitaries with any global phase and no or at least a "
          "0.02 rad rotation, every 2x2 matrix with "
          "one row scaled")
ASSUMPTIONS = ["arccos is an uninterpreted function with its symmetry and "
               "its range"]


def configs(tier):
    for ph in (0, 1):
        for kind in ("array", "operator"):
            yield {"h": "axis", "phase": ph, "arg": kind}
    yield {"h": "identity"}
    for row in (0, 1):
        yield {"h": "reject", "row": row}
    yield {"h": "fidelity"}
    yield {"h": "orthogonal"}
    for T, C in ((1, 1), (1, 2), (2, 1)) + (
            ((2, 2),) if tier == "thorough" else ()):
        yield {"h": "fid_gradient", "T": T, "C": C}


def axis(env, cfg):
    cf = env.q("cost_functions")
    U = env.unitary2("U", phase=bool(cfg["phase"]))
    a, d3, d2, d1 = env.unit_vector("U", 4)
    v = [d1, d2, d3]
    # the angle of smaller rotations is lost in floating point numbers
    env.assume(d1 * d1 + d2 * d2 + d3 * d3 >= env.num(1) / 10 ** 4)
    arg = op(env, U) if cfg["arg"] == "operator" else U.copy()
    beta, n = cf.angle_axis_representation(arg)
    env.check_eq("argument unchanged", arg.data if cfg["arg"] == "operator"
                 else arg, U)
    s2 = d1 * d1 + d2 * d2 + d3 * d3
    z = env.num(0)
    env.check_eq("unit axis", sum((n[k] * n[k] for k in range(3)), z),
                 env.num(1))
    s = env.sqrt(s2)
    m = abs(a)
    np = env.lib("numpy")
    env.check_eq("angle", env.num(np.cos(env.num(beta) / 2)), m)
    env.check("smallest angle", beta >= 0)
    env.check("smallest angle", beta <= env.num(np.pi) + 1e-12)
    for k in range(3):
        env.check_eq("direction", n[k] * m * s, a * v[k])
        for j in range(k + 1):
            env.check_eq("axis", n[k] * n[j] * s2, v[k] * v[j])


def identity(env, cfg):
    cf = env.q("cost_functions")
    p, q = env.unit_vector("ph", 2)
    U = eye(env, 2) * (p + env.I * q)
    beta, n = cf.angle_axis_representation(U)
    env.check_eq("no rotation", env.num(beta), env.num(0))
    env.check_eq("unit axis", sum((n[k] * n[k] for k in range(3)),
                                  env.num(0)), env.num(1))


def reject(env, cfg):
    cf = env.q("cost_functions")
    U = env.unitary2("U")
    r = env.real("r", 1.1, 3)
    if env.choice("shrink", 2):
        r = env.real("r2", 0.1, 0.9)
    M = U.copy()
    for j in range(2):
        M[cfg["row"], j] = M[cfg["row"], j] * r
    env.raises("not unitary", ValueError,
               lambda: cf.angle_axis_representation(M))


def fidelity(env, cfg):
    """(|tr U^dagger V|^2 + d) / (d (d + 1)) for unitaries."""
    cf = env.q("cost_functions")
    U, V = env.unitary2("U"), env.unitary2("V")
    f = cf.averge_gate_fidelity(op(env, U), op(env, V))
    t = sum((U[i, j].conjugate() * V[i, j] for i in range(2)
             for j in range(2)), env.num(0))
    env.check_eq("average gate fidelity", f, (abs2(t) + 2) / 6 + env.I * 0)


def fid_gradient(env, cfg):
    """Derivative of the average gate fidelity by arbitrary parameters.

    The derivatives of the propagators are -i G P with any Hermitian G.
    """
    cf, T, C = env.q("cost_functions"), cfg["T"], cfg["C"]
    V = env.unitary2("V")
    P = [env.unitary2("P%d" % t) for t in range(T)]
    dP = {}
    du = np.empty((T, C), dtype=object)
    for t in range(T):
        for c in range(C):
            G = env.herm("G%d%d" % (t, c), 2)
            dP[t, c] = mscale(env, mm(env, G, P[t]), -env.I)
            du[t, c] = op(env, dP[t, c])
    past = [eye(env, 2)]
    for p in P:
        past.append(mm(env, p, past[-1]))
    got = cf.derivative_average_gate_fid_with_du(
        [op(env, p) for p in P], [op(env, p) for p in past], du,
        op(env, V))
    env.check("shape", tuple(got.shape) == (T, C))
    t0 = trace(env, mm(env, dagger(env, past[-1]), V))
    for t in range(T):
        for c in range(C):
            dU = mm(env, dP[t, c], past[t])
            for p in P[t + 1:]:
                dU = mm(env, p, dU)
            dt = trace(env, mm(env, dagger(env, dU), V))
            ref = (t0.conjugate() * dt).real / 3
            env.check_eq("gradient of the average gate fidelity",
                         got[t, c], ref + env.I * 0)
    for t in range(T):
        env.check_eq("derivatives unchanged", du[t, 0].data, dP[t, 0])


def abs2(z):
    return z.real * z.real + z.imag * z.imag


def orthogonal(env, cfg):
    cf = env.q("cost_functions")
    ops = cf.default_set_orthorgonal(2)
    A = env.carr("A", (2, 2))
    env.check("number of operators", len(ops) == 4)
    # the operators are a basis: twirling any matrix gives its trace
    tot = zeros(env, 2, 2)
    for o in ops:
        tot = madd(env, tot, mchain(env, o.data, A, dagger(env, o.data)))
    tr = A[0, 0] + A[1, 1]
    env.check_eq("twirl", tot, mscale(env, eye(env, 2), 2 * tr))
    env.raises("other dimensions", NotImplementedError,
               lambda: cf.default_set_orthorgonal(3))
