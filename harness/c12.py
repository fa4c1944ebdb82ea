"""C12: values of the coherent fidelity cost functions."""
from .common import *
from .solv import *
from .cst import *

BOUNDS = ("dimension 2 and 3 (4 with a 2x2 product structure), 1..2 time "
          "steps, computational subspaces of size 1..2, channels of "
          "dimension 2 (3 for subspaces); every operator, amplitude, state "
          "and target"
          "; up to 6 steps in dimension 1; dimension 4 for one step with "
          "1..4 computational states; products 2x2x3 and 3x2")


def configs(tier):
    big = tier == "thorough"
    for T in (1, 2):
        for bra in (0, 1):
            yield {"h": "state", "n": 2, "T": T, "bra": bra}
        yield {"h": "operation", "n": 2, "T": T, "C": 1}
    for idx in ([0, 1], [2, 0], [1]):
        for rescale in (0, 1):
            yield {"h": "state", "n": 3, "T": 1, "bra": 0, "idx": idx,
                   "rescale": rescale}
        yield {"h": "operation", "n": 3, "T": 1, "C": 1, "idx": idx}
    yield {"h": "operation", "n": 2, "T": 1, "C": 1, "idx": [1],
           "closest": 1}
    yield {"h": "operation", "n": 2, "T": 1, "init": "mat"}
    # the whole space in another order
    yield {"h": "operation", "n": 2, "T": 1, "C": 1, "idx": [1, 0]}
    for rescale in (0, 1):
        yield {"h": "state", "n": 2, "T": 1, "bra": 0, "idx": [1, 0],
               "rescale": rescale}
    yield {"h": "channelf", "n": 2, "idx": [1, 0]}
    for rem in ([0], [1]):
        yield {"h": "subspace", "dims": [2, 2], "remove": rem}
        yield {"h": "subspacef", "dims": [2, 3], "remove": rem}
        yield {"h": "subspacef", "dims": [2, 2], "remove": rem, "rho": 1}
    yield {"h": "subspacef", "dims": [2, 2, 2], "remove": [2, 0]}
    yield {"h": "subspacef", "dims": [2, 2], "remove": [0], "rho": 2}
    for how in ("lind", "sup"):
        yield {"h": "channel", "how": how, "T": 2, "C": 1, "L": 1}
    yield {"h": "channelf", "n": 2, "idx": None}
    yield {"h": "channelf", "n": 2, "idx": [1]}
    yield {"h": "channelf", "n": 3, "idx": [0, 2], "w": 3}
    yield {"h": "channelf", "n": 3, "idx": [2, 1], "w": 3}
    yield {"h": "unitary_channel", "n": 2}
    yield {"h": "functions", "n": 2}
    yield {"h": "functions", "n": 3}
    yield {"h": "state", "n": 1, "T": 6, "bra": 0}
    yield {"h": "operation", "n": 1, "T": 5, "C": 4}
    yield {"h": "norm", "n": 1, "mode": "scalar"}
    yield {"h": "norm", "n": 2, "mode": "vector"}
    yield {"h": "axis"}
    for idx in ([3, 0, 1], [2, 0], None):
        yield {"h": "state", "n": 4, "T": 1, "bra": 0, "rescale": 0,
               "idx": idx or [0, 1, 2, 3]}
        yield {"h": "operation", "n": 4, "T": 1, "C": 1,
               "idx": idx or [0, 1, 2, 3]}
        yield {"h": "channelf", "n": 4, "idx": idx, "w": 9}
    yield {"h": "operation", "n": 4, "T": 1, "C": 1}
    yield {"h": "subspacef", "dims": [2, 2, 3], "remove": [1], "w": 9}
    yield {"h": "subspacef", "dims": [3, 2], "remove": [0], "w": 9}
    yield {"h": "functions", "n": 4}
    if big:
        yield {"h": "operation", "n": 3, "T": 2, "C": 2, "idx": [0, 2]}
        yield {"h": "state", "n": 4, "T": 1, "bra": 0, "idx": [3, 0, 1],
               "rescale": 0}
        yield {"h": "subspacef", "dims": [2, 3, 2], "remove": [1, 2]}
        yield {"h": "functions", "n": 4}


def state(env, cfg):
    n, idx = cfg["n"], cfg.get("idx")
    b = schroed(env, dict(cfg, init="ket", C=1))
    s = b["s"]
    m = len(idx) if idx else n
    t = env.carr("t", (m, 1))
    T = op(env, dagger(env, t) if cfg["bra"] or m == 1 else t)
    if m == 1:
        T = op(env, dagger(env, t))
    tdata = T.data.copy()
    kw = {}
    if idx:
        kw = {"computational_states": list(idx),
              "rescale_propagated_state": bool(cfg["rescale"])}
    cf = env.q("cost_functions").StateInfidelity(solver=s, target=T, **kw)
    old = snapshot(s)
    psi = trunc(env, final(env, b), idx, False)
    f = overlap2(env, t, psi)
    if cfg.get("rescale"):
        n2 = norm2(env, psi)
        env.assume(n2 > 0)
        f = f / n2
    env.check_eq("infidelity", cf.costs(), 1 - f)
    env.check_eq("infidelity again", cf.costs(), 1 - f)
    same_snapshot(env, s, old)
    env.check_eq("target unchanged", T.data, tdata)
    inputs_unchanged(env, b)


def operation(env, cfg):
    n, idx = cfg["n"], cfg.get("idx")
    b = schroed(env, dict(cfg, C=1) if "C" not in cfg else cfg)
    s = b["s"]
    m = len(idx) if idx else n
    t = env.carr("t", (m, m))
    T = op(env, t)
    kw = {"computational_states": list(idx)} if idx else {}
    u = trunc(env, final(env, b), idx)
    if cfg.get("closest"):
        kw["map_to_closest_unitary"] = True
        u0 = u
        r = env.sqrt(abs2(u0[0, 0]))
        env.assume(abs2(u0[0, 0]) > 0)
        u = env.mat([[u0[0, 0] / r]])

        def svd(a, **k):
            if env.equal(a, u0):
                return u.copy(), env.array([r]), eye(env, 1)
            env.unsupported("svd")
        env.hook("svd", svd)
        env.hook("sci_svd", svd)
    cf = env.q("cost_functions").OperationInfidelity(solver=s, target=T, **kw)
    old = snapshot(s)
    env.check_eq("infidelity", cf.costs(), 1 - ent(env, t, u))
    env.check_eq("infidelity again", cf.costs(), 1 - ent(env, t, u))
    same_snapshot(env, s, old)
    env.check_eq("target unchanged", T.data, t)
    inputs_unchanged(env, b)


def reduced(env, psi, dims, remove, rho=False):
    """Partial trace by index sums; psi a ket or a matrix."""
    import itertools
    keep = [i for i in range(len(dims)) if i not in remove]

    def flat(ix):
        r = 0
        for d, i in zip(dims, ix):
            r = r * d + i
        return r
    kr = list(itertools.product(*[range(dims[i]) for i in keep]))
    rr = list(itertools.product(*[range(dims[i]) for i in remove]))
    out = []
    for a in kr:
        row = []
        for c in kr:
            tot = env._c(0, 0)
            for r in rr:
                x, y = [0] * len(dims), [0] * len(dims)
                for i, k in enumerate(keep):
                    x[k], y[k] = a[i], c[i]
                for i, k in enumerate(remove):
                    x[k] = y[k] = r[i]
                if rho:
                    tot = tot + psi[flat(x), flat(y)]
                else:
                    tot = tot + psi[flat(x), 0] * psi[flat(y), 0].conjugate()
            row.append(tot)
        out.append(row)
    return env.mat(out)


def sub_ref(env, t, red):
    n = t.shape[0]
    return sum((t[i, 0].conjugate() * red[i, j] * t[j, 0]
                for i in range(n) for j in range(n)), env.num(0)).real


def subspace(env, cfg):
    dims, rem = cfg["dims"], cfg["remove"]
    n = 1
    for d in dims:
        n *= d
    m = n
    for r in rem:
        m //= dims[r]
    b = schroed(env, {"n": n, "T": 1, "C": 1, "init": "ket"})
    s = b["s"]
    t = env.carr("t", (m, 1))
    T = op(env, t)
    cf = env.q("cost_functions").StateInfidelitySubspace(
        solver=s, target=T, dims=list(dims), remove=list(rem))
    old = snapshot(s)
    red = reduced(env, final(env, b), dims, rem)
    env.check_eq("infidelity", cf.costs(), 1 - sub_ref(env, t, red))
    same_snapshot(env, s, old)
    env.check_eq("target unchanged", T.data, t)


def subspacef(env, cfg):
    dims, rem = cfg["dims"], cfg["remove"]
    n = 1
    for d in dims:
        n *= d
    m = n
    for r in rem:
        m //= dims[r]
    t = env.carr("t", (m, 1))
    cfn = env.q("cost_functions")
    if cfg.get("rho"):
        x = env.herm("rho", n)
        red = reduced(env, x, dims, rem, True)
        st = op(env, x) if cfg["rho"] == 1 else op(env, vec(env, x))
    else:
        x = env.carr("psi", (n, 1))
        red = reduced(env, x, dims, rem)
        st = op(env, x)
    st0 = st.data.copy()
    bra = op(env, dagger(env, t))
    f = cfn.state_fidelity_subspace(bra, st, list(dims), list(rem))
    env.check_eq("fidelity", f, sub_ref(env, t, red))
    env.check_eq("arguments unchanged", st.data, st0)
    env.check_eq("arguments unchanged", bra.data, dagger(env, t))
    f = cfn.state_fidelity_subspace(dagger(env, t), st.data.copy(),
                                    list(dims), list(rem))
    env.check_eq("fidelity of arrays", f, sub_ref(env, t, red))


def channel(env, cfg):
    b = lind_setup(env, cfg)
    s = b["s"]
    y = pars(env, b)
    s.set_optimization_parameters(y)
    t = env.carr("t", (2, 2))
    T = op(env, t)
    cf = env.q("cost_functions").OperationInfidelity(
        solver=s, target=T, super_operator_formalism=True)
    old = snapshot(s)
    E = fwd(env, lprops(env, b, y), eye(env, 4))[-1]
    ref = 1 - ent_channel(env, t, E)
    env.check_eq("infidelity", cf.costs(), ref)
    same_snapshot(env, s, old)
    env.check_eq("target unchanged", T.data, t)


def channelf(env, cfg):
    n, idx = cfg["n"], cfg["idx"]
    m = len(idx) if idx else n
    t = env.carr("t", (m, m))
    E = env.carr("E", (n * n, n * n))
    T, P = op(env, t), op(env, E)
    f = env.q("cost_functions").entanglement_fidelity_super_operator(
        T, P, computational_states=idx)
    env.check_eq("fidelity", f, ent_channel(env, t, E, idx))
    env.check_eq("arguments unchanged", T.data, t)
    env.check_eq("arguments unchanged", P.data, E)
    f = env.q("cost_functions").entanglement_fidelity_super_operator(
        t.copy(), E.copy(), computational_states=idx)
    env.check_eq("fidelity of arrays", f, ent_channel(env, t, E, idx))


def unitary_channel(env, cfg):
    """Both formalisms agree on unitary propagators."""
    c = env.q("cost_functions")
    n = cfg["n"]
    u, t = env.carr("u", (n, n)), env.carr("t", (n, n))
    S = env.q("matrix").convert_unitary_to_super_operator(op(env, u))
    a = c.entanglement_fidelity(op(env, t), op(env, u))
    b = c.entanglement_fidelity_super_operator(op(env, t), S)
    env.check_eq("formalisms agree", a, b)
    v = env.unitary2("v", phase=True)
    env.check_eq("perfect gate", c.entanglement_fidelity(
        op(env, v), op(env, v)), env.num(1))
    ph = env.unit_vector("ph", 2)
    z = ph[0] + ph[1] * env.I
    env.check_eq("global phase", c.entanglement_fidelity(
        op(env, t), op(env, mscale(env, u, z))), a)


def functions(env, cfg):
    """Function forms with operators and arrays."""
    n = cfg["n"]
    c = env.q("cost_functions")
    t, p = env.carr("t", (n, 1)), env.carr("p", (n, 1))
    bra = dagger(env, t)
    ref = overlap2(env, t, p)
    env.check_eq("state fidelity", c.state_fidelity(
        op(env, bra), op(env, p)), ref)
    env.check_eq("state fidelity of arrays", c.state_fidelity(
        bra.copy(), p.copy()), ref)
    env.raises("two kets", Exception,
               lambda: c.state_fidelity(op(env, t), op(env, p)))
    u, v = env.carr("u", (n, n)), env.carr("v", (n, n))
    U, V = op(env, u), op(env, v)
    env.check_eq("entanglement fidelity", c.entanglement_fidelity(U, V),
                 ent(env, u, v))
    env.check_eq("arguments unchanged", U.data, u)
    env.check_eq("arguments unchanged", V.data, v)
    env.check_eq("entanglement fidelity of arrays",
                 c.entanglement_fidelity(u.copy(), v.copy()), ent(env, u, v))
    if n == 3:
        sub = [2, 0]
        t2 = env.carr("s", (2, 2))
        env.check_eq("subspace", c.entanglement_fidelity(
            op(env, t2), V, computational_states=sub),
            ent(env, t2, trunc(env, v, sub)))


def norm(env, cfg):
    b = schroed(env, {"n": cfg["n"], "T": 1, "C": 1})
    s = b["s"]
    n = cfg["n"]
    t = env.carr("t", (n, n))
    T = op(env, t)
    u = final(env, b)
    a2 = abs2(u[0, 0])
    env.assume(a2 > 0.01)
    cf = env.q("cost_functions").OperatorMatrixNorm(
        solver=s, target=T, mode=cfg["mode"])
    a = env.sqrt(a2)
    ph = u[0, 0].conjugate() / a
    d = [u[i, j] * ph - t[i, j] for i in range(n) for j in range(n)]
    if cfg["mode"] == "scalar":
        ref = sum((env.sqrt(abs2(x)) for x in d), env.num(0))
    else:
        ref = env.array([x.real for x in d] + [x.imag for x in d])
    old = snapshot(s)
    env.check_eq("distance", cf.costs(), ref)
    same_snapshot(env, s, old)
    env.check_eq("target unchanged", T.data, t)


def axis(env, cfg):
    """Difference of the rotation axes scaled by the angles (the axis and
    angle of one unitary are decided by C31)."""
    c = env.q("cost_functions")
    s, _ = fixed(env, 2, [env.carr("u%d" % i, (2, 2)) for i in range(3)],
                 T=2)
    t, u = env.carr("t", (2, 2)), s.forward_propagators[2].data.copy()
    rot = [(env.real("a%d" % i), env.rarr("n%d" % i, (3,)))
           for i in range(2)]
    which = []

    def angle_axis(m):
        same = env.equal(m, t) if env.symbolic else bool(
            abs(m - t).max() < 1e-9)
        i = 1 - int(same)
        if i:
            env.check_eq("final propagator", m, u)
        which.append(i)
        return rot[i][0], rot[i][1].copy()
    env.patch(c, "angle_axis_representation", angle_axis)
    T = op(env, t)
    cf = c.OperatorMatrixNorm(solver=s, target=T, mode="rotation_axis")
    d = cf.costs()
    env.check("target and propagator", sorted(which) == [0, 1])
    env.check("one value per label", d.shape == (3,) == (len(cf.label),))
    for i in range(3):
        env.check_eq("difference", d[i], rot[0][0] * rot[0][1][i]
                     - rot[1][0] * rot[1][1][i])
    env.check_eq("target unchanged", T.data, t)
    env.raises("unknown mode", ValueError, lambda: c.OperatorMatrixNorm(
        solver=s, target=T, mode="other"))
