"""Construction of solvers with symbolic Hamiltonians and controls."""
from .common import *


def amp_fn(env, kind, C, name="amp", k=1.):
    """Amplitude functions; returns (object, reference function row->row)."""
    af = env.q("amplitude_functions")
    if kind is None:
        return None, lambda xs: list(xs)
    if kind in ("lin", "clin"):
        # "clin": complex amplitudes
        z = kind == "clin"
        k = (env.carr if z else env.rarr)("lin", (2, C))

        def ref(xs):
            return [sum(xs[j] * k[j, c] for j in range(2)) for c in range(C)]

        def f(x):
            return env.mat([ref(r) for r in x], "c" if z else "f")

        def df(x):
            return env.array([[[k[j, c] for c in range(C)]
                               for j in range(2)] for _ in x])
        return af.CustomAmpFunc(f, df), ref
    if kind == "uf":
        import math
        f1 = env.uf(name, lambda x: math.sin(k * x) + 0.3 * x * x,
                    lambda x: k * math.cos(k * x) + 0.6 * x)
        d1 = env.uf(name + "'0", lambda x: k * math.cos(k * x) + 0.6 * x)

        def df(x):
            out = []
            for r in x:
                m = [[env.num(0) for _ in range(C)] for _ in range(C)]
                for c in range(C):
                    m[c][c] = d1(r[c])
                out.append(m)
            return env.array(out)
        return af.CustomAmpFunc(f1, df), lambda xs: [f1(x) for x in xs]
    raise ValueError(kind)


def build(env, cfg, cls="SchroedingerSolver", **kw):
    """-> dict with the solver and the plain data it was built from."""
    n, T, C = cfg.get("n", 2), cfg.get("T", 2), cfg.get("C", 1)
    s = env.q("solver_algorithms")
    tau0 = tau = env.rarr("tau", (T,), positive=True)
    ny = 2 if cfg.get("amp") in ("lin", "clin") else C
    TT = None
    if cfg.get("tf"):
        # finer time grid, shifted values
        from . import tfs
        TT = tfs.make(env, {"k": "ovm", "os": cfg["tf"], "off": 1}, T, ny)
        T, tau = TT.X, env.array(TT.times(list(tau0)))
    hc = [env.herm("hc%d" % c, n) for c in range(C)]
    if cfg.get("nonherm"):
        hc = [env.carr("hc%d" % c, (n, n)) for c in range(C)]
    drift = cfg.get("drift", "list")
    if drift == "list":
        hd = [env.herm("hd%d" % t, n) for t in range(T)]
        arg = [op(env, h) for h in hd]
    else:
        h = env.herm("hd", n)
        hd = [h] * T
        arg = op(env, h) if drift == "op" else [op(env, h)]
    init = cfg.get("init")
    extra = dict(kw)
    if init == "ket":
        psi = env.carr("psi", (n, 1))
        extra["initial_state"] = op(env, psi)
    elif init == "mat":
        psi = env.carr("psi", (n, n))
        extra["initial_state"] = op(env, psi)
    else:
        psi = eye(env, n)
    if cfg.get("method"):
        extra["exponential_method"] = cfg["method"]
    amp, ref = amp_fn(env, cfg.get("amp"), C)
    if amp is not None:
        extra["amplitude_function"] = amp
    if TT is not None:
        extra["transfer_function"] = TT.tf
    elif cfg.get("amp") in ("lin", "clin"):
        tf = env.q("transfer_function")
        extra.setdefault("transfer_function", tf.IdentityTF(num_ctrls=2))
    ops = [op(env, h) for h in hc]
    sol = getattr(s, cls)(h_drift=arg, h_ctrl=ops, tau=tau0.copy(), **extra)
    return {"s": sol, "n": n, "T": T, "T0": tau0.shape[0],
            "x": (lambda y: y) if TT is None else lambda y: env.mat(
                TT.x([list(r) for r in y]), "f"), "C": C, "tau": tau, "hc": hc,
            "hd": hd, "psi": psi, "amp": ref, "kind": cfg.get("amp"), "ny": ny, "ops": ops,
            "drift": arg, "amp_obj": amp}


def pars(env, b, name="y"):
    return env.rarr(name, (b["T0"], b["ny"]))


def amps(env, b, x):
    """Control amplitudes of the transferred parameters x."""
    return env.mat([b["amp"]([x[t, j] for j in range(b["ny"])])
                    for t in range(b["T"])],
                   "c" if b["kind"] == "clin" else "f")


def gens(env, b, y):
    """Reference dynamical generators -i H(t) of transferred parameters."""
    out = []
    for t in range(b["T"]):
        h = b["hd"][t]
        u = b["amp"]([y[t, j] for j in range(b["ny"])])
        for c in range(b["C"]):
            h = madd(env, h, b["hc"][c], u[c])
        out.append(mscale(env, h, -env.I))
    return out


def props(env, b, y, method=None):
    g = gens(env, b, y)
    return [texp(env, g[t], b["tau"][t], method) for t in range(b["T"])]


def texp(env, g, t, method=None):
    gt = mscale(env, g, t)
    if method in (None, "Frechet", "approx"):
        return env.expm(gt)
    n = {"first_order": 1, "second_order": 2, "third_order": 3}[method]
    out = eye(env, g.shape[0])
    p, f = out, 1
    for k in range(1, n + 1):
        p = mm(env, p, gt)
        f *= k
        out = madd(env, out, p, env._c(1, 0) / f)
    return out


def tdexp(env, g, e, t, method=None):
    gt, et = mscale(env, g, t), mscale(env, e, t)
    if method in (None, "Frechet"):
        return env.frechet(gt, et)
    n = {"first_order": 1, "second_order": 2, "third_order": 3}[method]
    out = zeros(env, *g.shape)
    f = 1
    pw = [eye(env, g.shape[0])]
    for k in range(1, n + 1):
        pw.append(mm(env, pw[-1], gt))
    for k in range(1, n + 1):
        f *= k
        for j in range(k):
            out = madd(env, out, mchain(env, pw[j], et, pw[k - 1 - j]),
                       env._c(1, 0) / f)
    return out


def fwd(env, ps, psi):
    out = [psi]
    for p in ps:
        out.append(mm(env, p, out[-1]))
    return out


def rev(env, ps):
    out = [eye(env, ps[0].shape[0])]
    for p in reversed(ps):
        out.append(mm(env, out[-1], p))
    return out


def check_list(env, label, got, ref):
    env.check(label + " length", len(got) == len(ref))
    for t, r in enumerate(ref):
        env.check_eq("%s" % label, got[t].data, r)


def inputs_unchanged(env, b, label="inputs unchanged"):
    for o, h in zip(b["ops"], b["hc"]):
        env.check_eq(label + " (controls)", o.data, h)
    dr = b["drift"] if isinstance(b["drift"], list) else [b["drift"]]
    for o, h in zip(dr, b["hd"]):
        env.check_eq(label + " (drift)", o.data, h)
