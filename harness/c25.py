"""C25: simulated annealing of pulses."""
from .common import *
from .opt import *

BOUNDS = ("pulses of up to 3 entries, step sizes 1..2 (3 "
          "thorough), up to 2 (3 thorough) moves; every pulse, limit, step "
          "ratio, random draw and cost")
ASSUMPTIONS = ["simanneal's loop is replaced by an arbitrary sequence of "
               "moves; the initial pulse lies within its bounds"]


def configs(tier):
    big = tier == "thorough"
    for T, C in ((1, 1), (2, 1), (1, 2)) + (((3, 1), (1, 3)) if big else
                                            ((3, 1),)):
        for s in (1, 2) if T * C < 3 else (1,):
            yield {"h": "move", "T": T, "C": C, "s": s}
    if big:
        yield {"h": "move", "T": 2, "C": 1, "s": 3}
    yield {"h": "reach", "T": 2, "C": 2, "s": 1}
    yield {"h": "reach", "T": 1, "C": 3, "s": 2}
    yield {"h": "energy", "T": 2, "C": 3, "F": 1}
    yield {"h": "energy", "T": 3, "C": 2, "F": 2}
    yield {"h": "energy", "T": 5, "C": 4, "F": 4}
    yield {"h": "reject"}
    yield {"h": "given"}
    yield {"h": "anneal", "T": 2, "C": 2, "F": 2, "n": 1, "fix": 1}
    yield {"h": "anneal", "T": 1, "C": 1, "F": 1, "n": 3 if big else 2}
    yield {"h": "anneal", "T": 1, "C": 2, "F": 1, "n": 2, "fix": 1}


def box(env, T, C, room=0):
    p = env.rarr("p", (T, C))
    a, b = [env.array([[env.real("%s%d.%d" % (nm, t, c), room, room + 4)
                        for c in range(C)] for t in range(T)])
            for nm in ("below", "above")]
    return p, p - a, p + b


def annealer(env, T, C, s, fn=None, r=None, room=0):
    o = env.q("optimize")
    p, lo, hi = box(env, T, C, room)
    r = env.real("ratio", 0, 1) if r is None else r
    b = env.array([[[x[t, c] for c in range(C)] for t in range(T)]
                   for x in (lo, hi)])
    a = o.PulseAnnealer(initial_state=p, bounds=b, energy_function=fn,
                        step_size=s, step_ratio=r, Tmax=1., Tmin=.1,
                        steps=10, updates=1)
    return a, p, lo, hi, r


def moved(env, x, d, lo, hi):
    y = x + d
    if y < lo:
        return lo
    if y > hi:
        return hi
    return y


def move(env, cfg):
    """Within the limits, at most step_size, by integers, where masked."""
    T, C, s = cfg["T"], cfg["C"], cfg["s"]
    a, p, lo, hi, r = annealer(env, T, C, s)
    keep = p.copy()
    ints, us = [], []
    d0, i0 = env._draw, env._drawint

    def draw(kind):
        us.append(d0(kind))
        return us[-1]

    def drawint(l, h):
        ints.append(i0(l, h))
        return ints[-1]
    install(env, draw, drawint)
    a.move()
    env.check_eq("the old pulse is unchanged", p, keep)
    new = a.state
    env.check("shape", tuple(new.shape) == (T, C))
    env.check("draws", len(ints) == len(us) == T * C)
    for k, (t, c) in enumerate((t, c) for t in range(T) for c in range(C)):
        v, x = new[t, c], keep[t, c]
        env.check("within the limits", (lo[t, c] <= v) & (v <= hi[t, c]))
        env.check("at most one step", (v - x <= s) & (x - v <= s))
        ref = x if us[k] > r else moved(env, x, ints[k], lo[t, c], hi[t, c])
        env.check_eq("value after the move", v, ref)


def install(env, draw, drawint):
    if env.symbolic:
        env.hook("draw", draw)
        env.hook("drawint", drawint)
    else:
        env._draw, env._drawint = draw, drawint


def reach(env, cfg):
    """Every integer step up to step_size can happen in every entry."""
    T, C, s = cfg["T"], cfg["C"], cfg["s"]
    a, p, lo, hi, r = annealer(env, T, C, s, r=env.num(1), room=s)
    want = env.choice("step", 2 * s + 1) - s
    where = env.choice("entry", T * C)
    n = [0]

    def drawint(l, h):
        n[0] += 1
        w = want if n[0] == where + 1 else 0
        env.check("every step up to step_size is possible", l <= w < h)
        env.check("no larger step is possible", l >= -s and h <= s + 1)
        return w
    install(env, env._draw, drawint)
    a.move()
    for k, (t, c) in enumerate((t, c) for t in range(T) for c in range(C)):
        env.check_eq("step", a.state[t, c],
                     p[t, c] + (want if k == where else 0))


def energy(env, cfg):
    """The energy is the norm of the costs of the current pulse."""
    T, C, F = cfg["T"], cfg["C"], cfg["F"]
    sim = Sim(env, T, C, F, stats=False)
    Clock(env)
    opt = env.q("optimize").SimulatedAnnealing(
        sim, bounds=env.array([[[-9] * C] * T, [[9] * C] * T]))
    p = env.rarr("p", (T, C))
    opt.prepare_optimization(p)
    e = opt.annealer.energy()
    env.check_eq("pulse of the evaluation", sim.seen[0], p)
    env.check_eq("norm of the costs", e * e, sum(
        (v * v for v in sim.costs(p)), env.num(0)))
    env.check("energy is not negative", e >= 0)


def reject(env, cfg):
    a, p, *_ = annealer(env, 1, 2, 1)
    bad = [1.0, 0, 0.5, "1", None, 2.0][env.choice("bad", 6)]
    a.step_size = bad
    env.raises("step size has to be a nonzero integer", ValueError, a.move)
    env.check_eq("pulse kept", a.state, p)


def given(env, cfg):
    """The annealer works with the parameters which were given."""
    sim = Sim(env, 2, 2, 1, stats=False)
    Clock(env)
    v = {k: env.real(k, positive=True) for k in (
        "initial_temperature", "final_temperature", "step_ratio")}
    n = {"step_size": 3, "steps": 77, "updates": 5}
    lim = env.array([[[-9, -8], [-7, -6]], [[9, 8], [7, 6]]])
    o = env.q("optimize")
    kw = dict(v, **n) if env.choice("given", 2) else {}
    opt = o.SimulatedAnnealing(sim, bounds=lim.copy(), **kw)
    a = opt.annealer
    if not kw:
        v = {"initial_temperature": 1, "final_temperature": 1e-6,
             "step_ratio": 1}
        n = {"step_size": 1, "steps": 1000, "updates": 100}
    env.check_eq("temperatures and ratio", env.array(
        [a.Tmax, a.Tmin, a.step_ratio]), env.array(
            [v["initial_temperature"], v["final_temperature"],
             v["step_ratio"]]))
    env.check("steps", (a.step_size, a.steps, a.updates) == (
        n["step_size"], n["steps"], n["updates"]))
    env.check_eq("limits", env.array(a.bounds), lim)
    p = env.rarr("p", (2, 2))
    opt.prepare_optimization(p)
    env.check_eq("initial pulse", a.state, p)


def anneal(env, cfg):
    """The result holds what the annealer returned."""
    T, C, F = cfg["T"], cfg["C"], cfg["F"]
    sim = Sim(env, T, C, F, stats=env.choice("stats", 2) == 1, table=True)
    clock = Clock(env)
    store = env.choice("store", 2) == 1
    p, lo, hi = box(env, T, C)
    opt = env.q("optimize").SimulatedAnnealing(
        sim, bounds=env.array([[[x[t, c] for c in range(C)]
                                for t in range(T)] for x in (lo, hi)]),
        store_optimizer=store, step_size=1)
    a = opt.annealer
    if cfg.get("fix"):
        install(env, env._draw, lambda l, h: 1)
    states = []

    def run():
        es = []
        for k in range(cfg["n"]):
            clock.advance()
            a.move()
            es.append(a.energy())
            states.append(a.state.copy())
            env.check_eq("pulse of the evaluation", sim.seen[-1],
                         states[-1])
        b = env.choice("best", cfg["n"])
        return states[b], es[b]
    env.patch(a, "anneal", run)
    keep = p.copy()
    r = opt.run_optimization(p)
    env.check_eq("initial pulse unchanged", p, keep)
    b = env.choice("best", cfg["n"])
    env.check_eq("final pulse", r.final_parameters, states[b])
    f = r.final_cost
    env.check_eq("final cost", f * f, sum((v * v for v in sim.vals[b]),
                                          env.num(0)))
    fp = r.final_parameters
    for t in range(T):
        for c in range(C):
            env.check("result within the limits", (lo[t, c] <= fp[t, c])
                      & (fp[t, c] <= hi[t, c]))
    env.check("labels", list(r.indices) == sim.cost_indices)
    env.check("optimizer stored on request",
              (r.optimizer is opt) if store else r.optimizer is None)
    env.check("statistics", r.optimization_stats is sim.stats)
    if sim.stats is not None:
        env.check_eq("end time", sim.stats.end_t_opt, clock.now)
