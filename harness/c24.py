"""C24: the wall time limit and the termination conditions."""
from .common import *
from .opt import *
from .c22 import make, METHODS
from .c23 import setup

BOUNDS = ("up to 3 (4 thorough) evaluations before the limit (6 for one parameter), 1..2 runs, "
          "every optimizer and method branch; every limit, clock, pulse, "
          "cost and weight")
ASSUMPTIONS = ["the clock is monotonic; scipy's algorithms are replaced by "
               "an arbitrary sequence of evaluations"]


def configs(tier):
    big = tier == "thorough"
    for kind in ("ls",) + METHODS:
        yield {"h": "limit", "T": 1, "C": 2, "F": 1, "kind": kind, "w": 0,
               "n": 3, "jac": 1}
        yield {"h": "limit", "T": 1, "C": 1, "F": 1, "kind": kind, "w": 0,
               "n": 6, "jac": 0}
        yield {"h": "limit", "T": 2, "C": 1, "F": 2, "kind": kind, "w": 1,
               "n": 2, "jac": 1}
        yield {"h": "limit", "T": 2, "C": 2, "F": 1, "kind": kind, "w": 1,
               "n": 2, "jac": 0}
        yield {"h": "limit", "T": 2, "C": 2, "F": 1, "kind": kind, "w": 0,
               "n": 2, "jac": 1}
        yield {"h": "twice", "T": 1, "C": 1, "F": 1, "kind": kind, "w": 0,
               "n": 2, "jac": 0}
        yield {"h": "twice", "T": 2, "C": 1, "F": 1, "kind": kind, "w": 0,
               "n": 2, "jac": 0, "swap": 1, "stats": 1}
        if big:
            yield {"h": "limit", "T": 2, "C": 2, "F": 1, "kind": kind,
                   "w": 1, "n": 4, "jac": 1}
            yield {"h": "limit", "T": 2, "C": 2, "F": 2, "kind": kind,
                   "w": 1, "n": 3, "jac": 1}
    for kind in ("ls", "L-BFGS-B", "anneal"):
        yield {"h": "isolated", "kind": kind}


def norm2(v):
    return sum((x * x for x in v), 0)


def run(env, cfg, sim, alg, opt, limit, name, first):
    T, C, F = cfg["T"], cfg["C"], cfg["F"]
    t0 = alg.clock.now
    alg.log, alg.times = [], []
    n0 = len(sim.vals)
    r = opt.run_optimization(env.rarr(name, (T, C)))
    for t in alg.times:
        env.check("no evaluation after the limit", t - t0 <= limit)
    vals, seen = sim.vals[n0:], sim.seen[n0:]
    fun = [e for e in alg.log if e[0] == "fun"]
    env.check("evaluations", len(vals) == len(fun))
    if not alg.log or alg.log[-1][0] != "limit":
        env.check("result of the algorithm", r.status == alg.result.status
                  and r.num_iter == alg.result.nfev)
        env.check_eq("final parameters of the algorithm",
                     r.final_parameters, pulse_of(env, alg.result.x, T, C))
        return r
    env.check("stopped only after the limit", alg.log[-1][2] - t0 > limit)
    env.check("reported as exceeded wall time", r.status == 5
              and "wall time" in r.termination_reason.lower()
              and r.num_iter == len(fun)
              and list(r.indices) == sim.cost_indices)
    if sim.stats is not None:
        env.check_eq("end time", sim.stats.end_t_opt, alg.clock.now)
    s = r.optim_summary
    env.check("summary length", len(s.costs) == len(s.parameters)
              == len(fun) == int(s.iter_num))
    for (_, x, v), p in zip(fun, seen):
        env.check_eq("evaluated pulse", p, pulse_of(env, x, T, C))
    if not fun:
        env.check("no best parameters", r.final_parameters is None)
        return r
    best = r.final_cost
    ok = False
    for v, p in zip(vals, seen):
        e = True
        for a, b in zip(list(v) + sim.flat(p),
                        list(best) + sim.flat(r.final_parameters)):
            e = e & (a == b)
        ok = ok | e
    env.check("best costs and parameters of one evaluation", ok)
    for v in vals:
        env.check("no evaluation was better",
                  norm2(best) <= norm2(v) + (0 if env.symbolic else 1e-12))
    n = r.final_grad_norm
    if opt.use_jacobian_function:
        x = sim.flat(r.final_parameters)
        w = [env.num(1)] * F if not cfg["w"] else [
            env.real("w%d" % f) for f in range(F)]
        g = [[w[f] * sim.ders[f][k](*x) for k in range(T * C)]
             for f in range(F)]
        if cfg["kind"] == "ls":
            ref = norm2([v for r_ in g for v in r_])
        else:
            ref = norm2([sum(c) for c in zip(*g)])
        env.check_eq("gradient norm of the best parameters", n * n, ref)
    else:
        env.check_eq("gradient norm", n, env.num(0))
    return r


def limit(env, cfg):
    clock = Clock(env)
    lim = env.real("limit", 0, 4000)
    sim, alg, opt = setup(
        env, cfg, clock, table=True, stats=bool(env.choice("stats", 2)),
        use_jacobian_function=bool(cfg["jac"]),
        termination_cond={"max_wall_time": lim})
    alg.jacmode = "none"
    alg.limit = env.q("optimize").WallTimeExceeded
    run(env, cfg, sim, alg, opt, lim, "p", True)


def twice(env, cfg):
    """The limit and the best values start afresh with every run."""
    clock = Clock(env)
    lim = env.real("limit", 0, 4000)
    sim, alg, opt = setup(env, cfg, clock, table=True,
                          stats=bool(cfg.get("stats")),
                          use_jacobian_function=False,
                          termination_cond={"max_wall_time": lim})
    alg.jacmode = "none"
    alg.limit = env.q("optimize").WallTimeExceeded
    r1 = run(env, cfg, sim, alg, opt, lim, "p", True)
    keep = (r1.final_cost, r1.final_parameters, r1.num_iter, r1.status)
    st = r1.optimization_stats
    clock.advance()
    if cfg.get("swap"):
        # a pulse of another shape
        cfg = dict(cfg, T=cfg["C"], C=cfg["T"])
        sim.T, sim.C = cfg["T"], cfg["C"]
    t1 = clock.now
    r2 = run(env, cfg, sim, alg, opt, lim, "q", False)
    if cfg.get("stats"):
        env.check("statistics of every run", r2.optimization_stats is not st
                  and r2.optimization_stats is sim.stats)
        env.check_eq("start time", r2.optimization_stats.start_t_opt, t1)
    env.check("first result untouched", all(
        a is b for a, b in zip(keep, (r1.final_cost, r1.final_parameters,
                                      r1.num_iter, r1.status))))


KEYS = ("min_gradient_norm", "min_cost_gain", "max_wall_time",
        "max_cost_func_calls", "max_iterations", "min_amplitude_change")


def isolated(env, cfg):
    """The conditions of an optimizer concern only that optimizer."""
    o = env.q("optimize")
    sim = Sim(env, 1, 1, 1)
    default = dict(o.default_termination_conditions)
    env.check("defaults", sorted(default) == sorted(KEYS))
    before = make(env, {"kind": "L-BFGS-B"}, sim)
    k = KEYS[env.choice("changed", len(KEYS))]
    v = env.real("value", positive=True)
    mine = {k: v}
    if cfg["kind"] == "anneal":
        o.SimulatedAnnealing(sim, bounds=None)
    else:
        a = make(env, cfg, sim, termination_cond=mine)
        env.check("the given condition counts", a.termination_conditions[k]
                  == v)
        env.check("other conditions keep their defaults", all(
            a.termination_conditions[q] == default[q]
            for q in KEYS if q != k))
        env.check("given conditions unchanged", list(mine) == [k]
                  and mine[k] is v)
    after = make(env, {"kind": "ls"}, sim)
    for x, nm in ((before.termination_conditions, "earlier optimizer"),
                  (after.termination_conditions, "later optimizer"),
                  (o.default_termination_conditions, "defaults")):
        for q in KEYS:
            env.check("unchanged conditions: " + nm, x[q] == default[q])
