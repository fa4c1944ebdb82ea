"""C23: what an optimization records and returns."""
from .common import *
from .opt import *
from .c22 import make, METHODS

BOUNDS = ("2..3 (4 thorough) evaluations in any order, 1..2 runs, every "
          "optimizer and method branch, 1..2 steps, controls and costs; "
          "every pulse, cost, weight and returned value"
          "; 5 steps with 3 controls and 4 costs; 24 evaluations with rising "
          "or falling costs")
ASSUMPTIONS = ["scipy's algorithms are replaced by an arbitrary sequence of "
               "evaluations that reuses its parameter array"]


def configs(tier):
    big = tier == "thorough"
    for kind in ("ls",) + METHODS:
        for w in (0, 1):
            yield {"h": "book", "T": 2, "C": 2, "F": 2, "kind": kind,
                   "w": w, "n": 4 if big else 3}
        yield {"h": "book", "T": 3, "C": 1, "F": 1, "kind": kind, "w": 1,
               "n": 2}
        yield {"h": "book", "T": 5, "C": 3, "F": 4, "kind": kind, "w": 1,
               "n": 2}
        yield {"h": "again", "T": 2, "C": 1, "F": 2, "kind": kind, "w": 1,
               "n": 2}
        for order in ("up", "down"):
            yield {"h": "book", "T": 2, "C": 1, "F": 1, "kind": kind,
                   "w": 1, "n": 24, "order": order}
        yield {"h": "flags", "T": 1, "C": 2, "F": 1, "kind": kind}


def book_check(env, cfg, sim, log, s, label=""):
    T, C = cfg["T"], cfg["C"]
    nf = [e for e in log if e[0] == "fun"]
    nj = [e for e in log if e[0] == "jac"]
    env.check(label + "counter", int(s.iter_num) == len(nf))
    env.check(label + "labels", list(s.indices) == sim.cost_indices)
    env.check(label + "lengths", len(s.costs) == len(s.parameters)
              == len(nf) and len(s.gradients) == len(nj))
    for i, ((_, x, v), c, p) in enumerate(zip(nf, s.costs, s.parameters)):
        pulse = pulse_of(env, x, T, C)
        env.check_eq(label + "saved costs are the unweighted costs", c,
                     sim.vals[i] if sim.table else
                     env.array(sim.costs(pulse)))
        env.check_eq(label + "saved parameters are the pulse", p, pulse)
    for (_, x, v), g in zip(nj, s.gradients):
        y = sim.flat(pulse_of(env, x, T, C))
        env.check_eq(label + "saved gradient", g, env.array(
            [[[sim.ders[f][t * C + c](*y) for c in range(C)]
              for f in range(cfg["F"])] for t in range(T)]))


def result_check(env, cfg, sim, alg, r, label=""):
    T, C = cfg["T"], cfg["C"]
    a = alg.result
    env.check_eq(label + "final cost", r.final_cost, a.fun)
    env.check_eq(label + "final parameters", r.final_parameters,
                 pulse_of(env, a.x, T, C))
    env.check(label + "state of the algorithm", r.num_iter == a.nfev
              and r.status == a.status and r.termination_reason == a.message
              and list(r.indices) == sim.cost_indices)
    if cfg["kind"] in ("ls", "L-BFGS-B"):
        n = r.final_grad_norm
        env.check_eq(label + "gradient norm", n * n,
                     sum((g * g for g in a.grad), env.num(0)))


def setup(env, cfg, clock=None, table=False, **kw):
    sim = Sim(env, cfg["T"], cfg["C"], cfg["F"], kw.pop("stats", False),
              table)
    alg = Algorithm(env, cfg["T"] * cfg["C"], cfg.get("n", 1), clock=clock,
                    jac="alternate" if cfg.get("order") else "free")
    if cfg.get("w"):
        kw["cost_func_weights"] = [env.real("w%d" % f)
                                   for f in range(cfg["F"])]
    return sim, alg, make(env, cfg, sim, **kw)


def book(env, cfg):
    # many evaluations: the order of their costs is fixed
    d = {"up": 1, "down": -1}.get(cfg.get("order"))
    sim, alg, opt = setup(env, cfg, table=d and (
        lambda k: (40 + d * k - 0.3, 40 + d * k + 0.3)))
    r = opt.run_optimization(env.rarr("p", (cfg["T"], cfg["C"])))
    book_check(env, cfg, sim, alg.log, r.optim_summary)
    result_check(env, cfg, sim, alg, r)


def again(env, cfg):
    """A second run starts afresh and leaves the first result alone."""
    sim, alg, opt = setup(env, cfg, stats=True)
    st0 = sim.stats
    r1 = opt.run_optimization(env.rarr("p", (cfg["T"], cfg["C"])))
    log1, alg.log = alg.log, []
    a1, s1 = alg.result, sim.stats
    r2 = opt.run_optimization(env.rarr("q", (cfg["T"], cfg["C"])))
    a2 = alg.result
    for r, log, a, nm in ((r1, log1, a1, "first: "),
                          (r2, alg.log, a2, "second: ")):
        book_check(env, cfg, sim, log, r.optim_summary, nm)
        alg.result = a
        result_check(env, cfg, sim, alg, r, nm)
    env.check("separate summaries", r1.optim_summary is not r2.optim_summary)
    env.check("separate statistics", s1 is not sim.stats and s1 is not st0
              and r1.optimization_stats is s1
              and r2.optimization_stats is sim.stats)


def flags(env, cfg):
    """Stored optimizer, summary and statistics as requested."""
    save = env.choice("save", 2) == 1
    store = env.choice("store", 2) == 1
    stats = env.choice("stats", 2) == 1
    clock = Clock(env)
    sim, alg, opt = setup(env, cfg, clock, stats=stats, store_optimizer=store,
                          save_intermediary_steps=save,
                          termination_cond={"max_wall_time": 1e9})
    t0 = clock.now
    r = opt.run_optimization(env.rarr("p", (1, 2)))
    result_check(env, cfg, sim, alg, r)
    env.check("optimizer stored on request",
              (r.optimizer is opt) if store else r.optimizer is None)
    env.check("summary on request", (r.optim_summary is not None) == save)
    env.check("statistics on request", (r.optimization_stats is not None)
              == stats and r.optimization_stats is sim.stats)
    if stats:
        env.check_eq("start and end of the optimization", env.array(
            [sim.stats.start_t_opt, sim.stats.end_t_opt]), env.array(
                [t0, clock.now]))
        env.check("labels", list(sim.stats.indices) == sim.cost_indices)
