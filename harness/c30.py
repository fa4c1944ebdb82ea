"""C30: parallel optimization."""
import copy

from .common import *
from .opt import *
from .c22 import make
from .c23 import book_check
from . import pool

BOUNDS = ("1..3 and 6 initial pulses, every schedule of the worker "
          "processes, tasks pickled one by one or together, 2 evaluations "
          "each; every pulse, cost and weight")
ASSUMPTIONS = ["multiprocessing.Pool runs every task once, on a copy of its "
               "arguments, in any order",
               "scipy's algorithms are replaced by an arbitrary sequence of "
               "evaluations"]


def configs(tier):
    big = tier == "thorough"
    for n in (1, 2, 3) + ((4,) if big else ()):
        for kind in ("ls", "L-BFGS-B"):
            yield {"h": "par", "T": 2, "C": 2, "F": 2, "kind": kind,
                   "runs": n, "w": n % 2, "n": 2 if n < 3 else 1,
                   "arr": n == 2}
    yield {"h": "par", "T": 2, "C": 1, "F": 1, "kind": "Nelder-Mead",
           "runs": 2, "w": 1, "n": 2, "arr": 0}
    yield {"h": "par", "T": 1, "C": 1, "F": 1, "kind": "ls", "runs": 6,
           "w": 0, "n": 1, "arr": 1}
    for n in (2, 3):
        yield {"h": "own", "T": 1, "C": 2, "runs": n}
    yield {"h": "single", "T": 2, "C": 2, "F": 1, "kind": "ls"}


class Source(Sim):
    def __deepcopy__(self, memo):
        new = copy.copy(self)
        memo[id(self)] = new
        for k in ("seen", "vals", "jseen", "jvals"):
            setattr(new, k, list(getattr(self, k)))
        new.stats = copy.deepcopy(self.stats, memo)
        return new


class Many(Algorithm):
    """Algorithm that remembers which of its runs belongs to which pulse."""

    def __init__(self, env, N, steps):
        super().__init__(env, N, steps)
        self.done = []

    def run(self, kind, fun, x0, jac, **kw):
        self.log = []
        r = super().run(kind, fun, x0, jac, **kw)
        self.done.append((self.calls[-1]["x0"], self.log, r))
        return r


def setup(env, cfg):
    sim = Source(env, cfg["T"], cfg["C"], cfg["F"], True)
    alg = Many(env, cfg["T"] * cfg["C"], cfg.get("n", 1))
    kw = {}
    if cfg.get("w"):
        kw["cost_func_weights"] = [env.real("w%d" % f)
                                   for f in range(cfg["F"])]
    return sim, alg, make(env, cfg, sim, **kw)


def par(env, cfg):
    T, C, n = cfg["T"], cfg["C"], cfg["runs"]
    sim, alg, opt = setup(env, cfg)
    # distinct pulses, so that each run can be recognized by its pulse
    ps = []
    for k in range(n):
        p = env.rarr("p%d" % k, (T, C)).copy()
        p[0, 0] = env.num(k) + env.real("first", 0, 1)
        ps.append(p)
    keep = [p.copy() for p in ps]
    made = pool.install(env, "parallel")
    arg = env.array(ps) if cfg["arr"] else ps
    proc = [None, 2, 3][env.choice("processes", 3)] if n == 2 else 2
    st0 = sim.stats
    m = env.q("parallel")
    if proc is None:
        data = m.run_optimization_parallel(opt, arg)
    else:
        data = m.run_optimization_parallel(opt, arg, processes=proc)
    if proc == 1 or not made:
        env.check("processes as requested", proc == 1)
    else:
        env.check("processes as requested", made == [proc])
    for k in range(n):
        env.check_eq("initial pulses unchanged", ps[k], keep[k])
    env.check("one optimization for each pulse", len(alg.done) == n
              and len(data.final_parameters) == n and len(data) == n)
    env.check("simulator unchanged", sim.seen == [] and sim.jseen == []
              and sim.stats is st0 and opt.system_simulator is sim)
    env.check("labels", list(data.indices) == sim.cost_indices)
    for k in range(n):
        mine = [d for d in alg.done
                if bool(abs(d[0][0] - keep[k][0, 0]) < 0.5)]
        env.check("one optimization for this pulse", len(mine) == 1)
        x0, log, r = mine[0]
        env.check_eq("initial pulse", pulse_of(env, x0, T, C), keep[k])
        env.check_eq("final parameters in order", data.final_parameters[k],
                     pulse_of(env, r.x, T, C))
        env.check_eq("final cost in order", data.final_costs[k], r.fun)
        nf = [e for e in log if e[0] == "fun"]
        env.check("evaluations of this run only",
                  len(data.costs[k]) == len(nf) == len(data.parameters[k]))
        for (_, x, v), c, p in zip(nf, data.costs[k], data.parameters[k]):
            q = pulse_of(env, x, T, C)
            env.check_eq("saved costs", c, env.array(sim.costs(q)))
            env.check_eq("saved parameters", p, q)
        env.check("statistics of each run",
                  len(data.optimization_statistics) == n)


def own(env, cfg):
    """Every run starts from the state of the given optimizer, whatever an
    optimizer keeps of its previous runs."""
    T, C, n = cfg["T"], cfg["C"], cfg["runs"]
    res = env.q("optimization_data")

    class Keeps:
        def __init__(self):
            self.total = env.real("start")
            self.log = []

        def run_optimization(self, initial_control_amplitudes, verbose=0):
            p = initial_control_amplitudes
            self.total = self.total + p[0, 0]
            self.log.append(p[0, 1])
            return res.OptimizationResult(
                final_cost=self.total, indices=["a"], final_parameters=p,
                status=len(self.log),
                optim_summary=res.OptimizationSummary(costs=list(self.log)))
    ps = [env.rarr("p%d" % k, (T, C)) for k in range(n)]
    pool.install(env, "parallel")
    opt = Keeps()
    data = env.q("parallel").run_optimization_parallel(opt, ps, processes=2)
    env.check("optimizer unchanged", opt.log == [])
    for k in range(n):
        env.check_eq("starts from the given optimizer", data.final_costs[k],
                     env.real("start") + ps[k][0, 0])
        env.check("one run", data.status[k] == 1 and len(data.costs[k]) == 1)
        env.check_eq("values of this run", data.costs[k][0], ps[k][0, 1])


def single(env, cfg):
    sim, alg, opt = setup(env, cfg)
    p = env.rarr("p", (cfg["T"], cfg["C"]))
    r = env.q("parallel").run_optimization(opt, p)
    env.check_eq("final parameters", r.final_parameters,
                 pulse_of(env, alg.done[0][2].x, cfg["T"], cfg["C"]))
    env.check_eq("starts at the pulse", alg.done[0][0], flatten(env, p))
