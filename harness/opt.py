"""A simulator with arbitrary costs and an arbitrary optimization algorithm
for the optimizer harnesses."""
import math
import types

from .common import *


class Sim:
    """Costs are arbitrary differentiable functions of the pulse (fns), or
    one free value per evaluation (table)."""

    def __init__(self, env, T, C, F, stats=True, table=False):
        self.env, self.T, self.C, self.F = env, T, C, F
        self.table = table
        ps = env.q("performance_statistics")
        self.stats = ps.PerformanceStatistics() if stats else None
        self.cost_indices = ["cost %d" % f for f in range(F)]
        self.seen, self.vals, self.jseen, self.jvals = [], [], [], []
        N = T * C
        self.fns, self.ders = [], []
        for f in range(F):
            def fn(*x, f=f):
                return sum((k + 1 + f) * 0.3 * v + 0.1 * (f + 1) * v * v
                           for k, v in enumerate(x)) + 0.2 * math.sin(
                               sum(x))
            ds = [(lambda *x, f=f, k=k: (k + 1 + f) * 0.3 + 0.2 * (f + 1)
                   * x[k] + 0.2 * math.cos(sum(x))) for k in range(N)]
            self.fns.append(env.uf("cost%d" % f, fn, ds))
            self.ders.append([env.uf("cost%d'%d" % (f, k), ds[k])
                              for k in range(N)])

    def flat(self, pulse):
        return [pulse[t, c] for t in range(self.T) for c in range(self.C)]

    def costs(self, pulse):
        x = self.flat(pulse)
        return [f(*x) for f in self.fns]

    def wrapped_cost_functions(self, pulse=None):
        env = self.env
        p = env.array(pulse).copy()
        self.seen.append(p)
        if self.table:
            lim = self.table(len(self.seen)) if callable(self.table) else ()
            v = [env.real("c%d.%d" % (len(self.seen), f), *lim)
                 for f in range(self.F)]
        else:
            v = self.costs(p)
        self.vals.append(env.array(v))
        return env.array(v)

    def wrapped_jac_function(self, pulse=None):
        env = self.env
        p = env.array(pulse).copy()
        self.jseen.append(p)
        x = self.flat(p)
        d = env.array([[[self.ders[f][t * self.C + c](*x)
                         for c in range(self.C)] for f in range(self.F)]
                       for t in range(self.T)])
        self.jvals.append(d)
        return d.copy()


class Algorithm:
    """Stands for scipy.optimize.minimize and least_squares: evaluates the
    functions at arbitrary points in an arbitrary order."""

    def __init__(self, env, N, steps, jac="free", reuse=True, clock=None):
        self.env, self.N, self.steps = env, N, steps
        self.jacmode, self.reuse, self.clock = jac, reuse, clock
        if clock is None:
            Clock(env)
        self.limit = None
        self.calls = []
        self.log = []
        self.times = []
        self.runs = 0
        so = env.lib("scipy.optimize")
        env.patch(so, "minimize", self.minimize)
        env.patch(so, "least_squares", self.least_squares)

    def now(self):
        return self.clock.now if self.clock else None

    def minimize(self, fun, x0, args=(), method=None, jac=None, hess=None,
                 hessp=None, bounds=None, constraints=(), tol=None,
                 callback=None, options=None):
        return self.run("minimize", fun, x0, jac, method=method,
                        bounds=bounds, options=dict(options or {}), tol=tol)

    def least_squares(self, fun, x0, jac="2-point", bounds=(-math.inf,
                      math.inf), method="trf", ftol=1e-8, xtol=1e-8,
                      gtol=1e-8, x_scale=1.0, loss="linear", f_scale=1.0,
                      diff_step=None, tr_solver=None, tr_options=None,
                      jac_sparsity=None, max_nfev=None, verbose=0,
                      args=(), kwargs=None):
        return self.run("least_squares", fun, x0, jac, bounds=bounds,
                        method=method, ftol=ftol, xtol=xtol, gtol=gtol,
                        max_nfev=max_nfev, verbose=verbose)

    def run(self, kind, fun, x0, jac, **kw):
        env = self.env
        self.runs += 1
        self.calls.append(dict(kw, kind=kind, x0=env.array(x0).copy(),
                               jac=jac))
        buf = env.array(x0).copy()
        for k in range(self.steps):
            if self.clock:
                self.clock.advance()
            if self.reuse:
                for i in range(self.N):
                    buf[i] = env.real("x%d.%d.%d" % (self.runs, k, i))
            else:
                buf = env.rarr("x%d.%d" % (self.runs, k), (self.N,))
            if callable(jac) and (
                    self.jacmode == "free" and env.choice(
                        "step%d.%d" % (self.runs, k), 2)
                    or self.jacmode == "alternate" and k % 2):
                self.log.append(("jac", env.array(buf).copy(), jac(buf)))
            else:
                x = env.array(buf).copy()
                try:
                    v = fun(buf)
                except self.limit or ():
                    self.log.append(("limit", x, self.now()))
                    raise
                self.log.append(("fun", x, v))
                if self.clock:
                    self.times.append(self.now())
        if self.reuse:
            for i in range(self.N):
                buf[i] = env.real("x%d.end.%d" % (self.runs, i))
        r = types.SimpleNamespace()
        r.x = env.rarr("xres%d" % self.runs, (self.N,))
        r.fun = env.real("fres%d" % self.runs)
        r.grad = r.jac = env.rarr("gres%d" % self.runs, (self.N,))
        r.nfev = 17 + self.runs
        r.nit = 5
        r.status = 2
        r.message = "converged"
        r.success = True
        self.result = r
        return r


def flatten(env, pulse):
    """All time steps of the first control, then of the second, .."""
    T, C = pulse.shape
    return env.array([pulse[t, c] for c in range(C) for t in range(T)])


def pulse_of(env, x, T, C):
    return env.array([[x[c * T + t] for c in range(C)] for t in range(T)])


class Clock:
    """The wall clock; it advances only when the harness says so."""

    def __init__(self, env):
        self.env, self.n = env, 0
        self.now = env.real("t0", 1000, 2000)
        if env.symbolic:
            env.hook("time", lambda: self.now)
        else:
            import time
            for nm in ("time", "perf_counter", "monotonic"):
                env.patch(time, nm, lambda: float(self.now))

    def advance(self):
        self.n += 1
        self.now = self.now + self.env.real("dt%d" % self.n, 0, 2000)
