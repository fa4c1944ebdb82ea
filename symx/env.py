"""The two environments a harness runs in.

The same harness function is executed
* symbolically (``SymEnv``): inputs are free variables, the modules are the
  symbolically loaded source, assertions are solver queries;
* concretely (``ConEnv``): inputs are numbers, the modules are the installed
  qopt (the real code), assertions compare floats.
"""
import contextlib
import importlib
import math
import random
import sys
import time
import types
from fractions import Fraction

import numpy as np
import z3

from . import loader, npshim as ns, scalar as sc
from .explore import (DomainError, Inconclusive, PathCtx, Violation,
                      input_atoms, model_values)
from .scalar import (AssumptionFailed, Assignment, Infeasible, S, SymBool,
                     Unsupported)

TOL = 1e-6


class CheckFailed(BaseException):
    def __init__(self, label, detail=""):
        self.label = label
        self.detail = detail


class EnvBase:
    def fresh(self, stem):
        n = self._cnt.get(stem, 0)
        self._cnt[stem] = n + 1
        return "%s#%d" % (stem, n)

    # composite inputs -------------------------------------------------------
    def cplx(self, name, **k):
        return self._c(self.real(name + ".re", **k), self.real(name + ".im",
                                                              **k))

    def rarr(self, name, shape, **k):
        if isinstance(shape, int):
            shape = (shape,)
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = self.real(name + "".join("_%d" % x for x in i), **k)
        return self._arr(a, "f")

    def carr(self, name, shape, **k):
        if isinstance(shape, int):
            shape = (shape,)
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = self.cplx(name + "".join("_%d" % x for x in i), **k)
        return self._arr(a, "c")

    def herm(self, name, n, real=False):
        a = np.empty((n, n), dtype=object)
        for i in range(n):
            a[i, i] = self._c(self.real("%s_%d%d" % (name, i, i)), 0)
            for j in range(i + 1, n):
                x = self.cplx("%s_%d%d" % (name, i, j)) if not real else \
                    self._c(self.real("%s_%d%d" % (name, i, j)), 0)
                a[i, j] = x
                a[j, i] = x.conjugate()
        return self._arr(a, "c")

    def unitary2(self, name, phase=False):
        """SU(2) element (all of U(2)/phase) from a unit quaternion."""
        a, b, c, d = self.unit_vector(name, 4)
        i = self.I
        u = self._arr(self._o([[a + i * b, c + i * d],
                               [-c + i * d, a - i * b]]), "c")
        if phase:
            p, q = self.unit_vector(name + ".ph", 2)
            u = u * (p + i * q)
        return u

    def unitary3(self, name):
        """A family of U(3): product of three complex Givens rotations."""
        out = None
        for k, (r, s) in enumerate([(0, 1), (1, 2), (0, 2)]):
            u = self.unitary2("%s.g%d" % (name, k))
            m = self._eye_obj(3)
            for x, xx in enumerate((r, s)):
                for y, yy in enumerate((r, s)):
                    m[xx, yy] = u[x, y]
            m = self._arr(m, "c")
            out = m if out is None else out @ m
        return out

    def _o(self, rows):
        a = np.empty((len(rows), len(rows[0])), dtype=object)
        for i, r in enumerate(rows):
            for j, x in enumerate(r):
                a[i, j] = x
        return a

    def _eye_obj(self, n):
        a = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                a[i, j] = self._c(1 if i == j else 0, 0)
        return a

    def mat(self, rows, tag="c"):
        return self._arr(self._o(rows), tag)

    def D(self, arr):
        """DenseOperator of an array."""
        return self.q("matrix").DenseOperator(arr)

    def raises(self, label, exc, fn):
        """Assert that fn raises one of the exceptions."""
        try:
            r = fn()
        except (Unsupported, Inconclusive):
            raise
        except exc:
            self.check(label, True)
            return True
        except Exception as e:
            self.check(label + " [raised %s]" % type(e).__name__, False)
        self.check(label, False)
        return False

    def check_same(self, label, a, b):
        """Structural identity of python values (not solver decided)."""
        self.check(label, a == b)

    def patch(self, obj, name, value):
        """Replace an attribute; of a library, also where the code under
        test holds it under a name of its own."""
        missing = object()
        old = obj.__dict__.get(name, missing) if hasattr(
            obj, "__dict__") else getattr(obj, name)
        mods = list(self.modules())
        if isinstance(obj, types.ModuleType) and obj not in mods:
            given = getattr(obj, name, missing)
            for m in mods:
                for k, v in list(vars(m).items()):
                    if v is given and not k.startswith("__"):
                        self._undo.append((m, k, v, missing))
                        setattr(m, k, value)
        self._undo.append((obj, name, old, missing))
        setattr(obj, name, value)

    def close(self):
        for obj, name, old, missing in reversed(self._undo):
            if old is missing:
                try:
                    delattr(obj, name)
                except AttributeError:
                    pass
            else:
                setattr(obj, name, old)
        self._undo = []
        for f in self._closers:
            f()


class SymEnv(EnvBase):
    symbolic = True

    def __init__(self, ctx, tree_stubs=None, probe=False):
        self.ctx = ctx
        self._cnt = {}
        self._undo = []
        self._closers = []
        self.observations = []
        self.tree = loader.Tree(tree_stubs)
        self.np = ns.SHIM
        self.I = S.lift(1j)
        self.reached = 0
        self.ranges = {}
        self.meta = {}
        ns.HOOKS.clear()
        ns.HOOKS["draw"] = self._draw
        ns.HOOKS["drawint"] = self._drawint
        ns.HOOKS["time"] = self._time
        self._clock = None

    def hook(self, name, fn):
        ns.HOOKS[name] = fn

    def q(self, name):
        return self.tree.q(name)

    def modules(self):
        return self.tree.mods.values()

    @contextlib.contextmanager
    def imported(self):
        """The encoded modules are those pickle finds by name."""
        keep = {k: sys.modules.get(k) for k in self.tree.mods}
        sys.modules.update(self.tree.mods)
        try:
            yield
        finally:
            for k in self.tree.mods:
                if keep.get(k) is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = keep[k]

    def lib(self, name):
        """Library the code imports (its stand-in in symbolic runs)."""
        return self.tree.stub(name, leaf=True)

    # -- inputs
    def real(self, name, lo=None, hi=None, nonzero=False, positive=False):
        x = sc.in_atom(name)
        (m,), = [tuple(x.p)]
        at = sc.space().atoms[m[0][0]]
        if name not in self.ranges:
            self.ranges[name] = (lo, hi, nonzero or positive, positive)
            if lo is not None:
                self.ctx.assume(x >= lo)
            if hi is not None:
                self.ctx.assume(x <= hi)
            if positive:
                at.positive = True
                self.ctx.assume(x > 0)
            elif nonzero:
                self.ctx.assume(x != 0)
        return x

    def choice(self, name, n):
        """Nondeterministic integer in range(n)."""
        x = self.real(name, 0, n - 1)
        self.meta.setdefault("ints", set()).add(name)
        for k in range(n - 1):
            if bool(x == k):
                return k
        self.ctx.assume(x == n - 1)
        return n - 1

    def bool(self, name):
        return self.choice(name, 2) == 1

    def unit_vector(self, name, n):
        xs = [self.real("%s.%d" % (name, i)) for i in range(n)]
        (m,) = xs[0].p
        at = sc.space().atoms[m[0][0]]
        if at.sq is None:
            sq = {sc.ONE: 1}
            for x in xs[1:]:
                sq = sc.p_add(sq, sc.p_scale((x * x).p, -1))
            at.sq = sq
            rest = xs[1:]
            # products formed earlier never contain this atom
            at.facts.append(lambda: at.z * at.z == sc.to_z3_real(sq))
            for a in set().union(*[x.atoms() for x in rest]) if rest else ():
                if sc.space().atoms[a].info is None:
                    sc.space().atoms[a].info = ("ball", sq)
            at.deps = tuple(set().union(*[x.atoms() for x in rest])) \
                if rest else ()
        self.meta.setdefault("unit", []).append((name, n))
        return xs

    def _c(self, re, im):
        return (S.lift(re) + S.lift(im) * self.I).typed(True)

    def _arr(self, o, tag):
        return ns.wrap(o, tag)

    def array(self, xs, dtype=None):
        return ns.array(xs, dtype=dtype)

    def num(self, x):
        return S.lift(x)

    def _draw(self, kind):
        if kind == "u01":
            return self.real(self.fresh("rand"), 0, 1)
        return self.real(self.fresh("randn"))

    def _drawint(self, lo, hi):
        return lo + self.choice(self.fresh("randint"), hi - lo)

    def _time(self):
        d = self.real(self.fresh("dt_clock"), 0)
        self._clock = d if self._clock is None else self._clock + d
        return self._clock

    def uf(self, name, fn, d=None, n=1, facts=None):
        """A user supplied scalar function; d: its derivatives by arg."""
        def f1(*args):
            dd = None
            if d is not None:
                ds = d if isinstance(d, (list, tuple)) else [d]
                dd = [(lambda *a, g=g, k=k: sc.uf(
                    name + "'%d" % k, list(a), g)) for k, g in enumerate(ds)]
            return sc.uf(name, list(args), fn, dd, facts)

        def f(*args):
            if any(isinstance(a, (np.ndarray, list)) for a in args):
                objs = [ns.to_obj_lifted(a) for a in args]
                r = np.frompyfunc(f1, len(args), 1)(*objs)
                return ns.wrap(r, "f") if isinstance(r, np.ndarray) else r
            return f1(*[S.lift(a) for a in args])
        return f

    def expm(self, a):
        from . import scishim
        return scishim.expm(a)

    def frechet(self, a, e):
        from . import scishim
        return scishim.expm_frechet(a, e, compute_expm=False)

    def assume(self, b):
        self.ctx.assume(b)

    def equal(self, a, b):
        """Proved equal for all inputs of the path (hooks only)."""
        sa, xa = self._flat(a)
        sb, xb = self._flat(b)
        if sa != sb:
            return False
        bad, atoms = [], set()
        for x, y in zip(xa, xb):
            e = sc.eq_bool(x, y)
            if e is True:
                continue
            if e is False:
                return False
            bad.append(z3.Not(e.z))
            atoms |= e.atoms
        if not bad:
            return True
        st, _ = self.ctx.query([z3.Or(*bad)], atoms, 5000)
        return st == "unsat"

    def unsupported(self, what):
        raise Unsupported(what)

    def exp(self, x):
        return sc.s_exp(x)

    def sqrt(self, x):
        return sc.s_sqrt(x)

    # -- assertions
    def observe(self, label, value):
        self.observations.append((label, value))

    def _flat(self, a):
        if isinstance(a, np.ndarray):
            return a.shape, list(ns.to_obj_lifted(a).reshape(-1))
        if hasattr(a, "data") and hasattr(a, "ptrace"):
            return self._flat(a.data)
        if isinstance(a, (list, tuple)):
            return self._flat(ns.array(a))
        return (), [S.lift(a)]

    def check_eq(self, label, a, b, tol=TOL, shape=True):
        """a == b elementwise for every value of the inputs."""
        sa, xa = self._flat(a)
        sb, xb = self._flat(b)
        self.observe(label, xa)
        if sa != sb:
            if shape or len(xa) != len(xb):
                self.check("%s: shape %s instead of %s" % (label, sa, sb),
                           False)
        self.ctx.stats.asserts += 1
        self.ctx.stats.elements += len(xa)
        bad, atoms = [], set()
        for x, y in zip(xa, xb):
            e = sc.eq_bool(x, y)
            if e is True:
                continue
            if e is False:
                e = SymBool(z3.BoolVal(False), ())
            bad.append(z3.Not(e.z))
            atoms |= e.atoms
        self.reached += 1
        if not bad:
            bad = [z3.BoolVal(False)]
        self._decide(label, z3.Or(*bad) if len(bad) > 1 else bad[0], atoms)

    def check(self, label, cond):
        self.ctx.stats.asserts += 1
        self.reached += 1
        c = sc.as_b(cond)
        if c is True:
            self.observe(label, [S.lift(1)])
            self.ctx.stats.trivial += 1
            return
        if c is False:
            c = SymBool(z3.BoolVal(False), ())
        self.observe(label, [S.lift(1)])
        self._decide(label, z3.Not(c.z), c.atoms)

    def _decide(self, label, neg, atoms):
        st, model = self.ctx.query([neg], atoms, want_model=True)
        if st == "unsat":
            return
        ins = input_atoms()
        if st == "unknown":
            vals = self._pinned(neg, atoms, ins)
            if vals is None:
                raise Inconclusive("%s: no answer from the solver" % label)
            raise Violation(label, [vals])
        cand = []
        pv = self._pinned(neg, atoms, ins)
        if pv is not None:
            cand.append(pv)
        cand.append(model_values(model, ins))
        raise Violation(label, cand,
                        more=lambda: self._tame(neg, atoms, ins))

    def _tame(self, neg, atoms, ins):
        """Counterexamples with as many inputs as possible at tame values;
        the others at a tame value of another magnitude, if possible.  Asked
        for when the simpler ones do not show on the real code."""
        out = []
        t0 = time.time()
        ids = set(atoms)
        for _, at in self.ctx.pc:
            ids |= at
        ids = sc.closure(ids)
        onpath = set()
        for _, at in self.ctx.pc:
            onpath |= at
        onpath = sc.closure(onpath)
        away, far = [], []
        for name, at in ins.items():
            if at.id in ids and at.sq is None:
                lo, hi = self.ranges.get(name, (None,) * 4)[:2]
                if lo is None and hi is None:
                    away.append(z3.Or(at.z >= 0.25, at.z <= -0.25))
                    far.append(z3.And(at.z >= -2, at.z <= 2))
        for extra in (away + far, away):
            st, m = self.ctx.query([neg] + extra, atoms, 6000,
                                   want_model=True)
            if st == "sat":
                v = model_values(m, ins)
                out.append(v)
                # the path from the solver, everything else tame
                out += [{n: x for n, x in v.items()
                         if n in ins and ins[n].id in onpath}] * 2
        for seed in range(3):
            if time.time() - t0 > 30:
                break
            rng = random.Random(777 + seed)
            s = self.ctx.solver([neg], atoms, 4000)
            want, pin = {}, {}
            for name, at in ins.items():
                if at.id not in ids or at.sq is not None:
                    continue
                lo, hi, nz, pos = self.ranges.get(name, (None,) * 4)
                want[name] = draw_value(rng, lo, hi, nz, pos)
                pin[name] = z3.Bool("pin!%s!%d" % (name, seed))
                s.add(z3.Implies(pin[name], ins[name].z == z3.RealVal(
                    str(Fraction(want[name])))))
            back = {str(b): n for n, b in pin.items()}
            free, model = [], None
            for _ in range(60):
                r = s.check(*pin.values())
                if r == z3.sat:
                    model = s.model()
                    break
                core = [back[str(b)] for b in s.unsat_core()] \
                    if r == z3.unsat else []
                if not core:
                    break
                n = core[rng.randrange(len(core))]
                free.append(n)
                del pin[n]
            if model is None:
                continue
            kept = list(pin.values())
            for n in free[:12]:
                if time.time() - t0 > 30:
                    break
                for k in (-1, -2, -3, -4, -6, 1, 2, 3, 4):
                    e = ins[n].z == z3.RealVal(str(
                        Fraction(want[n]) * Fraction(10) ** k))
                    b = z3.Bool("try!%s!%d" % (n, k))
                    s.add(z3.Implies(b, e))
                    if s.check(*(kept + [b])) == z3.sat:
                        kept.append(b)
                        model = s.model()
                        break
            out.append(model_values(model, ins))
        # the path from the solver, the other unbounded inputs large: shows
        # what a tiny difference between two paths does
        for v in out[:1]:
            big = dict(v)
            for name, at in ins.items():
                lo, hi = self.ranges.get(name, (None,) * 4)[:2]
                if at.id in ids and at.id not in onpath and at.sq is None \
                        and lo is None and hi is None \
                        and isinstance(big.get(name), (int, float, Fraction)):
                    big[name] = big[name] * 10000
            out.append(big)
        return out

    def _pinned(self, neg, atoms, ins):
        """A counterexample with most inputs fixed to tame values."""
        rng = random.Random(12345)
        for attempt in range(4):
            pins = []
            ids = set(atoms)
            for _, at in self.ctx.pc:
                ids |= at
            ids = sc.closure(ids)
            for name, at in ins.items():
                if at.id not in ids or at.sq is not None:
                    continue
                lo, hi, nz, pos = self.ranges.get(name, (None,) * 4)
                v = draw_value(rng, lo, hi, nz, pos)
                pins.append(at.z == z3.RealVal(str(Fraction(v))))
            if attempt >= 1:
                rng.shuffle(pins)
                pins = pins[: len(pins) * (4 - attempt) // 4]
            st, m = self.ctx.query([neg] + pins, atoms, 6000,
                                   want_model=True)
            if st == "sat":
                return model_values(m, ins)
        return None

    def check_grad(self, label, cost, args, grad, tol=1e-4, shape=True):
        """grad is the exact gradient of cost(args) (elementwise)."""
        args = ns.asarray(args)
        c = cost(args)
        if isinstance(c, np.ndarray):
            carr = ns.to_obj_lifted(c)
        else:
            carr = ns.to_obj_lifted(c)
        out = np.empty(carr.shape + args.shape, dtype=object)
        for i in np.ndindex(*carr.shape):
            for j in np.ndindex(*args.shape):
                out[i + j] = S.lift(carr[i]).diff(S.lift(
                    ns.plain(args)[j]))
        self.observe(label + ".cost", [S.lift(x) for x in carr.reshape(-1)])
        self.check_eq(label, grad, ns.wrap(out, None), tol=tol, shape=shape)

    def close(self):
        super().close()
        ns.HOOKS.clear()


def draw_value(rng, lo, hi, nonzero=False, positive=False):
    if positive and lo is None:
        lo = 0.2
    if lo is None and hi is None:
        lo, hi = -1.4, 1.4
    elif lo is None:
        lo = hi - 2
    elif hi is None:
        hi = lo + 1.7
    v = None
    for _ in range(100):
        v = round((lo + (hi - lo) * rng.random()) * 1024) / 1024.0
        v = min(max(v, lo), hi)
        if not (nonzero and abs(v) < 0.05):
            break
    return v


class ConEnv(EnvBase):
    symbolic = False

    def __init__(self, values, rng=None, stop=True):
        self.values = dict(values)
        self.rng = rng or random.Random(0)
        self.np = np
        self.I = 1j
        self._cnt = {}
        self._undo = []
        self._closers = []
        self.observations = []
        self.used = {}
        self.failures = []
        self.stop = stop
        self.reached = 0
        self._clock = None
        self._npstate = {}
        self._patch_random()

    def hook(self, name, fn):
        pass

    def q(self, name):
        return importlib.import_module("qopt." + name)

    def modules(self):
        return [m for k, m in list(sys.modules.items())
                if m is not None and k.split(".")[0] == "qopt"]

    @contextlib.contextmanager
    def imported(self):
        yield

    def lib(self, name):
        return importlib.import_module(name)

    def real(self, name, lo=None, hi=None, nonzero=False, positive=False):
        if name in self.used:
            return np.float64(self.used[name])
        v = self.values.get(name)
        if v is None:
            v = draw_value(self.rng, lo, hi, nonzero, positive)
        if lo is not None:
            v = max(v, lo)
        if hi is not None:
            v = min(v, hi)
        if positive and v <= 0:
            v = draw_value(self.rng, lo, hi, nonzero, positive)
        self.used[name] = v
        return np.float64(v)

    def choice(self, name, n):
        v = self.values.get(name)
        if v is None and name not in self.used:
            v = self.rng.randrange(n)
        elif name in self.used:
            v = self.used[name]
        v = int(min(max(round(v), 0), n - 1))
        self.used[name] = v
        return v

    def bool(self, name):
        return self.choice(name, 2) == 1

    def unit_vector(self, name, n):
        names = ["%s.%d" % (name, i) for i in range(n)]
        if names[0] in self.used:
            return [np.float64(self.used[x]) for x in names]
        xs = np.array([float(self.real(x)) for x in names])
        if not np.any(xs):
            xs[0] = 1.
        xs = xs / np.linalg.norm(xs)
        for k, x in zip(names, xs):
            self.used[k] = float(x)
        return [np.float64(x) for x in xs]

    def _c(self, re, im):
        return complex(re, im)

    def _arr(self, o, tag):
        return np.array(o.tolist(), dtype={"f": float, "c": complex}[tag]
                        ).reshape(o.shape)

    def array(self, xs, dtype=None):
        return np.array(xs, dtype=dtype)

    def num(self, x):
        return x

    def _draw(self, kind):
        if kind == "u01":
            return float(self.real(self.fresh("rand"), 0, 1))
        return float(self.real(self.fresh("randn")))

    def _drawint(self, lo, hi):
        return lo + self.choice(self.fresh("randint"), hi - lo)

    def _patch_random(self):
        me = self

        def shaped(kind):
            def f(*shape):
                if not shape:
                    return me._draw(kind)
                r = np.empty(shape)
                for i in np.ndindex(*shape):
                    r[i] = me._draw(kind)
                return r
            return f

        def sized(kind):
            def f(size=None):
                if size is None:
                    return me._draw(kind)
                return shaped(kind)(*(size if isinstance(size, tuple)
                                      else (size,)))
            return f
        R = np.random
        self.patch(R, "rand", shaped("u01"))
        self.patch(R, "randn", shaped("normal"))
        for n in ("random", "random_sample", "ranf", "sample"):
            self.patch(R, n, sized("u01"))
        self.patch(R, "standard_normal", sized("normal"))
        self.patch(R, "normal", lambda loc=0., scale=1., size=None:
                   sized("normal")(size) * scale + loc)
        self.patch(R, "uniform", lambda low=0., high=1., size=None:
                   sized("u01")(size) * (high - low) + low)

        def randint(low, high=None, size=None, dtype=int):
            if high is None:
                low, high = 0, low
            if size is None:
                return me._drawint(int(low), int(high))
            n = np.empty(size, dtype=int)
            for i in np.ndindex(*n.shape):
                n[i] = me._drawint(int(low), int(high))
            return n
        self.patch(R, "randint", randint)
        ns_ = types.SimpleNamespace(
            normal=R.normal, standard_normal=R.standard_normal,
            random=R.random, uniform=R.uniform, integers=randint)
        self.patch(R, "default_rng", lambda *a, **k: ns_)
        self.patch(R, "RandomState", lambda *a, **k: R)

    def _time(self):
        d = float(self.real(self.fresh("dt_clock"), 0))
        self._clock = d if self._clock is None else self._clock + d
        return self._clock

    def uf(self, name, fn, d=None, n=1, facts=None):
        def f(*args):
            if any(isinstance(a, (np.ndarray, list)) for a in args):
                return np.vectorize(fn, otypes=[float])(*args)
            return np.float64(fn(*[float(a) for a in args]))
        return f

    def expm(self, a):
        import scipy.linalg
        return scipy.linalg.expm(np.asarray(a))

    def frechet(self, a, e):
        import scipy.linalg
        return scipy.linalg.expm_frechet(np.asarray(a, dtype=complex),
                                         np.asarray(e, dtype=complex),
                                         compute_expm=False)

    def assume(self, b):
        if not bool(b):
            raise AssumptionFailed()

    def exp(self, x):
        return np.exp(x)

    def sqrt(self, x):
        return np.sqrt(x)

    def observe(self, label, value):
        self.observations.append((label, value))

    def _flat(self, a):
        if hasattr(a, "data") and hasattr(a, "ptrace"):
            a = a.data
        a = np.asarray(a)
        if a.dtype == object:
            a = np.array(a.tolist(), dtype=complex)
        return a.shape, a.reshape(-1).astype(complex)

    def check_eq(self, label, a, b, tol=TOL, shape=True):
        sa, xa = self._flat(a)
        sb, xb = self._flat(b)
        self.observe(label, xa)
        self.reached += 1
        if sa != sb and (shape or len(xa) != len(xb)):
            self.fail("%s: shape %s instead of %s" % (label, sa, sb))
        else:
            scale = 1.0
            if len(xb):
                fin = np.abs(xb[np.isfinite(xb)])
                scale = max(1.0, fin.max() if len(fin) else 1.0)
            ok = np.array([abs(x - y) <= tol * scale or
                           (x != x and y != y) or x == y
                           for x, y in zip(xa, xb)], dtype=bool)
            if not ok.all():
                i = int(np.argmin(ok))
                self.fail(label, "element %d: got %s, expected %s" %
                          (i, xa[i], xb[i]))

    def check(self, label, cond):
        self.observe(label, np.array([1.0 + 0j]))
        self.reached += 1
        if not bool(cond):
            self.fail(label)

    def fail(self, label, detail=""):
        self.failures.append((label, detail))
        if self.stop:
            raise CheckFailed(label, detail)

    def check_grad(self, label, cost, args, grad, tol=1e-4, shape=True):
        args = np.asarray(args, dtype=float)
        c0 = np.asarray(cost(args.copy()))
        out = np.empty(c0.shape + args.shape, dtype=complex)
        h = 1e-5
        for j in np.ndindex(*args.shape):
            p, m = args.copy(), args.copy()
            p[j] += h
            m[j] -= h
            out[(Ellipsis,) + j] = (np.asarray(cost(p)) -
                                    np.asarray(cost(m))) / (2 * h)
        self.observe(label + ".cost", c0.reshape(-1).astype(complex))
        self.check_eq(label, grad, out, tol=tol, shape=shape)
