"""Path exploration and queries."""
import random
import time

import z3

from . import scalar as sc
from .scalar import S, SymBool, Infeasible, Unsupported


class Inconclusive(Exception):
    """The solver gave no answer within its time limit."""


class Violation(BaseException):
    """An assertion has a counterexample."""

    def __init__(self, label, values, detail="", more=None):
        self.label = label
        self.values = values
        self.detail = detail
        self.more = more


class Stats:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.queries = 0
        self.branches = 0
        self.asserts = 0
        self.elements = 0
        self.trivial = 0
        self.solver_s = 0.0
        self.domain = 0
        self.max_terms = 0
        self.sat_witness = 0

    def as_dict(self):
        return dict(self.__dict__)


MAX_PATHS = 4000


class PathCtx:
    def __init__(self, prefix, stats, timeout_ms=20000, strict_div=False):
        self.prefix = list(prefix)
        self.pos = 0
        self.pc = []            # (z3 expr, atom ids)
        self.known = {}         # z3 ast id -> bool
        self.keep = []          # keep exprs alive
        self.new_prefixes = []
        self.stats = stats
        self.timeout_ms = timeout_ms
        self.strict_div = strict_div
        self.counter = {}
        self.assumptions = []

    # -- solver ---------------------------------------------------------------
    def facts_for(self, ids):
        out = []
        sp = sc.space()
        for a in sorted(sc.closure(ids)):
            at = sp.atoms[a]
            for f in at.facts:
                e = f()
                out.append(e)
        # facts may introduce inverse variables
        for a in sorted(sc.closure(ids)):
            at = sp.atoms[a]
            if at.zinv is not None:
                out.append(at.z * at.zinv == 1)
        return out

    def congruence(self, atoms):
        """Equal arguments give equal values, for pairs of applications of
        the same uninterpreted function."""
        ids = set(atoms)
        for _, at in self.pc:
            ids |= at
        sp = sc.space()
        groups, out, conds = {}, [], {}
        for a in sorted(sc.closure(ids)):
            at = sp.atoms[a]
            if isinstance(at.info, tuple) and at.info[0] == "ball":
                b = at.info[1]
                if id(b) not in conds:
                    conds[id(b)] = True
                    out.append(sc.to_z3_real(b) >= 0)
            if self.pc and isinstance(at.info, tuple) and \
                    at.info[0] == "cong":
                groups.setdefault(at.info[1], []).append(at)
        for g in groups.values():
            for i in range(len(g)):
                for j in range(i):
                    if len(out) > 4000:
                        return out
                    x, y = g[i].info, g[j].info
                    if len(x[3]) != len(y[3]):
                        continue
                    k = (x[2], y[2])
                    if k not in conds:
                        cs = []
                        for p, q in zip(x[3], y[3]):
                            d = sc.p_add(p, sc.p_scale(q, -1))
                            for r in (sc.p_re(d), sc.p_im(d)):
                                if r:
                                    cs.append(sc.to_z3_real(r) == 0)
                        conds[k] = z3.And(*cs)
                    out.append(z3.Implies(conds[k], g[i].z == g[j].z))
        return out

    def query(self, extra, atoms, timeout_ms=None, want_model=False,
              with_pc=True):
        r = self.query1(extra, atoms, timeout_ms, want_model, with_pc)
        if r[0] == "unsat" or not with_pc:
            return r
        c = self.congruence(atoms)
        if not c:
            return r
        ids = set(atoms)
        for _, at in self.pc:
            ids |= at
        return self.query1(list(extra) + c, sc.closure(ids), timeout_ms,
                           want_model, with_pc)

    def solver(self, extra, atoms, timeout_ms):
        """A solver with the path, its facts and the given constraints."""
        ids = set(atoms)
        for _, at in self.pc:
            ids |= at
        ids = sc.closure(ids)
        s = z3.Solver()
        s.set("timeout", int(timeout_ms))
        s.set("random_seed", 1)
        for f in self.facts_for(ids):
            s.add(f)
        for e, _ in self.pc:
            s.add(e)
        for e in list(extra) + self.congruence(ids):
            s.add(e)
        return s

    def query1(self, extra, atoms, timeout_ms=None, want_model=False,
               with_pc=True):
        ids = set(atoms)
        conj = []
        if with_pc:
            for e, at in self.pc:
                conj.append(e)
                ids |= at
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", int(timeout_ms or self.timeout_ms))
        s.set("random_seed", 1)
        for f in self.facts_for(ids):
            s.add(f)
        for e in conj:
            s.add(e)
        for e in extra:
            s.add(e)
        r = s.check()
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        if r == z3.sat:
            return ("sat", s.model() if want_model else None)
        if r == z3.unsat:
            return ("unsat", None)
        return ("unknown", None)

    # -- branching ------------------------------------------------------------
    def add_pc(self, z, atoms):
        self.pc.append((z, frozenset(atoms)))
        self.keep.append(z)

    def branch(self, b):
        z = z3.simplify(b.z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        k = z.get_id()
        if k in self.known:
            return self.known[k]
        neg = z3.simplify(z3.Not(z))
        self.stats.branches += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            st, _ = self.query([z], b.atoms, 4000)
            sf, _ = self.query([neg], b.atoms, 4000)
            can_t, can_f = st != "unsat", sf != "unsat"
            if not can_t and not can_f:
                raise Infeasible()
            if can_t and can_f:
                self.new_prefixes.append(self.prefix + [False])
                d = True
            else:
                d = can_t
            self.prefix.append(d)
        self.pos += 1
        e = z if d else neg
        self.add_pc(e, b.atoms)
        self.keep.extend([z, neg])
        self.known[k] = d
        self.known[neg.get_id()] = not d
        return d

    def assume(self, b):
        b = sc.as_b(b)
        if b is True:
            return
        if b is False:
            raise Infeasible()
        self.add_pc(b.z, b.atoms)
        z = z3.simplify(b.z)
        self.keep.append(z)
        self.known[z.get_id()] = True
        n = z3.simplify(z3.Not(b.z))
        self.keep.append(n)
        self.known[n.get_id()] = False

    def _domain(self, b, what):
        b = sc.as_b(b)
        if b is True:
            return
        if b is False:
            return
        z = z3.simplify(b.z)
        if self.known.get(z.get_id()):
            return
        if self.strict_div:
            if not bool(b):
                raise DomainError(what)
            return
        # implied already?
        self.stats.domain += 1
        self.assume(b)
        self.assumptions.append(what)

    def require_nonzero(self, x):
        if len(x.p) == 1:
            (m, c), = x.p.items()
            if all(sc.space().atoms[a].positive for a, e in m):
                return
        self._domain(x != 0, "divisor != 0")

    def require_nonneg(self, x):
        self._domain(x >= 0, "sqrt argument >= 0")

    def require_positive(self, x):
        self._domain(x > 0, "log argument > 0")

    def int_between(self, x, what):
        """floor of a bounded symbolic real: fork over the integers."""
        st, m = self.query([], x.atoms(), want_model=True)
        if st != "sat":
            raise Unsupported("no model for floor()")
        lo = None
        for k in range(0, 40):
            if bool((x >= k) & (x < k + 1) if True else False):
                return k
            if k and bool((x >= -k) & (x < -k + 1)):
                return -k
        raise Unsupported("floor() of an unbounded value")


class DomainError(Exception):
    pass


def model_values(model, inputs):
    """Values of the named input atoms under a z3 model."""
    out = {}
    for name, at in inputs.items():
        v = model.eval(at.z, model_completion=True)
        try:
            if z3.is_algebraic_value(v):
                v = v.approx(30)
            f = v.as_fraction()
            out[name] = float(f)
        except Exception:
            pass
    return out


def input_atoms():
    return {a.name: a for a in sc.space().atoms if a.kind == "in"}
