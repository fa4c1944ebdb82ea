"""Symbolic scalars.

A symbolic number ``S`` is a (Laurent) polynomial with coefficients in Q(i)
over *real* atoms.  Atoms are either inputs (free real variables) or
applications of functions the solver treats as uninterpreted up to the facts
listed with the atom (exp, cos, sqrt, 1/p, matrix exponentials, user supplied
functions ...).  The polynomial is only the term representation; every
decision (branch feasibility, every asserted property) is a query to z3 on
the translation of these terms, under the facts of all atoms that occur.
"""
import os
import math
import numbers
from fractions import Fraction

import numpy as np
import z3


class Unsupported(Exception):
    """The encoding does not cover an operation the code performs."""


class Infeasible(BaseException):
    """Current path is infeasible (steering exception)."""


class AssumptionFailed(BaseException):
    """Concrete run leaves the assumed input region (steering exception)."""


# ---------------------------------------------------------------------------
# coefficients: int | Fraction | G (Gaussian rational)


class G:
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re = re
        self.im = im

    def __add__(self, o):
        if type(o) is G:
            return mkc(self.re + o.re, self.im + o.im)
        return G(self.re + o, self.im)

    __radd__ = __add__

    def __neg__(self):
        return G(-self.re, -self.im)

    def __sub__(self, o):
        if type(o) is G:
            return mkc(self.re - o.re, self.im - o.im)
        return G(self.re - o, self.im)

    def __rsub__(self, o):
        return G(o - self.re, -self.im)

    def __mul__(self, o):
        if type(o) is G:
            return mkc(self.re * o.re - self.im * o.im,
                       self.re * o.im + self.im * o.re)
        if not o:
            return 0
        return G(self.re * o, self.im * o)

    __rmul__ = __mul__

    def __eq__(self, o):
        return type(o) is G and self.re == o.re and self.im == o.im

    def __hash__(self):
        return hash((self.re, self.im))

    def __bool__(self):
        return True

    def __repr__(self):
        return "(%s+%si)" % (self.re, self.im)


def mkc(re, im):
    return G(re, im) if im else re


def c_re(c):
    return c.re if type(c) is G else c


def c_im(c):
    return c.im if type(c) is G else 0


def c_conj(c):
    return G(c.re, -c.im) if type(c) is G else c


def norm_frac(f):
    return f.numerator if f.denominator == 1 else f


def c_inv(c):
    if type(c) is G:
        n = Fraction(1) / (c.re * c.re + c.im * c.im)
        return mkc(norm_frac(c.re * n), norm_frac(-c.im * n))
    return norm_frac(Fraction(1) / c)


def c_complex(c):
    if type(c) is G:
        return complex(float(c.re), float(c.im))
    return float(c)


_SNAP = {}


def snap(x):
    """Rational value of a float literal.

    Decimal literals such as 0.1 or 1/6 denote the nearby simple rational
    (semantics over the reals, stated assumption): snap when a fraction with
    a denominator <= 20000 lies within a few ulp, else take the exact value.
    """
    if x.__class__ is not float:
        x = float(x)
    r = _SNAP.get(x)
    if r is not None:
        return r
    if math.isinf(x) or math.isnan(x):
        raise Unsupported("non finite constant %r" % x)
    if x == int(x) and abs(x) < 1e15:
        r = int(x)
    else:
        f = Fraction(x).limit_denominator(20000)
        if f and abs(f - Fraction(x)) <= abs(Fraction(x)) * Fraction(1, 10**14):
            r = f
        else:
            # decimal literals such as 1e-10
            f = Fraction(repr(x))
            r = f if len(repr(x)) < 12 else Fraction(x)
        r = norm_frac(r)
    _SNAP[x] = r
    return r


# ---------------------------------------------------------------------------
# atoms


class Atom:
    __slots__ = ("id", "name", "kind", "key", "z", "zinv", "evalf", "facts",
                 "deps", "sq", "dfun", "info", "positive")

    def __init__(self, aid, name, kind, key):
        self.id = aid
        self.name = name
        self.kind = kind
        self.key = key
        self.z = z3.Real(name)
        self.zinv = None
        self.evalf = None      # assignment -> float
        self.facts = []        # callables returning z3 bool
        self.deps = ()         # atom ids of the arguments
        self.sq = None         # polynomial (dict) replacing atom**2
        self.dfun = None       # atom id -> S
        self.info = None
        self.positive = False


class Space:
    """All atoms of one harness configuration."""

    def __init__(self):
        self.atoms = []
        self.by_key = {}
        self.mulcache = {}
        self.evalcache = None
        self.arccos = {}       # atom of arccos(x) -> x
        self.erfinv = {}       # atom of erfinv(x) -> x

    def atom(self, kind, key, name=None):
        """Return (atom, created)."""
        k = (kind, key)
        a = self.by_key.get(k)
        if a is not None:
            return a, False
        aid = len(self.atoms)
        a = Atom(aid, name or "%s_%d" % (kind, aid), kind, key)
        self.atoms.append(a)
        self.by_key[k] = a
        return a, True


SPACE = Space()


def set_space(sp):
    global SPACE
    SPACE = sp


def space():
    return SPACE


# ---------------------------------------------------------------------------
# polynomials: dict monomial -> coefficient; monomial: tuple of (atom, exp)

ONE = ()


def mon_mul(m1, m2):
    """Product of two monomials -> dict polynomial (usually one term)."""
    if not m1:
        return {m2: 1}
    if not m2:
        return {m1: 1}
    key = (m1, m2) if m1 <= m2 else (m2, m1)
    r = SPACE.mulcache.get(key)
    if r is not None:
        return r
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            del d[a]
    r = mon_norm(d)
    SPACE.mulcache[key] = r
    return r


def mon_norm(d):
    """Polynomial of the monomial d with every square replaced."""
    atoms = SPACE.atoms
    for a, e in d.items():
        if e >= 2 and atoms[a].sq is not None:
            break
    else:
        return {tuple(sorted(d.items())): 1}
    d = dict(d)
    e = d.pop(a)
    rest = mon_norm(d)
    if e % 2:
        rest = p_mul(rest, {((a, 1),): 1})
    for _ in range(e // 2):
        rest = p_mul(rest, atoms[a].sq)
    return rest


def p_mul(p, q):
    if len(p) > len(q):
        p, q = q, p
    out = {}
    cache = SPACE.mulcache
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            c = c1 * c2
            if not c:
                continue
            key = (m1, m2) if m1 <= m2 else (m2, m1)
            t = cache.get(key)
            if t is None:
                t = mon_mul(m1, m2)
            for m, k in t.items():
                v = out.get(m)
                nv = c * k if v is None else v + c * k
                if nv:
                    out[m] = nv
                elif v is not None:
                    del out[m]
    if len(out) > MAX_TERMS:
        raise Unsupported("polynomial with %d terms" % len(out))
    return out


MAX_TERMS = 60000


def p_add(p, q):
    if not p:
        return q
    if not q:
        return p
    if len(p) < len(q):
        p, q = q, p
    out = dict(p)
    for m, c in q.items():
        v = out.get(m)
        if v is None:
            out[m] = c
        else:
            v = v + c
            if v:
                out[m] = v
            else:
                del out[m]
    return out


def p_scale(p, c):
    if not c:
        return {}
    if c == 1:
        return p
    return {m: k * c for m, k in p.items()}


def p_key(p):
    return frozenset(p.items())


# ---------------------------------------------------------------------------


def to_z3_real(p):
    """z3 term of the (real coefficient) polynomial p."""
    terms = []
    for m, c in sorted(p.items(), key=lambda t: t[0]):
        if type(c) is G:
            raise Unsupported("complex polynomial in real position")
        fs = []
        for a, e in m:
            at = SPACE.atoms[a]
            if e > 0:
                fs.extend([at.z] * e)
            else:
                if at.zinv is None:
                    at.zinv = z3.Real("inv!" + at.name)
                fs.extend([at.zinv] * (-e))
        cz = z3.RealVal(str(c)) if c != 1 or not fs else None
        if cz is not None:
            fs = [cz] + fs
        t = fs[0]
        if len(fs) > 1:
            t = z3.Product(fs)
        terms.append(t)
    if not terms:
        return z3.RealVal(0)
    if len(terms) == 1:
        return terms[0]
    return z3.Sum(terms)


def p_re(p):
    out = {}
    for m, c in p.items():
        r = c_re(c)
        if r:
            out[m] = r
    return out


def p_im(p):
    out = {}
    for m, c in p.items():
        r = c_im(c)
        if r:
            out[m] = r
    return out


def p_conj(p):
    return {m: c_conj(c) for m, c in p.items()}


def p_is_real(p):
    for c in p.values():
        if type(c) is G:
            return False
    return True


def p_atoms(p, acc=None):
    acc = set() if acc is None else acc
    for m in p:
        for a, _ in m:
            acc.add(a)
    return acc


# ---------------------------------------------------------------------------
# booleans


class SymBool:
    """A symbolic truth value; ``bool()`` forks the current path."""
    __slots__ = ("z", "atoms")
    __array_priority__ = 2000

    def __init__(self, z, atoms):
        self.z = z
        self.atoms = frozenset(atoms)

    def __bool__(self):
        return CTX.branch(self)

    def __invert__(self):
        return SymBool(z3.Not(self.z), self.atoms)

    def logical_not(self):
        return ~self

    def __and__(self, o):
        return b_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        o = as_b(o)
        if isinstance(o, bool):
            return ~self if o else self
        return SymBool(z3.Xor(self.z, o.z), self.atoms | o.atoms)

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SymBool)):
            return b_not(self ^ o)
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (bool, np.bool_, SymBool)):
            return self ^ o
        return NotImplemented

    def __hash__(self):
        return hash(self.z)

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def _num(self):
        return 1 if bool(self) else 0

    def __add__(self, o):
        return self._num() + (o._num() if isinstance(o, SymBool) else o)

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * (o._num() if isinstance(o, SymBool) else o)

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - (o._num() if isinstance(o, SymBool) else o)

    def __rsub__(self, o):
        return o - self._num()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return _fetch, (_keep(self),)

    def __repr__(self):
        return "SymBool(%s)" % self.z


def as_b(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, S):
        return b_not(x == 0)
    return bool(x)


def b_not(x):
    if isinstance(x, SymBool):
        return ~x
    return not x


def b_and(a, b):
    a, b = as_b(a), as_b(b)
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return SymBool(z3.And(a.z, b.z), a.atoms | b.atoms)


def b_or(a, b):
    a, b = as_b(a), as_b(b)
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return SymBool(z3.Or(a.z, b.z), a.atoms | b.atoms)


def b_all(xs):
    out = True
    zs, at = [], set()
    for x in xs:
        x = as_b(x)
        if x is False:
            return False
        if x is True:
            continue
        zs.append(x.z)
        at |= x.atoms
    if not zs:
        return True
    return SymBool(z3.And(*zs) if len(zs) > 1 else zs[0], at)


def b_any(xs):
    return b_not(b_all([b_not(as_b(x)) for x in xs]))


class _NoCtx:
    def branch(self, b):
        raise Unsupported("branch on a symbolic value outside of a run")


CTX = _NoCtx()


def set_ctx(c):
    global CTX
    CTX = c


def ctx():
    return CTX


# ---------------------------------------------------------------------------
# scalars

_NUM = (int, float, complex, Fraction, np.number, np.bool_)


def coef_of(x):
    t = x.__class__
    if t is int or t is Fraction:
        return x
    if t is bool:
        return int(x)
    if t is float:
        return snap(x)
    if t is complex:
        return mkc(snap(x.real), snap(x.imag))
    if isinstance(x, (np.integer, np.bool_)):
        return int(x)
    if isinstance(x, np.floating):
        return snap(float(x))
    if isinstance(x, np.complexfloating):
        x = complex(x)
        return mkc(snap(x.real), snap(x.imag))
    if isinstance(x, numbers.Integral):
        return int(x)
    if isinstance(x, numbers.Rational):
        return Fraction(x)
    raise TypeError(type(x))


class _NonFinite(Exception):
    pass


_KEPT = {}


def _keep(x):
    """Pickled symbolic values are references into this process."""
    key = (os.getpid(), len(_KEPT))
    _KEPT[key] = x
    return key


def _fetch(key):
    if key not in _KEPT:
        raise Unsupported("symbolic value pickled in another process")
    return _KEPT[key]


class S:
    """Symbolic scalar. ``c``: value has complex *type* (not value)."""
    __slots__ = ("p", "c", "_k")
    __array_priority__ = 2000

    def __init__(self, p, c=False):
        self.p = p
        self.c = c
        self._k = None

    # -- construction
    @staticmethod
    def lift(x):
        if isinstance(x, S):
            return x
        if isinstance(x, SymBool):
            return S({ONE: 1} if bool(x) else {}, False)
        if isinstance(x, float) or isinstance(x, np.floating):
            if math.isinf(x) or math.isnan(x):
                return special(float(x))
        c = coef_of(x)
        return S({ONE: c} if c else {},
                 isinstance(x, (complex, np.complexfloating)))

    def typed(self, c):
        if self.c == c:
            return self
        return S(self.p, c)

    # -- inspection
    def is_const(self):
        p = self.p
        return not p or (len(p) == 1 and ONE in p)

    def const(self):
        return self.p.get(ONE, 0)

    def key(self):
        if self._k is None:
            self._k = p_key(self.p)
        return self._k

    def atoms(self):
        return p_atoms(self.p)

    def is_real_valued(self):
        return p_is_real(self.p)

    # -- arithmetic
    def _bin(self, o, f):
        if type(o) is S:
            return f(self, o)
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, SymBool):
            return f(self, S.lift(o))
        if isinstance(o, _NUM):
            return f(self, S.lift(o))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, s_add)

    def __radd__(self, o):
        return self._bin(o, s_add)

    def __sub__(self, o):
        return self._bin(o, s_sub)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: s_sub(b, a))

    def __mul__(self, o):
        return self._bin(o, s_mul)

    def __rmul__(self, o):
        return self._bin(o, s_mul)

    def __truediv__(self, o):
        return self._bin(o, s_div)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: s_div(b, a))

    def __floordiv__(self, o):
        return s_floor(s_div(self, S.lift(o)))

    def __rfloordiv__(self, o):
        return s_floor(s_div(S.lift(o), self))

    def __mod__(self, o):
        o = S.lift(o)
        return self - o * s_floor(s_div(self, o))

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __rmod__(self, o):
        return S.lift(o) % self

    def __neg__(self):
        return S({m: -c for m, c in self.p.items()}, self.c)

    def __pos__(self):
        return self

    def __pow__(self, e):
        return s_pow(self, e)

    def __rpow__(self, b):
        return s_pow(S.lift(b), self)

    def __abs__(self):
        return s_abs(self)

    def conjugate(self):
        return S(p_conj(self.p), self.c) if self.c else self

    conj = conjugate

    @property
    def real(self):
        return S(p_re(self.p), False)

    @property
    def imag(self):
        return S(p_im(self.p), False)

    # numpy scalar look-alikes
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        return np.dtype(complex if self.c else float)

    @property
    def T(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt, copy=True):
        from . import npshim
        return npshim.cast_scalar(self, npshim.tag_of_dtype(dt))

    def flatten(self):
        from . import npshim
        return npshim.wrap_list([self])

    ravel = flatten

    def reshape(self, *shape):
        from . import npshim
        return npshim.wrap_list([self]).reshape(*shape)

    def squeeze(self):
        return self

    def sum(self, *a, **k):
        return self

    def mean(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    max = min

    def is_integer(self):
        return self.is_const() and type(self.const()) is int

    def __getitem__(self, idx):
        if idx == () or idx is Ellipsis:
            return self
        raise IndexError("invalid index to scalar variable.")

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npshim
        return npshim.sym_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import npshim
        return npshim.call_np(func, args, kwargs)

    # -- comparison
    def __eq__(self, o):
        return s_cmp(self, o, "==")

    def __ne__(self, o):
        return s_cmp(self, o, "!=")

    def __lt__(self, o):
        return s_cmp(self, o, "<")

    def __le__(self, o):
        return s_cmp(self, o, "<=")

    def __gt__(self, o):
        return s_cmp(self, o, ">")

    def __ge__(self, o):
        return s_cmp(self, o, ">=")

    def __hash__(self):
        if self.is_const():
            c = self.const()
            if type(c) is G:
                return hash(complex(c.re, c.im))
            return hash(c)
        return hash(self.key())

    def __bool__(self):
        return bool(self != 0)

    # -- conversion
    def __float__(self):
        if self.is_const() and not type(self.const()) is G:
            return float(self.const())
        raise Unsupported("float() of a symbolic value")

    def __complex__(self):
        if self.is_const():
            return complex(c_complex(self.const()))
        raise Unsupported("complex() of a symbolic value")

    def __int__(self):
        if self.is_const() and not type(self.const()) is G:
            return int(self.const())
        return concretize_int(s_trunc(self))

    def __index__(self):
        c = self.const()
        if self.is_const() and type(c) is int:
            raise TypeError("'float' object cannot be interpreted as an "
                            "integer")
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __round__(self, n=None):
        if self.is_const():
            return S.lift(round(self.const(), n)) if n else \
                int(round(self.const()))
        raise Unsupported("round() of a symbolic value")

    def __ceil__(self):
        return s_ceil(self)

    def __floor__(self):
        return s_floor(self)

    def sqrt(self):
        return s_sqrt(self)

    def exp(self):
        return s_exp(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __format__(self, spec):
        return repr(self)

    def __repr__(self):
        return "S<%s>" % p_str(self.p)

    __str__ = __repr__

    def __reduce__(self):
        return _fetch, (_keep(self),)

    # -- formal derivative with respect to a real input atom
    def diff(self, var):
        if isinstance(var, S):
            (m,) = var.p
            ((var, _),) = m
        out = S({}, self.c)
        acc = {}
        for m, c in self.p.items():
            for i, (a, e) in enumerate(m):
                da = atom_diff(a, var)
                if not da.p:
                    continue
                rest = list(m)
                if e == 1:
                    rest.pop(i)
                else:
                    rest[i] = (a, e - 1)
                acc = p_add(acc, p_mul({tuple(rest): c * e}, da.p))
        out.p = acc
        return out

    def evalf(self, asg):
        """Floating point value under an assignment of the inputs."""
        tot = 0.0
        for m, c in self.p.items():
            v = c_complex(c)
            for a, e in m:
                v = v * eval_atom(a, asg) ** e
            tot = tot + v
        return tot


class Special:
    """inf / nan constants; absorb arithmetic like IEEE values."""


def special(x):
    return x


def p_str(p):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items(), key=lambda t: t[0])[:12]:
        s = "*".join(SPACE.atoms[a].name + ("^%d" % e if e != 1 else "")
                     for a, e in m)
        out.append((str(c) + ("*" + s if s else "")) if c != 1 or not s
                   else s)
    if len(p) > 12:
        out.append("...%d terms" % len(p))
    return " + ".join(out)


def atom_diff(a, var):
    if a == var:
        return S({ONE: 1})
    at = SPACE.atoms[a]
    if at.kind == "in":
        return S({})
    if at.dfun is None:
        if var in closure([a]):
            raise Unsupported("derivative of atom " + at.kind)
        return S({})
    return at.dfun(var)


def closure(ids):
    seen = set()
    stack = list(ids)
    while stack:
        a = stack.pop()
        if a in seen:
            continue
        seen.add(a)
        stack.extend(SPACE.atoms[a].deps)
    return seen


def eval_atom(a, asg):
    cache = asg.cache
    v = cache.get(a)
    if v is None:
        at = SPACE.atoms[a]
        if at.kind == "in":
            v = float(asg.values[at.name])
        elif at.evalf is None:
            raise Unsupported("no evaluation for atom kind " + at.kind)
        else:
            v = at.evalf(asg)
        cache[a] = v
    return v


class Assignment:
    def __init__(self, values):
        self.values = values
        self.cache = {}
        self.extra = {}


def is_inf(x):
    return isinstance(x, (float, np.floating)) and \
        (math.isinf(x) or math.isnan(x))


def s_add(a, b):
    if not isinstance(a, S) or not isinstance(b, S):
        return _spec_arith(a, b, lambda x, y: x + y)
    return S(p_add(a.p, b.p), a.c or b.c)


def s_sub(a, b):
    if not isinstance(a, S) or not isinstance(b, S):
        return _spec_arith(a, b, lambda x, y: x - y)
    return S(p_add(a.p, {m: -c for m, c in b.p.items()}), a.c or b.c)


def s_mul(a, b):
    if not isinstance(a, S) or not isinstance(b, S):
        return _spec_arith(a, b, lambda x, y: x * y)
    if not a.p or not b.p:
        return S({}, a.c or b.c)
    return S(p_mul(a.p, b.p), a.c or b.c)


def _spec_arith(a, b, f):
    # one operand is +-inf or nan
    if isinstance(a, S):
        if a.is_const():
            return f(c_complex(a.const()), b)
        return _spec_free(lambda x: f(x, b))
    if isinstance(b, S):
        if b.is_const():
            return f(a, c_complex(b.const()))
        return _spec_free(lambda x: f(a, x))
    return f(a, b)


def _spec_free(f):
    """f of a symbolic value, if it is the same for all of them."""
    r = f(1.0)
    if r != r:
        return r
    if f(0.0) == r == f(-1.0):
        return r
    raise Unsupported("infinity times a symbolic value")


def s_div(a, b):
    if not isinstance(a, S) or not isinstance(b, S):
        if isinstance(a, S) and not isinstance(b, S) and not math.isnan(b):
            return S({}, a.c)
        return _spec_arith(a, b, lambda x, y: x / y)
    if not b.p:
        # IEEE: x/0 is inf or nan, never an exception for numpy scalars
        if a.is_const() and not a.p:
            return float("nan")
        return float("inf")
    if len(b.p) == 1:
        (m, c), = b.p.items()
        if type(c) is G or True:
            ok = True
            for at, e in m:
                A = SPACE.atoms[at]
                if A.sq is not None:
                    ok = False
            if ok:
                if m:
                    CTX.require_nonzero(b)
                inv = {tuple((x, -e) for x, e in m): c_inv(c)}
                return S(p_mul(a.p, inv), a.c or b.c)
            if len(m) == 1 and SPACE.atoms[m[0][0]].kind == "sqrt":
                # 1/s = s/s^2
                CTX.require_nonzero(b)
                sq = S(SPACE.atoms[m[0][0]].sq)
                num = S(p_mul(a.p, {m: c_inv(c)}), a.c or b.c)
                return s_div(num, sq).typed(a.c or b.c)
            plain_ = tuple((x, e) for x, e in m
                           if SPACE.atoms[x].sq is None)
            roots = [(x, e) for x, e in m if SPACE.atoms[x].sq is not None]
            if all(SPACE.atoms[x].kind == "sqrt" and e == 1
                   for x, e in roots):
                CTX.require_nonzero(b)
                out = s_div(a, S({plain_: c}))
                for x, e in roots:
                    out = s_div(out, S({((x, 1),): 1}))
                return out.typed(a.c or b.c)
    CTX.require_nonzero(b)
    if not p_is_real(b.p):
        # a / b = a conj(b) / |b|^2
        bc = S(p_conj(b.p), True)
        return s_div(s_mul(a, bc), S(p_mul(b.p, bc.p), False)).typed(True)
    # exact division when b divides as a scalar multiple
    q = scalar_multiple(a.p, b.p)
    if q is not None:
        return S({ONE: q} if q else {}, a.c or b.c)
    lead = min(b.p)
    lc = b.p[lead]
    monic = {m: c * c_inv(lc) for m, c in b.p.items()}
    r = inv_atom(monic)
    return S(p_mul(a.p, {((r, 1),): c_inv(lc)}), a.c or b.c)


def scalar_multiple(p, q):
    if len(p) != len(q):
        return None
    ratio = None
    for m, c in p.items():
        d = q.get(m)
        if d is None:
            return None
        r = c * c_inv(d)
        if ratio is None:
            ratio = r
        elif ratio != r:
            return None
    return ratio


def real_eval(x, asg):
    v = x.evalf(asg)
    return v.real if isinstance(v, complex) else v


def inv_atom(p):
    k = p_key(p)
    a, new = SPACE.atom("inv", k)
    if new:
        q = S(dict(p))
        a.deps = tuple(p_atoms(p))
        a.info = dict(p)
        a.facts.append(lambda: a.z * to_z3_real(p) == 1)
        a.evalf = lambda asg: 1.0 / real_eval(q, asg)
        me = S({((a.id, 1),): 1})
        a.dfun = lambda v: -(me * me) * q.diff(v)
    return a.id


def s_pow(b, e):
    b = S.lift(b)
    if isinstance(e, (float, np.floating)) and e == int(e):
        e = int(e)
    if not isinstance(b, S):
        if isinstance(e, S):
            if not e.is_const():
                if b != b:
                    return b
                raise Unsupported("symbolic exponent")
            e = float(e.const())
        return b ** e
    if isinstance(e, S):
        if e.is_const() and not type(e.const()) is G:
            e = e.const()
        else:
            if b.is_const():
                c = b.const()
                if c == 2 or (not type(c) is G and c > 0):
                    return s_exp(e * s_log(b))
            raise Unsupported("symbolic exponent")
    if isinstance(e, (np.integer,)):
        e = int(e)
    if isinstance(e, (float, np.floating)):
        e = snap(e)
    if isinstance(e, complex):
        raise Unsupported("complex exponent")
    if isinstance(e, Fraction) and e.denominator == 1:
        e = int(e)
    if isinstance(e, int):
        if e < 0:
            return s_div(S.lift(1), s_pow(b, -e))
        out = S({ONE: 1}, b.c)
        for _ in range(e):
            out = out * b
        return out
    if isinstance(e, Fraction):
        if e.denominator == 2:
            s = s_sqrt(b)
            n = e.numerator
            return s_pow(s, n)
        return s_exp(S.lift(e) * s_log(b))
    return NotImplemented


# -- elementary functions ----------------------------------------------------


def in_atom(name):
    a, new = SPACE.atom("in", name, name)
    return S({((a.id, 1),): 1})


def is_square(n):
    r = math.isqrt(n)
    return r if r * r == n else None


def s_sqrt(x):
    x = S.lift(x)
    if not isinstance(x, S):
        return x
    if not p_is_real(x.p):
        raise Unsupported("complex square root")
    if not x.p:
        return S({}, x.c)
    if x.is_const():
        c = Fraction(x.const())
        if c < 0:
            if x.c:
                return s_sqrt(-x) * S.lift(1j)
            return float("nan")
        # sqrt(n/d) = sqrt(n*d)/d with square factors removed
        n = c.numerator * c.denominator
        f = 1
        k = 2
        while k * k <= n and k < 10000:
            while n % (k * k) == 0:
                n //= k * k
                f *= k
            k += 1
        r = is_square(n)
        if r is not None:
            return S({ONE: norm_frac(Fraction(r * f, c.denominator))}, x.c)
        a = sqrt_atom({ONE: n})
        return S({((a, 1),): norm_frac(Fraction(f, c.denominator))}, x.c)
    # perfect squares of monomials: sqrt(m^2) = |m|
    if len(x.p) == 1:
        (m, c), = x.p.items()
        if all(e % 2 == 0 for _, e in m) and c > 0:
            r = s_sqrt(S({ONE: c}))
            half = S({tuple((a, e // 2) for a, e in m): 1})
            return (r * s_abs(half)).typed(x.c)
    # pull out the content so that sqrt(4p) = 2 sqrt(p)
    lead = min(x.p)
    lc = x.p[lead]
    if lc < 0:
        lc = -lc
    if lc != 1:
        r = s_sqrt(S({ONE: lc}))
        return (r * s_sqrt(S(p_scale(x.p, c_inv(lc))))).typed(x.c)
    CTX.require_nonneg(x)
    a = sqrt_atom(x.p)
    return S({((a, 1),): 1}, x.c)


def sqrt_atom(p):
    k = p_key(p)
    a, new = SPACE.atom("sqrt", k)
    if new:
        q = S(dict(p))
        a.deps = tuple(p_atoms(p))
        a.sq = dict(p)
        a.facts.append(lambda: z3.And(a.z >= 0, a.z * a.z == to_z3_real(p)))
        a.evalf = lambda asg: math.sqrt(max(real_eval(q, asg), 0.0))
        me = S({((a.id, 1),): 1})
        a.dfun = lambda v: s_div(q.diff(v), 2 * me)
    return a.id


def s_abs(x):
    x = S.lift(x)
    if not isinstance(x, S):
        return abs(x)
    if p_is_real(x.p):
        if x.is_const():
            return S({ONE: abs(x.const())} if x.p else {}, False)
        if len(x.p) == 1:
            (m, c), = x.p.items()
            if all(e % 2 == 0 or SPACE.atoms[a].positive for a, e in m):
                return S({m: abs(c)}, False)
        # |x|: canonical sign
        lead = min(x.p)
        p = x.p if x.p[lead] > 0 else {m: -c for m, c in x.p.items()}
        lc = p[lead]
        if lc != 1:
            return S({ONE: lc}) * s_abs(S(p_scale(p, c_inv(lc))))
        k = p_key(p)
        a, new = SPACE.atom("abs", k)
        if new:
            q = S(dict(p))
            a.deps = tuple(p_atoms(p))
            a.sq = p_mul(p, p)
            a.facts.append(lambda: z3.And(
                a.z >= 0, z3.Or(a.z == to_z3_real(p),
                                a.z == -to_z3_real(p))))
            a.evalf = lambda asg: abs(real_eval(q, asg))
            me = S({((a.id, 1),): 1})
            a.dfun = lambda v: s_div(q * q.diff(v), me)
        return S({((a.id, 1),): 1})
    n2 = S(p_mul(x.p, p_conj(x.p)), False)
    n2 = S(p_re(n2.p), False)
    return s_sqrt(n2)


def s_abs2(x):
    return S(p_re(p_mul(x.p, p_conj(x.p))), False)


def s_exp(x):
    """exp of a complex polynomial: product over monomials."""
    x = S.lift(x)
    if not isinstance(x, S):
        return math.exp(x)
    out = S({ONE: 1}, x.c)
    for m, c in sorted(x.p.items(), key=lambda t: t[0]):
        re, im = c_re(c), c_im(c)
        if re:
            out = out * exp_real(m, re)
        if im:
            co, si = cis_mono(m, im)
            out = out * (co + si * S.lift(1j))
    return out.typed(x.c)


def split_coef(c):
    """c = n * (1/d): powers of the base atom for 1/d."""
    f = Fraction(c)
    return f.numerator, f.denominator


def exp_real(m, c):
    n, d = split_coef(c)
    if abs(n) > 12:
        n, d = (1 if n > 0 else -1), Fraction(d, abs(n))
    a, new = SPACE.atom("exp", (m, d))
    if new:
        arg = S({m: norm_frac(Fraction(1) / d)})
        a.deps = tuple(p_atoms(arg.p))
        a.positive = True
        a.facts.append(lambda: z3.And(
            a.z > 0, a.z >= 1 + to_z3_real(arg.p)))
        a.evalf = lambda asg: math.exp(real_eval(arg, asg))
        me = S({((a.id, 1),): 1})
        a.dfun = lambda v: me * arg.diff(v)
    return S({((a.id, n),): 1})


def pi_multiple(m, c):
    """exact cos/sin of rational multiples of pi where algebraic."""
    at = SPACE.by_key.get(("const", "pi"))
    if at is None or m != ((at.id, 1),):
        return None
    f = Fraction(c) % 2
    tab = {}
    h = Fraction(1, 2)
    s2 = s_sqrt(S.lift(2)) * h
    s3 = s_sqrt(S.lift(3)) * h
    one, zero, half = S.lift(1), S.lift(0), S.lift(h)
    for k, cs in ((Fraction(0), (one, zero)), (Fraction(1, 6), (s3, half)),
                  (Fraction(1, 4), (s2, s2)), (Fraction(1, 3), (half, s3)),
                  (h, (zero, one))):
        tab[k] = cs
    q, r = divmod(f, h)
    if r not in tab:
        return None
    co, si = tab[r]
    for _ in range(int(q)):
        co, si = -si, co
    return co, si


def cis_mono(m, c):
    r = pi_multiple(m, c)
    if r is not None:
        return r
    n, d = split_coef(c)
    neg = n < 0
    n = abs(n)
    if n > 12:
        n, d = 1, Fraction(d, n)
    inner = SPACE.arccos.get(m[0][0]) if len(m) == 1 and m[0][1] == 1 \
        and d == 1 else None
    if inner is not None:
        return _multiple(inner, s_sqrt(1 - inner * inner), n, neg)
    ca, new = SPACE.atom("cos", (m, d))
    sa, new2 = SPACE.atom("sin", (m, d))
    co = S({((ca.id, 1),): 1})
    si = S({((sa.id, 1),): 1})
    if new:
        arg = S({m: norm_frac(Fraction(1) / d)})
        deps = tuple(p_atoms(arg.p))
        ca.deps = deps + (sa.id,)
        sa.deps = deps + (ca.id,)
        sa.sq = {ONE: 1, ((ca.id, 2),): -1}
        fact = lambda: ca.z * ca.z + sa.z * sa.z == 1
        ca.facts.append(fact)
        ca.evalf = lambda asg: math.cos(real_eval(arg, asg))
        sa.evalf = lambda asg: math.sin(real_eval(arg, asg))
        ca.dfun = lambda v: -si * arg.diff(v)
        sa.dfun = lambda v: co * arg.diff(v)
    return _multiple(co, si, n, neg)


def _multiple(co, si, n, neg):
    rc, rs = S({ONE: 1}), S({})
    for _ in range(n):
        rc, rs = rc * co - rs * si, rc * si + rs * co
    if neg:
        rs = -rs
    return rc, rs


def s_cos(x):
    x = S.lift(x)
    rc, rs = _cis(x)
    return rc


def s_sin(x):
    x = S.lift(x)
    rc, rs = _cis(x)
    return rs


def _cis(x):
    if not p_is_real(x.p):
        raise Unsupported("complex trigonometric argument")
    rc, rs = S({ONE: 1}), S({})
    for m, c in sorted(x.p.items(), key=lambda t: t[0]):
        co, si = cis_mono(m, c)
        rc, rs = rc * co - rs * si, rc * si + rs * co
    return rc, rs


def pi():
    a, new = SPACE.atom("const", "pi", "pi")
    if new:
        a.facts.append(lambda: z3.And(a.z > z3.RealVal("3.14159265"),
                                      a.z < z3.RealVal("3.14159266")))
        a.evalf = lambda asg: math.pi
        a.positive = True
    return S({((a.id, 1),): 1})


def uf(name, args, evalf, dargs=None, facts=None, positive=False):
    """Uninterpreted real function of real arguments.

    evalf: numeric function; dargs: list of callables giving the partial
    derivative terms (S) given the arguments; facts(z, zargs)."""
    args = [S.lift(x) for x in args]
    for x in args:
        if not p_is_real(x.p):
            raise Unsupported("complex argument of " + name)
    a, new = SPACE.atom("uf:" + name, tuple(x.key() for x in args))
    me = S({((a.id, 1),): 1})
    if new:
        deps = set()
        for x in args:
            deps |= x.atoms()
        a.deps = tuple(deps)
        a.positive = positive
        a.info = ("cong", name, tuple(x.key() for x in args),
                  [x.p for x in args])
        a.evalf = lambda asg: float(evalf(*[real_eval(x, asg)
                                            for x in args]))
        if dargs is not None:
            def dfun(v):
                tot = S({})
                for x, d in zip(args, dargs):
                    dx = x.diff(v)
                    if dx.p:
                        tot = tot + d(*args) * dx
                return tot
            a.dfun = dfun
        if facts is not None:
            a.facts.append(lambda: facts(a.z, *[to_z3_real(x.p)
                                                for x in args]))
        if args and all(x.is_const() for x in args):
            # numeric enclosure of a constant
            v = float(evalf(*[float(x.const()) for x in args]))
            if math.isfinite(v):
                e = Fraction(1, 10 ** 9) * (1 + abs(int(v)))
                lo, hi = Fraction(v) - e, Fraction(v) + e
                a.facts.append(lambda: z3.And(
                    a.z >= z3.RealVal(str(lo)), a.z <= z3.RealVal(str(hi))))
                if lo > 0:
                    a.positive = True
    return me


def s_log(x):
    x = S.lift(x)
    if x.is_const() and x.const() == 1:
        return S({})
    CTX.require_positive(x)
    return uf("log", [x], math.log, [lambda a: 1 / a])


def s_log2(x):
    x = S.lift(x)
    if x.is_const() and not type(x.const()) is G and x.const() > 0:
        f = Fraction(x.const())
        n = f.numerator.bit_length() - 1
        d = f.denominator.bit_length() - 1
        if f == Fraction(2) ** (n - d):
            return S.lift(n - d)
        # the value only feeds ceil/floor in practice
        v = math.log2(f)
        return uf("log2", [x], math.log2,
                  facts=lambda z, y: z3.And(
                      z > z3.RealVal(repr(v - 1e-9)),
                      z < z3.RealVal(repr(v + 1e-9))))
    return s_log(x) / s_log(S.lift(2))


def s_floor(x):
    x = S.lift(x)
    if not isinstance(x, S):
        return math.floor(x)
    if x.is_const():
        return S.lift(math.floor(x.const()))
    k = CTX.int_between(x, "floor")
    return S.lift(k)


def s_ceil(x):
    return -s_floor(-S.lift(x))


def s_trunc(x):
    if bool(x >= 0):
        return s_floor(x)
    return s_ceil(x)


def concretize_int(x):
    if x.is_const():
        return int(x.const())
    raise Unsupported("int of a symbolic value")


def s_sign(x):
    x = S.lift(x)
    if bool(x > 0):
        return S.lift(1)
    if bool(x < 0):
        return S.lift(-1)
    return S.lift(0)


def s_arccos(x):
    x = S.lift(x)
    if x.is_const():
        c = x.const()
        if c == 1:
            return S({})
        if c == 0:
            return pi() * Fraction(1, 2)
        if c == -1:
            return pi()
    lead = min(x.p)
    if c_re(x.p[lead]) < 0:
        return pi() - s_arccos(-x)
    pz = to_z3_real(pi().p)
    r = uf("arccos", [x], lambda v: math.acos(max(-1, min(1, v))),
           [lambda a: -1 / s_sqrt(1 - a * a)],
           facts=lambda z, y: z3.And(
               z >= 0, z <= pz, (2 * z < pz) == (y > 0),
               (2 * z > pz) == (y < 0), (z == 0) == (y >= 1),
               (z == pz) == (y <= -1)))
    (m,) = r.p
    SPACE.arccos[m[0][0]] = x
    return r


def s_arcsin(x):
    return pi() * Fraction(1, 2) - s_arccos(x)


def s_erf(x):
    x = S.lift(x)
    if x.is_const() and not x.p:
        return S({})
    from scipy import special as sps
    # odd function: canonical sign
    lead = min(x.p)
    if c_re(x.p[lead]) < 0:
        return -s_erf(-x)
    if len(x.p) == 1 and len(lead) == 1 and lead[0][1] == 1 and \
            x.p[lead] == 1:
        inner = SPACE.erfinv.get(lead[0][0])
        if inner is not None:
            return inner
    return uf("erf", [x], sps.erf,
              [lambda a: 2 / s_sqrt(pi()) * s_exp(-a * a)],
              facts=lambda z, y: z3.And(z > -1, z < 1,
                                        z3.Implies(y > 0, z > 0),
                                        z3.Implies(y < 0, z < 0)))


def s_erfinv(x):
    x = S.lift(x)
    if x.is_const() and not x.p:
        return S({})
    from scipy import special as sps
    lead = min(x.p)
    if c_re(x.p[lead]) < 0:
        return -s_erfinv(-x)
    r = uf("erfinv", [x], sps.erfinv,
           [lambda a: s_sqrt(pi()) / 2 * s_exp(s_erfinv(a) * s_erfinv(a))],
           facts=lambda z, y: z3.And(z3.Implies(y > 0, z > 0),
                                     z3.Implies(y < 0, z < 0)))
    (m,) = r.p
    SPACE.erfinv[m[0][0]] = x
    return r


def s_tanh(x):
    x = S.lift(x)
    e = s_exp(2 * x)
    return (e - 1) / (e + 1)


def s_cosh(x):
    x = S.lift(x)
    return (s_exp(x) + s_exp(-x)) / 2


def s_sinh(x):
    x = S.lift(x)
    return (s_exp(x) - s_exp(-x)) / 2


def s_angle(x):
    x = S.lift(x)
    return uf("atan2", [x.imag, x.real], math.atan2)


def s_arctan2(y, x):
    return uf("atan2", [y, x], math.atan2)


# -- comparisons --------------------------------------------------------------


def s_cmp(a, b, op):
    if isinstance(b, np.ndarray):
        return NotImplemented
    if isinstance(b, SymBool):
        b = S.lift(b)
    if not isinstance(b, S):
        if isinstance(b, _NUM):
            b = S.lift(b)
        else:
            if op in ("==", "!="):
                return NotImplemented
            return NotImplemented
    if not isinstance(b, S):  # inf / nan
        if math.isnan(b):
            return op == "!="
        pos = b > 0
        return {"==": False, "!=": True, "<": pos, "<=": pos,
                ">": not pos, ">=": not pos}[op]
    d = p_add(a.p, {m: -c for m, c in b.p.items()})
    if op in ("==", "!="):
        if not d:
            return op == "=="
        if len(d) == 1 and ONE in d:
            return op == "!="
        re, im = p_re(d), p_im(d)
        if (len(re) == 1 and ONE in re) or (len(im) == 1 and ONE in im):
            return op == "!="
        cs = []
        if re:
            cs.append(to_z3_real(re) == 0)
        if im:
            cs.append(to_z3_real(im) == 0)
        z = z3.And(*cs) if len(cs) > 1 else cs[0]
        if op == "!=":
            z = z3.Not(z)
        return SymBool(z, p_atoms(d))
    re = p_re(d) if not p_is_real(d) else d
    if not p_is_real(d):
        if not (len(a.p) and len(b.p)) or True:
            # numpy orders complex numbers lexicographically
            im = p_im(d)
            lt_re, eq_re = to_z3_real(re), to_z3_real(im)
            zz = {"<": z3.Or(lt_re < 0, z3.And(lt_re == 0, eq_re < 0)),
                  "<=": z3.Or(lt_re < 0, z3.And(lt_re == 0, eq_re <= 0)),
                  ">": z3.Or(lt_re > 0, z3.And(lt_re == 0, eq_re > 0)),
                  ">=": z3.Or(lt_re > 0, z3.And(lt_re == 0, eq_re >= 0))}[op]
            return SymBool(zz, p_atoms(d))
    if not re:
        return op in ("<=", ">=")
    if len(re) == 1 and ONE in re:
        c = re[ONE]
        return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]
    t = to_z3_real(re)
    z = {"<": t < 0, "<=": t <= 0, ">": t > 0, ">=": t >= 0}[op]
    return SymBool(z, p_atoms(re))


def clear_inverses(x, y):
    """Multiply both sides of x == y by the inverted polynomials.

    Equivalent because every inverse atom r comes with the fact r * P == 1.
    """
    atoms = SPACE.atoms
    while True:
        ids = [a for a in p_atoms(x) | p_atoms(y) if atoms[a].kind == "inv"]
        if not ids:
            return x, y
        r = max(ids)
        top = 0
        for p in (x, y):
            for m in p:
                for a, e in m:
                    if a == r and e > top:
                        top = e
        pw = [{ONE: 1}]
        for _ in range(top):
            pw.append(p_mul(pw[-1], atoms[r].info))
        out = []
        for p in (x, y):
            groups = {}
            for m, c in p.items():
                e = dict(m).get(r, 0)
                if e < 0:
                    return None
                m2 = tuple(t for t in m if t[0] != r)
                groups.setdefault(e, {})[m2] = c
            acc = {}
            for e, g in groups.items():
                acc = p_add(acc, p_mul(g, pw[top - e]))
            out.append(acc)
        x, y = out


def eq_bool(a, b):
    """Equality of two numbers as bool or SymBool (both sides kept)."""
    if not isinstance(a, S):
        a = S.lift(a)
    if not isinstance(b, S):
        b = S.lift(b)
    if not isinstance(a, S) or not isinstance(b, S):
        if isinstance(a, S) or isinstance(b, S):
            return False
        return a == b or (math.isnan(a) and math.isnan(b))
    cs = []
    for f in (p_re, p_im):
        x, y = f(a.p), f(b.p)
        if not x and not y:
            continue
        if x != y:
            try:
                cl = clear_inverses(x, y)
            except Unsupported:
                cl = None
            if cl is not None and cl[0] == cl[1]:
                x, y = cl
        cs.append(to_z3_real(x) == to_z3_real(y))
    if not cs:
        return SymBool(z3.BoolVal(True), ())
    return SymBool(z3.And(*cs) if len(cs) > 1 else cs[0],
                   a.atoms() | b.atoms())
