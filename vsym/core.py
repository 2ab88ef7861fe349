"""Symbolic reals, booleans and the path explorer.

A symbolic real (`Sym`) is an exact rational function over *atoms*: a canonical polynomial with
rational coefficients over a product of denominator factors known to be non-zero.  Atoms are solver
variables: inputs, and definitional atoms (square roots, floors, if-then-else, ...) whose defining
constraints travel with them into every query.
"""

from __future__ import annotations

import heapq
import math
import sys
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3
except ImportError:  # the solver's python bindings live outside the project's environment
    sys.path.append(_VT)
    import z3

    sys.path.remove(_VT)


class Unsupported(BaseException):
    """The engine cannot encode an operation (never swallowed by code under test)."""


class PathAbort(BaseException):
    """The current path is infeasible or outside the assumptions."""


class BudgetExceeded(BaseException):
    """Time or path budget used up."""


# ------------------------------------------------------------------------------------ constants
_SNAP_CACHE: dict[float, Fraction] = {}


def snap(x: float) -> Fraction:
    """Exact rational meant by a float: a small fraction if one is within 2 ulp, else its decimal repr."""
    r = _SNAP_CACHE.get(x)
    if r is None:
        r = Fraction(x)
        if r.denominator != 1:
            c = r.limit_denominator(5000)
            if abs(float(c) - x) <= 4.5e-16 * max(abs(x), 1e-3):
                r = c
            else:
                r = Fraction(repr(float(x)))
        _SNAP_CACHE[x] = r
    return r


def to_frac(x) -> Fraction:
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    return snap(float(x))


ONE = ()  # the empty monomial


def padd(a, b, kb=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * kb
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pscale(a, k):
    if k == 0:
        return {}
    return {m: c * k for m, c in a.items()}


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


class Engine:
    """State of one symbolic exploration (one harness unit)."""

    cur: "Engine | None" = None

    def __init__(self, time_budget=120.0, max_paths=400, seed=1):
        self.t0 = time.time()
        self.time_budget = time_budget
        self.max_paths = max_paths
        self.seed = seed
        self.stats = {
            "paths": 0,
            "decisions": 0,
            "queries": 0,
            "solver_s": 0.0,
            "unknown": 0,
            "normal_form": 0,
            "obligations": 0,
            "aborted": 0,
        }
        self.reset_path([])

    # ------------------------------------------------------------------ path state
    def reset_path(self, prefix):
        Engine.cur = self
        self.prefix = prefix
        self.trace = []  # list of [choice, alternatives_left]
        self.atoms = []  # index -> Atom
        self.by_key = {}
        self.constraints = []  # (z3 expr, frozenset(atom ids))
        self.solver = z3.Solver()
        self.lin = None
        self.nonlinear = False
        self.sent = []
        self.solver.set("timeout", 4000)
        self.solver.set("random_seed", self.seed % 1000)
        self.sent_atoms = set()
        self.nonzero = set()
        self.decided = {}
        self.dens = []
        self.den_keys = {}
        self.inputs = {}
        self.choices = {}
        self.tokens = {}
        self.token_of = {}
        self.ntok = 0
        self.sample_cache = None
        self.names = {}

    # ------------------------------------------------------------------ atoms
    def new_atom(self, kind, key, **kw):
        if key is not None and (kind, key) in self.by_key:
            return self.by_key[(kind, key)]
        a = Atom(len(self.atoms), kind, **kw)
        self.atoms.append(a)
        if key is not None:
            self.by_key[(kind, key)] = a
        self.sample_cache = None
        return a

    def closure(self, ids):
        seen = set()
        todo = list(ids)
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            todo.extend(self.atoms[i].deps)
        return seen

    def _send(self, ids):
        for i in self.closure(ids):
            if i not in self.sent_atoms:
                self.sent_atoms.add(i)
                for c in self.atoms[i].defs():
                    self.solver.add(c)
                    self.sent.append(c)

    def add_constraint(self, b):
        """Assert a SymBool (or z3 expr with atoms) on the current path."""
        self._send(b.atoms)
        self.solver.add(b.e)
        self.sent.append(b.e)
        self.constraints.append((b.e, frozenset(b.atoms)))
        self.sample_cache = None

    def check_time(self):
        if time.time() - self.t0 > self.time_budget:
            raise BudgetExceeded("time")

    def _check(self, *extra):
        self.check_time()
        t = time.time()
        r = self.solver.check(*extra)
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t
        return r

    def lin_unsat(self, e, timeout=700):
        """Does the linear relaxation already exclude e?  (False for linear paths: nothing is gained.)"""
        if not self.nonlinear:
            return False
        from vsym.lin import Lin

        if self.lin is None:
            self.lin = Lin(self)
        self.check_time()
        for c in self.sent:
            self.lin.add(c)
        self.sent = []
        t = time.time()
        r = self.lin.unsat(e, timeout=timeout)
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t
        return r

    def implied(self, b, timeout=1500):
        """Is b implied by the path?  True / False (not provably)."""
        if b is True or b is False:
            return b
        k = b.e.get_id()
        if k in self.decided:
            return self.decided[k]
        self._send(b.atoms)
        if self.lin_unsat(z3.Not(b.e)):
            return True
        self.solver.set("timeout", timeout)
        r = self._check(z3.Not(b.e))
        self.solver.set("timeout", 4000)
        return r == z3.unsat

    def quick_model(self):
        """A float assignment satisfying the path (None when the solver gives up)."""
        if self.sample_cache is None:
            self._send(range(len(self.atoms)))
            r = self._check()
            if r != z3.sat:
                return None
            self.sample_cache = self.solver.model()
        return self.sample_cache

    # ------------------------------------------------------------------ decisions
    def decide(self, b) -> bool:
        if isinstance(b, bool):
            return b
        e = b.e
        k = e.get_id()
        if k in self.decided:
            return self.decided[k]
        self.check_time()
        pos = len(self.trace)
        if pos < len(self.prefix):
            val, alts = self.prefix[pos]
            self.trace.append([val, alts])
        else:
            self._send(b.atoms)
            if self.lin_unsat(e):
                rt, rf = z3.unsat, z3.sat
            elif self.lin_unsat(z3.Not(e)):
                rt, rf = z3.sat, z3.unsat
            else:
                rt = self._check(e)
                if rt == z3.unsat:
                    rf = z3.sat
                else:
                    rf = self._check(z3.Not(e))
            if rt == z3.unsat and rf == z3.unsat:
                raise PathAbort()
            if rt == z3.unknown or rf == z3.unknown:
                self.stats["unknown"] += 1
            if rt == z3.unsat:
                val, alts = False, []
            elif rf == z3.unsat:
                val, alts = True, []
            else:
                val, alts = True, [False]
                self.stats["decisions"] += 1
            self.trace.append([val, alts])
        self.add_constraint(SymBool(e if val else z3.Not(e), b.atoms))
        self.decided[k] = val
        self._keep = getattr(self, "_keep", [])
        self._keep.append(e)
        return val

    def choose(self, name, n) -> int:
        """Nondeterministic choice of 0..n-1, explored exhaustively."""
        pos = len(self.trace)
        if pos < len(self.prefix):
            val, alts = self.prefix[pos]
        else:
            val, alts = 0, list(range(1, n))
            self.stats["decisions"] += n > 1
        self.trace.append([val, alts])
        self.choices[name] = val
        return val

    def next_prefix(self):
        tr = [[v, list(a)] for v, a in self.trace]
        while tr and not tr[-1][1]:
            tr.pop()
        if not tr:
            return None
        alts = tr[-1][1]
        tr[-1] = [alts[0], alts[1:]]
        return tr


class Atom:
    __slots__ = ("id", "kind", "var", "rv", "deps", "_defs", "square", "nonneg", "is_int", "name", "evalf", "lo", "hi", "unbounded")

    def __init__(self, id, kind, name=None, deps=(), defs=None, square=None, nonneg=False, is_int=False, evalf=None, lo=None, hi=None):
        self.id = id
        self.kind = kind
        self.name = name or f"{kind}{id}"
        self.is_int = is_int
        if is_int:
            self.var = z3.Int(self.name)
            self.rv = z3.ToReal(self.var)
        else:
            self.var = z3.Real(self.name)
            self.rv = self.var
        self.deps = tuple(deps)
        self._defs = defs  # callable(atom)->list of z3
        self.square = square  # poly replacing atom**2
        self.nonneg = nonneg
        self.evalf = evalf
        self.lo = lo
        self.hi = hi
        self.unbounded = False

    def defs(self):
        if self._defs is None:
            return []
        if callable(self._defs):
            self._defs = list(self._defs(self))
            if self.kind in ("floor", "round", "ite"):
                if self.lo is not None:
                    self._defs.append(self.rv >= _zval(Fraction(self.lo)))
                if self.hi is not None:
                    self._defs.append(self.rv <= _zval(Fraction(self.hi)))
        return self._defs


# ------------------------------------------------------------------------------------ polynomials
def reduce_mono(m, c, out):
    """Add c*m to out, rewriting squares of atoms that have a rule."""
    atoms = Engine.cur.atoms
    for idx, (a, e) in enumerate(m):
        if e >= 2 and atoms[a].square is not None:
            rest = m[:idx] + (((a, e - 2),) if e > 2 else ()) + m[idx + 1 :]
            for m2, c2 in atoms[a].square.items():
                reduce_mono(_mono_mul(rest, m2), c * c2, out)
            return
    v = out.get(m, 0) + c
    if v == 0:
        out.pop(m, None)
    else:
        out[m] = v


_MAXTERMS = 200000


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and ONE in a:
        return pscale(b, a[ONE])
    if len(b) == 1 and ONE in b:
        return pscale(a, b[ONE])
    if len(a) * len(b) > _MAXTERMS:
        raise Unsupported("expression too large")
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            reduce_mono(_mono_mul(m1, m2), c1 * c2, out)
    return out


def pkey(p):
    return frozenset(p.items())


def p_atoms(p):
    return {a for m in p for a, _ in m}


def ppow(p, n):
    r = {ONE: Fraction(1)}
    for _ in range(n):
        r = pmul(r, p)
    return r


def _zval(c: Fraction):
    if c.denominator == 1:
        return z3.RealVal(c.numerator)
    return z3.Q(c.numerator, c.denominator)


def p_z3(p):
    atoms = Engine.cur.atoms
    terms = []
    for m, c in p.items():
        fs = []
        for a, e in m:
            fs.extend([atoms[a].rv] * e)
        if not fs:
            terms.append(_zval(c))
        else:
            if len(fs) > 1:
                Engine.cur.nonlinear = True
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            terms.append(t if c == 1 else _zval(c) * t)
    if not terms:
        return z3.RealVal(0)
    return terms[0] if len(terms) == 1 else z3.Sum(terms)


def p_const(p):
    if not p:
        return Fraction(0)
    if len(p) == 1 and ONE in p:
        return p[ONE]
    return None


def p_interval(p):
    """Interval of p from the bounds of its atoms (None when unbounded)."""
    atoms = Engine.cur.atoms
    lo = hi = Fraction(0)
    for m, c in p.items():
        l = h = c
        for a, e in m:
            at = atoms[a]
            if at.lo is None or at.hi is None:
                return None
            x, y = at.lo**e, at.hi**e
            if e % 2 == 0 and at.lo <= 0 <= at.hi:
                x, y = Fraction(0), max(x, y)
            elif x > y:
                x, y = y, x
            q = (l * x, l * y, h * x, h * y)
            l, h = min(q), max(q)
        lo += l
        hi += h
    return lo, hi


def p_bound(p):
    """Upper bound of |p| from the bounds of its atoms (None when unbounded)."""
    atoms = Engine.cur.atoms
    tot = Fraction(0)
    for m, c in p.items():
        v = abs(c)
        for a, e in m:
            at = atoms[a]
            if at.lo is None or at.hi is None:
                return None
            v *= max(abs(at.lo), abs(at.hi)) ** e
        tot += v
    return tot


def p_numeric(p):
    """p with square roots of constants replaced by 30-digit rationals, and a bound of the relative change of a coefficient."""
    atoms = Engine.cur.atoms
    out = {}
    size = {}
    for m, c in p.items():
        rest = []
        for a, e in m:
            at = atoms[a]
            sq = p_const(at.square) if at.kind == "sqrt" and at.square is not None else None
            if sq is None:
                rest.append((a, e))
            else:
                c = c * Fraction(math.isqrt(sq.numerator * 10**60 * sq.denominator), 10**30 * sq.denominator) ** e
        rest = tuple(rest)
        out[rest] = out.get(rest, 0) + c
        size[rest] = size.get(rest, 0) + abs(c)
    return {m: abs(c) + size[m] / 10**25 for m, c in out.items()}


def bound_exponentials(p):
    """Note exponentials in p that the bounds of their arguments alone show to be at most 1."""
    eng = Engine.cur
    for a in {a for m in p for a, _ in m}:
        at = eng.atoms[a]
        if at.kind != "exp" or at.hi is not None or at.unbounded:
            continue
        gt = compare(at.evalf, "gt")
        r = z3.unsat
        if isinstance(gt, SymBool):
            s = z3.Solver()
            s.set("timeout", 500)
            for i in at.evalf.atoms():
                x = eng.atoms[i]
                if x.lo is not None:
                    s.add(x.rv >= _zval(Fraction(x.lo)))
                if x.hi is not None:
                    s.add(x.rv <= _zval(Fraction(x.hi)))
            s.add(gt.e)
            t = time.time()
            r = s.check()
            eng.stats["queries"] += 1
            eng.stats["solver_s"] += time.time() - t
        elif gt:
            r = z3.sat
        if r == z3.unsat:
            at.lo, at.hi = Fraction(0), Fraction(1)
        else:
            at.unbounded = True


# ------------------------------------------------------------------------------------ Sym
class SymBool:
    __slots__ = ("e", "atoms")
    __array_priority__ = 2000

    def __init__(self, e, atoms):
        self.e = e
        self.atoms = frozenset(atoms)

    def __bool__(self):
        return Engine.cur.decide(self)

    def __and__(self, o):
        return b_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return b_not(self)

    def __xor__(self, o):
        return b_or(b_and(self, b_not(o)), b_and(b_not(self), o))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return b_not(self.__xor__(o))
        return self.as_sym() == o

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    __hash__ = object.__hash__

    def as_sym(self):
        return ite(self, 1, 0)

    def __mul__(self, o):
        return self.as_sym() * o

    __rmul__ = __mul__

    def __add__(self, o):
        return self.as_sym() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.as_sym() - o

    def __rsub__(self, o):
        return o - self.as_sym()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return f"SymBool({self.e})"


def zb(x):
    return x.e if isinstance(x, SymBool) else z3.BoolVal(bool(x))


def is_sym(x):
    return isinstance(x, (Sym, SymBool))


def _b(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return x != 0
    return bool(x)


def b_and(a, b):
    a, b = _b(a), _b(b)
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return SymBool(z3.And(a.e, b.e), a.atoms | b.atoms)


def b_or(a, b):
    a, b = _b(a), _b(b)
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return SymBool(z3.Or(a.e, b.e), a.atoms | b.atoms)


def b_not(a):
    a = _b(a)
    if isinstance(a, bool):
        return not a
    return SymBool(z3.Not(a.e), a.atoms)


def b_all(xs):
    es, at = [], set()
    for x in xs:
        x = _b(x)
        if x is False:
            return False
        if x is True:
            continue
        es.append(x.e)
        at |= x.atoms
    if not es:
        return True
    return SymBool(z3.And(*es) if len(es) > 1 else es[0], at)


def b_any(xs):
    es, at = [], set()
    for x in xs:
        x = _b(x)
        if x is True:
            return True
        if x is False:
            continue
        es.append(x.e)
        at |= x.atoms
    if not es:
        return False
    return SymBool(z3.Or(*es) if len(es) > 1 else es[0], at)


NAN = float("nan")


def is_num(x):
    return isinstance(x, (int, float, Fraction)) or type(x).__module__ == "numpy"


class Sym:
    """Symbolic real: num / prod(den factors)."""

    __slots__ = ("num", "den", "_key")
    __array_priority__ = 2000

    def __init__(self, num, den=()):
        self.num = num
        self.den = den  # tuple of (factor id, exponent), sorted
        self._key = None

    # ---------------------------------------------------------------- construction
    @staticmethod
    def const(c):
        c = to_frac(c)
        return Sym({ONE: c} if c else {})

    @staticmethod
    def atom(a: Atom):
        return Sym({((a.id, 1),): Fraction(1)})

    def simp(self):
        """Plain float when the value is constant (exact rationals stay Sym internally only)."""
        return self

    def const_value(self):
        if self.den:
            return Fraction(0) if not self.num else None
        return p_const(self.num)

    def key(self):
        if self._key is None:
            self._key = (pkey(self.num), self.den)
        return self._key

    def atoms(self):
        s = p_atoms(self.num)
        for f, _ in self.den:
            s |= p_atoms(Engine.cur.dens[f])
        return s

    # ---------------------------------------------------------------- arithmetic
    @staticmethod
    def lift(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return x.as_sym()
        if isinstance(x, (bool, int, Fraction)):
            return Sym.const(x)
        if isinstance(x, float):
            if math.isfinite(x):
                return Sym.const(x)
            return None
        if type(x).__module__ == "numpy" and getattr(x, "ndim", 1) == 0:
            return Sym.lift(x.item())
        return NotImplemented

    def _bin(self, o):
        return Sym.lift(o)

    def __add__(self, o):
        o = Sym.lift(o)
        if o is NotImplemented:
            return o
        if o is None:
            return NAN
        return add(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        o = Sym.lift(o)
        if o is NotImplemented:
            return o
        if o is None:
            return NAN
        return add(self, o, -1)

    def __rsub__(self, o):
        o = Sym.lift(o)
        if o is NotImplemented:
            return o
        if o is None:
            return NAN
        return add(o, self, -1)

    def __mul__(self, o):
        o = Sym.lift(o)
        if o is NotImplemented:
            return o
        if o is None:
            return NAN
        return mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Sym.lift(o)
        if o is NotImplemented:
            return o
        if o is None:
            return NAN
        return div(self, o)

    def __rtruediv__(self, o):
        o = Sym.lift(o)
        if o is NotImplemented:
            return o
        if o is None:
            return NAN
        return div(o, self)

    def __neg__(self):
        return Sym(pscale(self.num, -1), self.den)

    def __pos__(self):
        return self

    def __pow__(self, n):
        if isinstance(n, Sym):
            c = n.const_value()
            if c is None:
                raise Unsupported("symbolic exponent")
            n = c
        n = to_frac(n)
        if n.denominator == 1:
            n = int(n)
            if n >= 0:
                r = Sym.const(1)
                for _ in range(n):
                    r = mul(r, self)
                return r
            return div(Sym.const(1), self ** (-n))
        if n.denominator == 2:
            r = sym_sqrt(self)
            return r ** int(n * 2)
        if n == Fraction(1, 3):
            return sym_cbrt(self)
        raise Unsupported(f"power {n}")

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def __abs__(self):
        return sym_abs(self)

    def __floordiv__(self, o):
        if isinstance(o, (int, float)) and not isinstance(o, bool) and o == 1:
            return sym_floor(self)
        return sym_floor(self / o)

    def __rfloordiv__(self, o):
        return sym_floor(o / self)

    def __mod__(self, o):
        return self - (self // o) * o

    def __rmod__(self, o):
        return o - (o // self) * self

    def __divmod__(self, o):
        return self // o, self % o

    # ---------------------------------------------------------------- comparisons
    def _cmp(self, o, op):
        o = Sym.lift(o)
        if o is NotImplemented:
            return o
        if o is None:
            return op == "ne"
        return compare(add(self, o, -1), op)

    def __lt__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return o > 0
        return self._cmp(o, "lt")

    def __le__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return o > 0
        return self._cmp(o, "le")

    def __gt__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return o < 0
        return self._cmp(o, "gt")

    def __ge__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return o < 0
        return self._cmp(o, "ge")

    def __eq__(self, o):
        r = self._cmp(o, "eq")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "ne")
        return True if r is NotImplemented else r

    def __hash__(self):
        return hash(self.key())

    def __bool__(self):
        r = self != 0
        return bool(r)

    # ---------------------------------------------------------------- conversions
    def __float__(self):
        c = self.const_value()
        if c is not None:
            return float(c)
        raise Unsupported("float() of a symbolic value in foreign code")

    def __int__(self):
        return concretize_int(sym_trunc(self))

    def __index__(self):
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __floor__(self):
        return concretize_int(sym_floor(self))

    def __trunc__(self):
        return self.__int__()

    def __ceil__(self):
        return -concretize_int(sym_floor(-self))

    def __round__(self, n=None):
        if n is None:
            return concretize_int(sym_rint(self))
        return sym_rint(self * 10**n) / 10**n

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __format__(self, spec):
        return Engine.cur.env_format(self, spec)

    def __repr__(self):
        return "Sym"

    def __str__(self):
        return Engine.cur.env_format(self, "")

    # numpy scalar look-alikes
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dtype, *a, **k):
        return self

    def conjugate(self):
        return self

    conj = conjugate

    def is_integer(self):
        return self == sym_floor(self)

    def all(self, *a, **k):
        return self != 0

    any = all

    def sqrt(self):
        return sym_sqrt(self)

    def exp(self):
        return sym_exp(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from vsym import nparr

        return nparr.handle_ufunc(ufunc, method, inputs, kw)


def _den_lcm(d1, d2):
    if d1 == d2:
        return d1, (), ()
    m = dict(d1)
    for f, e in d2:
        m[f] = max(m.get(f, 0), e)
    x1, x2 = dict(d1), dict(d2)
    r1 = tuple((f, e - x1.get(f, 0)) for f, e in m.items() if e > x1.get(f, 0))
    r2 = tuple((f, e - x2.get(f, 0)) for f, e in m.items() if e > x2.get(f, 0))
    return tuple(sorted(m.items())), r1, r2


def _den_poly(d):
    r = {ONE: Fraction(1)}
    for f, e in d:
        r = pmul(r, ppow(Engine.cur.dens[f], e))
    return r


def add(a, b, kb=1):
    if not b.num:
        return a
    if not a.num:
        return b if kb == 1 else Sym(pscale(b.num, kb), b.den)
    if a.den == b.den:
        num = padd(a.num, b.num, kb)
        if not num:
            return Sym({})
        return Sym(num, a.den) if not a.den else cancel(Sym(num, a.den))
    d, r1, r2 = _den_lcm(a.den, b.den)
    n1 = pmul(a.num, _den_poly(r1)) if r1 else a.num
    n2 = pmul(b.num, _den_poly(r2)) if r2 else b.num
    num = padd(n1, n2, kb)
    if not num:
        return Sym({})
    return cancel(Sym(num, d))


def mul(a, b):
    if not a.num or not b.num:
        return Sym({})
    num = pmul(a.num, b.num)
    if not a.den and not b.den:
        return Sym(num)
    d = dict(a.den)
    for f, e in b.den:
        d[f] = d.get(f, 0) + e
    return cancel(Sym(num, tuple(sorted(d.items()))))


def cancel(x):
    """Cancel denominator factors against the numerator where that is syntactically evident."""
    if not x.den or not x.num:
        return x if x.num else Sym({})
    eng = Engine.cur
    num, d = x.num, dict(x.den)
    changed = False
    for f in list(d):
        fp = eng.dens[f]
        if len(fp) == 1:
            (m, _c), = fp.items()
            (a, _e), = m
            sq = eng.atoms[a].square
            # s**2 == poly: multiply num and den by s when den exponent is even and num has s? keep simple
            while d.get(f, 0) > 0 and all(any(b == a for b, _ in mm) for mm in num):
                nn = {}
                for mm, c in num.items():
                    nm = tuple((b, e - 1) if b == a else (b, e) for b, e in mm)
                    nn[tuple((b, e) for b, e in nm if e)] = c
                num = nn
                d[f] -= 1
                changed = True
            # s^2 in the denominator with numerator a multiple of the radicand
            if sq is not None:
                while d.get(f, 0) >= 2:
                    k = _multiple_of(num, sq)
                    if k is None:
                        break
                    num = {ONE: k}
                    d[f] -= 2
                    changed = True
        else:
            while d.get(f, 0) > 0:
                q = _exact_div(num, fp)
                if q is None:
                    break
                num = q
                d[f] -= 1
                changed = True
        if d.get(f) == 0:
            del d[f]
    if changed:
        return Sym(num, tuple(sorted(d.items())))
    return x


def _multiple_of(p, q):
    if len(p) != len(q) or not q:
        return None
    m0 = next(iter(q))
    if m0 not in p:
        return None
    k = p[m0] / q[m0]
    for m, c in q.items():
        if p.get(m) != c * k:
            return None
    return k


def _exact_div(p, q):
    """p/q when q divides p as a polynomial, else None."""
    if len(p) < len(q) and len(p) * 4 < len(q):
        return None
    k = _multiple_of(p, q)
    if k is not None:
        return {ONE: k}
    if len(p) > 3000 or len(q) > 40:
        return None
    dp, dq = {}, {}
    for src, dst in ((p, dp), (q, dq)):
        for m in src:
            for a, e in m:
                if dst.get(a, 0) < e:
                    dst[a] = e
    for a, e in dq.items():
        if dp.get(a, 0) < e:
            return None
    order = sorted(dp)
    pos = {a: i for i, a in enumerate(order)}
    n = len(order)

    def vec(m):
        v = [0] * n
        for a, e in m:
            v[pos[a]] = e
        return tuple(v)

    P = {vec(m): c for m, c in p.items()}
    Q = {vec(m): c for m, c in q.items()}
    lq = max(Q)
    lqc = Q[lq]
    tp, tq = min(P), min(Q)
    if any(x < y for x, y in zip(tp, tq)):
        return None
    heap = [tuple(-x for x in v) for v in P]
    heapq.heapify(heap)
    out = {}
    while heap:
        v = tuple(-x for x in heapq.heappop(heap))
        c = P.get(v)
        if c is None or c == 0:
            continue
        m = tuple(x - y for x, y in zip(v, lq))
        if min(m) < 0:
            return None
        k = c / lqc
        out[m] = k
        if len(out) > 2000:
            return None
        for w, cw in Q.items():
            t = tuple(x + y for x, y in zip(m, w))
            r = P.get(t)
            if r is None:
                P[t] = -k * cw
                heapq.heappush(heap, tuple(-x for x in t))
            else:
                r -= k * cw
                P[t] = r
    return {tuple((order[i], e) for i, e in enumerate(m) if e): c for m, c in out.items()}


def den_factor(p):
    """Register polynomial p (non-constant) as a denominator factor; return (id, scale) with p = scale*factor."""
    eng = Engine.cur
    lead = max(p)
    k = p[lead]
    q = pscale(p, 1 / k)
    key = pkey(q)
    if key not in eng.den_keys:
        eng.den_keys[key] = len(eng.dens)
        eng.dens.append(q)
    return eng.den_keys[key], k


def div(a, b):
    c = b.const_value()
    if c is not None:
        if c == 0:
            return NAN
        return Sym(pscale(a.num, 1 / c), a.den)
    eng = Engine.cur
    # b must be non-zero: fork into the two cases unless it is known
    if not known_nonzero(b):
        nz = compare(Sym(b.num), "ne")
        if not eng.decide(nz) if isinstance(nz, SymBool) else not nz:
            return NAN
        eng.nonzero.add(pkey(b.num))
    if not a.num:
        return Sym({})
    # 1/b = den(b)/num(b)
    num = a.num
    d = dict(a.den)
    for f, e in b.den:
        # multiply numerator by factor^e, cancelling against d first
        have = d.get(f, 0)
        k = min(have, e)
        if k:
            d[f] = have - k
            if d[f] == 0:
                del d[f]
        if e - k:
            num = pmul(num, ppow(eng.dens[f], e - k))
    bn = b.num
    k = _multiple_of(num, bn)
    if k is not None:
        return cancel(Sym({ONE: k}, tuple(sorted(d.items()))))
    if all(p_const(eng.atoms[at].square or {((at, 1),): 1}) is not None for at in p_atoms(bn)):
        # an element of a quadratic number field: rationalise with conjugates
        for at in sorted(p_atoms(bn)):
            if at not in p_atoms(bn):
                continue
            conj = {m: (-c if any(x == at for x, _ in m) else c) for m, c in bn.items()}
            if len(bn) == 1:
                conj = {((at, 1),): Fraction(1)}
            num = pmul(num, conj)
            bn = pmul(bn, conj)
        return cancel(Sym(pscale(num, 1 / p_const(bn)), tuple(sorted(d.items()))))
    if len(bn) == 1:
        (m, c), = bn.items()
        num = pscale(num, 1 / c)
        m = list(m)
        for at, e in list(m):
            sq = eng.atoms[at].square
            if sq is not None and p_const(sq) is not None:
                m.remove((at, e))
                for _ in range(e):
                    num = pscale(pmul(num, {((at, 1),): Fraction(1)}), 1 / p_const(sq))
        for at, e in m:
            f, _ = den_factor({((at, 1),): Fraction(1)})
            d[f] = d.get(f, 0) + e
    else:
        f, k = den_factor(bn)
        num = pscale(num, 1 / k)
        d[f] = d.get(f, 0) + 1
    return cancel(Sym(num, tuple(sorted(d.items()))))


def known_nonzero(b):
    eng = Engine.cur
    c = p_const(b.num)
    if c is not None:
        return c != 0
    k = pkey(b.num)
    if k in eng.nonzero:
        return True
    if len(b.num) == 1:
        (m, _c), = b.num.items()
        if all(pkey({((a, 1),): Fraction(1)}) in eng.nonzero for a, _ in m):
            return True
    if eng.implied(compare(Sym(b.num), "ne"), 800):
        eng.nonzero.add(k)
        return True
    return False


def compare(d, op):
    """d (Sym) op 0 -> bool or SymBool."""
    eng = Engine.cur
    c = d.const_value()
    if c is not None:
        return {"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0, "eq": c == 0, "ne": c != 0}[op]
    num = d.num
    if op not in ("eq", "ne"):
        for f, e in d.den:
            if e % 2:
                fp = eng.dens[f]
                if len(fp) == 1:
                    (m, _), = fp.items()
                    if eng.atoms[m[0][0]].nonneg:
                        continue
                num = pmul(num, fp)
        c = p_const(num)
        if c is not None:
            return {"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[op]
    if len(num) < 300:
        iv = p_interval(num)
        if iv is not None:
            l, h = iv
            if op == "lt" and (h < 0 or l >= 0):
                return h < 0
            if op == "le" and (h <= 0 or l > 0):
                return h <= 0
            if op == "gt" and (l > 0 or h <= 0):
                return l > 0
            if op == "ge" and (l >= 0 or h < 0):
                return l >= 0
            if op in ("eq", "ne") and (l > 0 or h < 0):
                return op == "ne"
    e = p_z3(num)
    z = z3.RealVal(0)
    ex = {"lt": e < z, "le": e <= z, "gt": e > z, "ge": e >= z, "eq": e == z, "ne": e != z}[op]
    return SymBool(ex, p_atoms(num))


# ------------------------------------------------------------------------------------ functions
def _int_sqrt_frac(c: Fraction):
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


def _sqrt_poly_atom(p):
    eng = Engine.cur
    b = p_bound(p)
    hi = None if b is None else Fraction(math.isqrt(int(b) + 1) + 1)

    lo = Fraction(0) if hi is not None else None
    k = p_const(p)
    if k is not None:
        r = math.isqrt(int(k * 10**16))
        lo, hi = Fraction(r - 1, 10**8), Fraction(r + 2, 10**8)

    def defs(a, p=p):
        d = [a.rv >= 0, a.rv * a.rv == p_z3(p)]
        if k is not None:
            d += [a.rv >= _zval(lo), a.rv <= _zval(hi)]
        return d

    return eng.new_atom(
        "sqrt", pkey(p), deps=p_atoms(p), defs=defs, square=dict(p), nonneg=True, lo=lo, hi=hi
    )


def _content(p):
    """Rational content g>0 with p = g*q, q having integer coprime coefficients."""
    g_n, g_d = 0, 1
    for c in p.values():
        g_n = math.gcd(g_n, c.numerator)
        g_d = g_d * c.denominator // math.gcd(g_d, c.denominator)
    return Fraction(g_n, g_d)


def _square_part(c: Fraction):
    """c = s^2 * r with r square-free-ish (small primes only)."""
    s = Fraction(1)
    n, d = c.numerator, c.denominator
    for q in (2, 3, 5, 7, 11, 13, 10007):
        while n % (q * q) == 0:
            n //= q * q
            s *= q
        while d % (q * q) == 0:
            d //= q * q
            s /= q
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n:
        s *= rn
        n = 1
    if rd * rd == d:
        s /= rd
        d = 1
    return s, Fraction(n, d)


def _sqrt_const(c):
    """Square root of a positive constant in terms of square roots of primes (a canonical form)."""
    n = c.numerator * c.denominator
    out = Sym.const(Fraction(1, c.denominator))
    q, odd = 2, []
    while q * q <= n and q < 20000:
        e = 0
        while n % q == 0:
            n //= q
            e += 1
        if e >= 2:
            out = mul(out, Sym.const(q ** (e // 2)))
        if e % 2:
            odd.append(q)
        q += 1 if q == 2 else 2
    r = math.isqrt(n)
    if r * r == n:
        out = mul(out, Sym.const(r))
    else:
        odd.append(n)
    for q in odd:
        out = mul(out, Sym.atom(_sqrt_poly_atom({ONE: Fraction(q)})))
    return out


def sym_sqrt(x):
    """Square root; a negative argument gives nan (as numpy does), which forks the path."""
    if not isinstance(x, Sym):
        if isinstance(x, Fraction):
            x = Sym.const(x)
        else:
            x = float(x)
            return math.sqrt(x) if x >= 0 else NAN
    eng = Engine.cur
    c = x.const_value()
    if c is not None:
        if c < 0:
            return NAN
        r = _int_sqrt_frac(c)
        if r is not None:
            return Sym.const(r)
    # sqrt(n/d) = sqrt(n * d_odd) / d^((e+1)/2)
    num = x.num
    outden = Sym.const(1)
    for f, e in x.den:
        fp = eng.dens[f]
        if e % 2:
            num = pmul(num, fp)
        k = (e + 1) // 2
        outden = mul(outden, Sym(ppow(fp, k)) if k else Sym.const(1))
    g = _content(num)
    s, r = _square_part(g)
    num = pscale(num, r / g)
    # monomial content with even exponents
    common = None
    for m in num:
        dm = dict(m)
        common = dm if common is None else {a: min(e, dm[a]) for a, e in common.items() if a in dm}
    out = Sym.const(s)
    for a, e in (common or {}).items():
        k = e // 2
        if k:
            nn = {}
            for mm, cc in num.items():
                nm = tuple((b, ee - 2 * k) if b == a else (b, ee) for b, ee in mm)
                nn[tuple((b, ee) for b, ee in nm if ee)] = cc
            num = nn
            base = Sym({((a, 1),): Fraction(1)})
            base = base if eng.atoms[a].nonneg else sym_abs(base)
            out = mul(out, base**k)
    cc = p_const(num)
    if cc is not None and cc >= 0 and _int_sqrt_frac(cc) is not None:
        res = mul(out, Sym.const(_int_sqrt_frac(cc)))
    elif cc is not None and cc > 0:
        res = mul(out, _sqrt_const(cc))
    else:
        ps = _perfect_square(num)
        if ps is not None:
            res = mul(out, sym_abs(Sym(ps)))
        else:
            if not _nonneg_known(num):
                nn = compare(Sym(num), "ge")
                if nn is False or (isinstance(nn, SymBool) and not eng.decide(nn)):
                    return NAN
            res = mul(out, Sym.atom(_sqrt_poly_atom(num)))
    if outden.const_value() == 1:
        return res
    if not _nonneg_known(outden.num):
        outden = sym_abs(outden)
    return div(res, outden)


def _perfect_square(p):
    """q with q*q == p for binomial squares like a^2+2ab+b^2 (small p only)."""
    if len(p) not in (1, 3, 6):
        return None
    sq = []
    for m, c in p.items():
        if all(e % 2 == 0 for _, e in m):
            r = _int_sqrt_frac(c) if c > 0 else None
            if r is not None:
                sq.append({tuple((a, e // 2) for a, e in m): r})
    need = {1: 1, 3: 2, 6: 3}[len(p)]
    if len(sq) != need:
        return None
    signs = [(1,)] if need == 1 else ([(1, 1), (1, -1)] if need == 2 else [(1, i, j) for i in (1, -1) for j in (1, -1)])
    for sg in signs:
        q = {}
        for s, t in zip(sg, sq):
            q = padd(q, t, s)
        if pmul(q, q) == p:
            return q
    return None


def _nonneg_known(p):
    atoms = Engine.cur.atoms
    return all(c > 0 and all(e % 2 == 0 or atoms[a].nonneg for a, e in m) for m, c in p.items())


def sym_cbrt(x):
    if not isinstance(x, Sym):
        return math.cbrt(float(x))
    c = x.const_value()
    eng = Engine.cur
    if c is not None and c == 0:
        return Sym({})
    if not x.den:
        # monomials that are perfect cubes
        if len(x.num) == 1:
            (m, cc), = x.num.items()
            r = round(abs(float(cc)) ** (1 / 3) * 1)
            if all(e % 3 == 0 for _, e in m):
                rn, rd = round(abs(cc.numerator) ** (1 / 3)), round(cc.denominator ** (1 / 3))
                if rn**3 == abs(cc.numerator) and rd**3 == cc.denominator:
                    return Sym({tuple((a, e // 3) for a, e in m): Fraction(rn if cc > 0 else -rn, rd)})
    at = x.atoms()

    def defs(a, x=x):
        return [a.rv * a.rv * a.rv * p_z3(_den_poly(x.den)) == p_z3(x.num)]

    b = p_bound(x.num) if not x.den else None
    return Sym.atom(eng.new_atom("cbrt", x.key(), deps=at, defs=defs, lo=None if b is None else -(b + 1), hi=None if b is None else b + 1))


def sym_abs(x):
    if not isinstance(x, Sym):
        return abs(x)
    c = x.const_value()
    if c is not None:
        return Sym.const(abs(c))
    eng = Engine.cur
    num = x.num
    neg = pscale(num, -1)
    if _nonneg_known(num):
        rn = Sym(num)
    elif _nonneg_known(neg):
        rn = Sym(neg)
    else:
        s = compare(Sym(num), "ge")
        if eng.implied(s, 300):
            rn = Sym(num)
        elif eng.implied(compare(Sym(num), "le"), 300):
            rn = Sym(neg)
        else:
            g = _content(num)
            q = pscale(num, 1 / g)
            if q[max(q)] < 0:
                q = pscale(q, -1)

            def defs(a, q=q):
                e = p_z3(q)
                return [a.rv == z3.If(e >= 0, e, -e)]

            b = p_bound(q)
            at = eng.new_atom("abs", pkey(q), deps=p_atoms(q), defs=defs, square=pmul(q, q), nonneg=True, lo=Fraction(0) if b is not None else None, hi=b)
            rn = Sym({((at.id, 1),): g})
    res = rn
    for f, e in x.den:
        fp = eng.dens[f]
        d = Sym(fp)
        if e % 2 and not _nonneg_known(fp):
            d = sym_abs(d)
            res = div(div(res, d), Sym(ppow(fp, e - 1))) if e > 1 else div(res, d)
        else:
            res = div(res, Sym(ppow(fp, e)))
    return res


def _eval_guess(x):
    """Approximate value of x under some model of the path (None if not available)."""
    eng = Engine.cur
    m = eng.quick_model()
    if m is None:
        return None
    return eval_sym(x, m)


def z3num(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


def eval_sym(x, model):
    if not isinstance(x, Sym):
        return to_frac(x)
    eng = Engine.cur
    cache = {}

    def av(a):
        if a not in cache and eng.atoms[a].kind == "exp":
            x = float(eval_sym(eng.atoms[a].evalf, model))
            cache[a] = to_frac(math.exp(min(x, 700.0)))
        if a not in cache:
            v = model.eval(eng.atoms[a].var, model_completion=True)
            cache[a] = z3num(v)
            if cache[a] is None:
                raise Unsupported("model value")
        return cache[a]

    def pv(p):
        t = Fraction(0)
        for m, c in p.items():
            v = c
            for a, e in m:
                v *= av(a) ** e
            t += v
        return t

    n = pv(x.num)
    for f, e in x.den:
        d = pv(eng.dens[f])
        if d == 0:
            return Fraction(0)
        n /= d**e
    return n


def sym_floor(x):
    if not isinstance(x, Sym):
        return math.floor(x) if math.isfinite(x) else x
    eng = Engine.cur
    c = x.const_value()
    if c is not None:
        return Sym.const(math.floor(c))
    base, off = x, {}
    if not x.den:
        rest = {}
        for m, cc in x.num.items():
            if cc.denominator == 1 and all(eng.atoms[a].is_int for a, _ in m):
                off[m] = cc
            elif m == ONE:
                fl = math.floor(cc)
                if fl:
                    off[ONE] = Fraction(fl)
                if cc - fl:
                    rest[ONE] = cc - fl
            else:
                rest[m] = cc
        base = Sym(rest)
        bc = base.const_value()
        if bc is not None:
            return add(Sym(off), Sym.const(math.floor(bc)))
    key = base.key()
    hit = eng.by_key.get(("floorval", key))
    if hit is None:
        iv = p_interval(base.num) if not base.den else None
        g = None
        if iv is not None and math.floor(iv[0]) == math.floor(iv[1]):
            hit = Sym.const(math.floor(iv[0]))
        try:
            g = _eval_guess(base) if hit is None else None
        except Unsupported:
            g = None
        if g is not None:
            k = math.floor(g)
            for kk in (k,):
                inside = b_and(compare(base - kk, "ge"), compare(base - (kk + 1), "lt"))
                if eng.implied(inside, 1500):
                    hit = Sym.const(kk)
                    break
        if hit is None:

            def defs(a, base=base):
                lo = compare(base - Sym.atom(a), "ge")
                hi = compare(base - Sym.atom(a) - 1, "lt")
                return [zb(lo), zb(hi)]

            at = eng.new_atom(
                "floor", key, deps=base.atoms(), defs=defs, is_int=True,
                lo=None if iv is None else Fraction(math.floor(iv[0])), hi=None if iv is None else Fraction(math.floor(iv[1])),
            )
            hit = Sym.atom(at)
        eng.by_key[("floorval", key)] = hit
    return add(hit, Sym(off)) if off else hit


def sym_trunc(x):
    if not isinstance(x, Sym):
        return math.trunc(x)
    return ite(x >= 0, sym_floor(x), -sym_floor(-x))


def sym_rint(x):
    """Round half to even is modelled as floor(x+1/2) away from ties; ties raise a fork."""
    if not isinstance(x, Sym):
        return float(round(x))
    f = sym_floor(x + Fraction(1, 2))
    tie = (x + Fraction(1, 2)) == f
    if tie is False:
        return f
    if tie is True or Engine.cur.decide(tie):
        half = sym_floor(f / 2)
        odd = (f - half * 2) != 0
        return ite(odd, f - 1, f)
    return f


def ite(c, a, b):
    if isinstance(c, Sym):
        c = c != 0
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, SymBool) or isinstance(b, SymBool) or (isinstance(a, bool) and isinstance(b, bool)):
        return b_or(b_and(c, a), b_and(b_not(c), b))
    eng = Engine.cur
    sa, sb = Sym.lift(a), Sym.lift(b)
    if sa in (None, NotImplemented) or sb in (None, NotImplemented):
        return a if eng.decide(c) else b  # non-finite or non-numeric: fork
    if sa.key() == sb.key():
        return a
    if eng.implied(c, 800):
        return a
    if eng.implied(b_not(c), 800):
        return b

    # common part is pulled out so that x and x+1 share structure
    diff = add(sb, sa, -1)
    dc = diff.const_value()
    if dc is not None:
        at = eng.new_atom(
            "sel", c.e.get_id(), deps=c.atoms, defs=lambda t, c=c: [t.rv == z3.If(c.e, z3.RealVal(0), z3.RealVal(1))],
            is_int=False, nonneg=True, square=None, lo=Fraction(0), hi=Fraction(1),
        )
        at.square = {((at.id, 1),): Fraction(1)}  # idempotent
        eng._keep = getattr(eng, "_keep", [])
        eng._keep.append(c.e)
        return _tie_floor(eng, sa, at, dc)
    deps = set(c.atoms) | sa.atoms() | sb.atoms()

    def defs(t, c=c, sa=sa, sb=sb):
        ea = t.rv * p_z3(_den_poly(sa.den)) == p_z3(sa.num)
        eb = t.rv * p_z3(_den_poly(sb.den)) == p_z3(sb.num)
        return [z3.If(c.e, ea, eb)]

    ba = p_bound(sa.num) if not sa.den else None
    bb = p_bound(sb.num) if not sb.den else None
    bd = None if ba is None or bb is None else max(ba, bb)
    at = eng.new_atom("ite", (c.e.get_id(), sa.key(), sb.key()), deps=deps, defs=defs, lo=None if bd is None else -bd, hi=bd)
    eng._keep = getattr(eng, "_keep", [])
    eng._keep.append(c.e)
    return Sym.atom(at)


def _tie_floor(eng, sa, sel, dc):
    """sa + dc*sel, with a floor atom of sa eliminated when the two only shift each other (wrapping)."""
    plain = add(sa, mul(Sym.atom(sel), Sym.const(dc)))
    if sa.den:
        return plain
    for m, cf in sa.num.items():
        if len(m) == 1 and m[0][1] == 1 and eng.atoms[m[0][0]].kind == "floor" and abs(cf) == abs(dc):
            e = add(Sym({m: cf}), mul(Sym.atom(sel), Sym.const(dc)))
            eng._send(e.atoms())
            ks, at = [], eng.atoms[m[0][0]]
            if at.lo is not None and at.hi is not None and at.hi - at.lo <= 4 and eng.nonlinear:
                for v in range(int(at.lo), int(at.hi) + 1):
                    for z in (0, 1):
                        k = cf * v + dc * z
                        if k not in ks:
                            ks.append(k)
            else:
                eng.solver.set("timeout", 800)
                try:
                    if eng._check() != z3.sat:
                        return plain
                    ks.append(eval_sym(e, eng.solver.model()))
                except Unsupported:
                    return plain
                finally:
                    eng.solver.set("timeout", 4000)
            for k in ks:
                same = compare(add(e, Sym.const(k), -1), "eq")
                if same is True or (
                    isinstance(same, SymBool) and (eng.lin_unsat(z3.Not(same.e)) if eng.nonlinear else eng.implied(same, 800))
                ):
                    rest = dict(sa.num)
                    del rest[m]
                    return add(Sym(rest), Sym.const(k))
    return plain


def sym_sign(x):
    if not isinstance(x, Sym):
        return (x > 0) - (x < 0)
    return ite(x > 0, 1, ite(x < 0, -1, 0))


def _same_up_to_rounding(x, y):
    """Same rational function, coefficients equal to 1e-12 (constants computed in another order)."""
    if x.den != y.den or set(x.num) != set(y.num):
        return False
    return all(abs(v - y.num[k]) <= abs(v) * Fraction(1, 10**12) for k, v in x.num.items())


def sym_exp(x):
    if not isinstance(x, Sym):
        try:
            return math.exp(x)
        except OverflowError:
            return math.inf
    eng = Engine.cur
    c = x.const_value()
    if c is not None:
        if c == 0:
            return Sym.const(1)
        return Sym.const(math.exp(float(c)))
    others = [a for a in eng.atoms if a.kind == "exp"]
    for o in others:
        if _same_up_to_rounding(x, o.evalf):
            return Sym.atom(o)

    def defs(a, x=x, others=tuple(others)):
        res = [a.rv > 0]
        pos, neg = compare(x, "gt"), compare(x, "lt")
        for cond, fact in ((pos, a.rv > 1), (neg, a.rv < 1)):
            res.append((cond.e if isinstance(cond, SymBool) else z3.BoolVal(cond)) == fact)
        # 1+x <= e^x
        le = compare(add(x, Sym.const(1)) - Sym.atom(a), "le")
        res.append(zb(le))
        for o in others:
            lt = compare(add(x, o.evalf, -1), "lt")
            gt = compare(add(x, o.evalf, -1), "gt")
            res.append((lt.e if isinstance(lt, SymBool) else z3.BoolVal(lt)) == (a.rv < o.rv))
            res.append((gt.e if isinstance(gt, SymBool) else z3.BoolVal(gt)) == (a.rv > o.rv))
        return res

    deps = set(x.atoms())
    for o in others:
        deps.add(o.id)
    a = eng.new_atom("exp", x.key(), deps=deps, defs=defs, nonneg=True, evalf=x)
    return Sym.atom(a)


def sym_max(a, b):
    if not is_sym(a) and not is_sym(b):
        return max(a, b)
    return ite(b_not(_lt(a, b)), a, b)


def sym_min(a, b):
    if not is_sym(a) and not is_sym(b):
        return min(a, b)
    return ite(b_not(_lt(b, a)), a, b)


def _lt(a, b):
    return a < b


def concretize_int(x, limit=64):
    """Fork over the integer values of x."""
    if not isinstance(x, Sym):
        return int(x)
    c = x.const_value()
    if c is not None:
        return math.floor(c) if c >= 0 else -math.floor(-c)
    eng = Engine.cur
    for _ in range(limit):
        m = eng.quick_model()
        if m is None:
            raise Unsupported("cannot concretise")
        v = math.floor(eval_sym(x, m))
        eq = compare(add(x, Sym.const(v), -1), "eq")
        if eq is True or (isinstance(eq, SymBool) and eng.decide(eq)):
            return v
    raise Unsupported("too many integer values")
