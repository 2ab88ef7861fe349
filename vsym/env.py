"""The two faces of a harness: symbolic (solver decides) and concrete (replay on the real code)."""

from __future__ import annotations

import importlib
import math
import os
import random
import re
import shutil
import tempfile
import traceback
from fractions import Fraction
from pathlib import Path

from vsym import core
from vsym.core import ONE, Engine, PathAbort, Sym, SymBool, Unsupported, b_all, b_and, b_any, b_not, b_or, compare, z3

TOL = 1e-6


class Failure(BaseException):
    """A candidate violation found on the current path (symbolic mode)."""

    def __init__(self, label, detail, cond=None, model=None):
        super().__init__(label, detail)
        self.label, self.detail, self.cond, self.model = label, detail, cond, model


class Skip(BaseException):
    """Concrete inputs do not satisfy an assumption."""


class Base:
    def imp(self, name):
        return importlib.import_module(name)

    def get(self, dotted):
        m, _, n = dotted.rpartition(".")
        return getattr(importlib.import_module(m), n)

    def flag(self, name):
        return bool(self.choice(name, 2))

    def pick(self, name, seq):
        seq = list(seq)
        return seq[self.choice(name, len(seq))]

    def perm(self, name, n):
        rest, out = list(range(n)), []
        while rest:
            out.append(rest.pop(self.choice(f"{name}_{len(out)}", len(rest)) if len(rest) > 1 else 0))
        return out

    def tmp(self):
        self._tmpn = getattr(self, "_tmpn", 0) + 1
        p = Path(self.scratch) / f"d{self._tmpn}"
        p.mkdir(parents=True, exist_ok=True)
        return p

    def _occurrence(self, label):
        c = self.__dict__.setdefault("_occ", {})
        c[label] = c.get(label, 0) + 1
        return f"{label}#{c[label]}"

    def eq(self, label, a, b):
        """Equality of concrete structure (shapes, lists of ints, strings)."""
        self.true(label, a == b, detail=f"{a!r} != {b!r}"[:300])

    other_layout = False  # arrays handed over in another memory layout (values unchanged)

    def arranged(self, r):
        if not self.other_layout or r.ndim == 0:
            return r
        if r.ndim == 1:
            return r.repeat(2)[::2]
        return r.T.copy().T

    def symten(self, name, n=None, lo=-5, hi=5):
        """Symmetric 3x3 tensors."""
        np = self.np
        ix = [[0, 1, 2], [1, 3, 4], [2, 4, 5]]
        if n is None:
            v = [self.real(f"{name}_{k}", lo, hi) for k in range(6)]
            return self.array([[v[ix[i][j]] for j in range(3)] for i in range(3)])
        return self.array([[[r[ix[i][j]] for j in range(3)] for i in range(3)] for r in [[self.real(f"{name}{q}_{k}", lo, hi) for k in range(6)] for q in range(n)]])

    def arr(self, name, shape, lo=-5, hi=5):
        def build(pre, sh):
            if not sh:
                return self.real(pre, lo, hi)
            return [build(f"{pre}_{i}", sh[1:]) for i in range(sh[0])]

        return self.array(build(name, tuple(shape)))

    def rot(self, name, axis):
        """Rotation about a coordinate axis by a symbolic angle."""
        c, s = self.unit(name)
        z, o = self.c(0), self.c(1)
        if axis == "x":
            return self.array([[o, z, z], [z, c, -s], [z, s, c]])
        if axis == "y":
            return self.array([[c, z, s], [z, o, z], [-s, z, c]])
        return self.array([[c, -s, z], [s, c, z], [z, z, o]])

    def raises(self, label, excs, fn, *a, **k):
        try:
            fn(*a, **k)
        except excs:
            return True
        except Exception as e:  # noqa: BLE001
            self.fail(label, f"unexpected {type(e).__name__}: {e}"[:300])
            return False
        self.fail(label, "no exception was raised")
        return False

    def try_(self, fn, *a, **k):
        """(result, exception) of a call."""
        try:
            return fn(*a, **k), None
        except Exception as e:  # noqa: BLE001
            return None, e


# ==================================================================================== symbolic
class SymEnv(Base):
    symbolic = True

    def __init__(self, eng: Engine, session):
        from vsym import nparr

        self.eng = eng
        self.np = nparr.NP
        self.nparr = nparr
        self.session = session
        self.scratch = tempfile.mkdtemp(prefix="vsym")
        self.observed = []
        self.nobl = 0
        eng.env_format = self.env_format
        eng.parse_float = self.parse_float

    def close_env(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    @property
    def torch(self):
        from vsym.loader import _table

        return _table()["torch"]

    def tensor(self, x):
        return self.torch.from_numpy(self.array(x))

    def equivalents(self, reps):
        """Representative of each atom in structures with the stubbed symmetry group."""
        from vsym import stubs

        stubs.STATE["equivalent"] = [int(r) for r in reps]

    def follow_shuffle(self, few=False):
        """All orders of a shuffled pass are explored, or a few of them."""
        self.eng.few_orders = few

    def pm_structure(self, lattice, numbers, coords):
        from vsym.proxies import PmStructure

        return PmStructure(lattice, numbers, coords)

    def pm_trajectory(self, symbols, coords, lattice, **k):
        from vsym.proxies import PmTrajectory

        return PmTrajectory(symbols, coords, lattice, **k)

    # ---- inputs
    def real(self, name, lo=-5, hi=5):
        eng = self.eng
        lo, hi = core.to_frac(lo), core.to_frac(hi)
        a = eng.new_atom("input", ("in", name), name=f"i_{name}", lo=lo, hi=hi, nonneg=lo >= 0, defs=lambda t: [t.rv >= core._zval(lo), t.rv <= core._zval(hi)])
        eng.inputs[name] = a
        return Sym.atom(a)

    def intvar(self, name, lo, hi):
        eng = self.eng
        lo, hi = int(lo), int(hi)
        a = eng.new_atom(
            "input", ("in", name), name=f"i_{name}", is_int=True, lo=Fraction(lo), hi=Fraction(hi), nonneg=lo >= 0, defs=lambda t: [t.var >= lo, t.var <= hi]
        )
        eng.inputs[name] = a
        return Sym.atom(a)

    def unit(self, name):
        """(c, s) with c*c + s*s == 1."""
        c = self.real(name + "_c", -1, 1)
        ca = self.eng.inputs[name + "_c"]
        sq = {ONE: Fraction(1), ((ca.id, 2),): Fraction(-1)}
        a = self.eng.new_atom(
            "input", ("in", name + "_s"), name=f"i_{name}_s", lo=Fraction(-1), hi=Fraction(1), deps=(ca.id,), square=sq,
            defs=lambda t: [t.rv * t.rv + ca.rv * ca.rv == 1, t.rv >= -1, t.rv <= 1],
        )  # fmt: skip
        self.eng.inputs[name + "_s"] = a
        return c, Sym.atom(a)

    def choice(self, name, n):
        if n <= 1:
            return 0
        return self.eng.choose(name, n)

    def num(self, name, lo, hi, dec=8):
        """A number in a file: (exact value, text)."""
        x = self.real(name, lo, hi)
        return x, self._token(x, dec, neg=hi <= 0, digits=len(str(int(max(abs(lo), abs(hi))))))

    def text(self, x, dec=8):
        """Text of a value (assumed to be printed exactly)."""
        if not isinstance(x, Sym):
            return f"{float(x):.{dec}f}"
        c = x.const_value()
        if c is not None:
            t = f"{float(c):.{dec}f}"
            if Fraction(t) == c:
                return t
        return self._token(x, dec, neg=False, digits=1)

    def _token(self, x, dec, neg, digits):
        eng = self.eng
        key = (x.key(), dec, digits)
        if key in eng.token_of:
            return eng.token_of[key]
        eng.ntok += 1
        # digits chosen so that no two tokens are equal and none is a prefix of another
        frac = f"{eng.ntok:05d}".rjust(max(dec, 5), "3")[-max(dec, 5) :]
        t = ("-" if neg else "") + "1" * max(1, digits) + "." + frac
        eng.tokens[t] = x
        eng.token_of[key] = t
        return t

    def parse_float(self, s):
        t = s.strip() if isinstance(s, str) else s
        if t in self.eng.tokens:
            return self.eng.tokens[t]
        if isinstance(t, str) and t[:1] in "+-" and t[1:] in self.eng.tokens:
            v = self.eng.tokens[t[1:]]
            return -v if t[0] == "-" else v
        if isinstance(t, str):
            m = re.fullmatch(r"([+-]?\d+\.\d+)[eE]([+-]?\d+)", t)
            if m and m.group(1) in self.eng.tokens:
                return self.eng.tokens[m.group(1)] * Fraction(10) ** int(m.group(2))
        return self.nparr.lift_scalar(float(s))

    def env_format(self, x, spec):
        c = x.const_value()
        if c is not None:
            return format(float(c), spec)
        m = re.fullmatch(r"(?:(.)?([<>=^]))?([+\- ]?)(0?)(\d+)?(?:\.(\d+))?([feEgG]?)", spec)
        if not m or m.group(7) in ("g", "G"):
            raise Unsupported(f"format {spec!r}")
        fill, align, sign, zero, width, prec, typ = m.groups()
        if typ == "" and prec is None:
            r, p = x, 17
        else:
            p = int(prec) if prec is not None else 6
            r = self._rounded(x, p) if typ == "f" else x
            if typ in ("e", "E"):
                r = self._rounded_rel(x, p)
        neg = x < 0
        neg = neg if isinstance(neg, bool) else self.eng.decide(neg)
        ax = -x if neg else x
        digits = 1
        if typ == "f" or typ == "":
            while digits < 6:
                big = ax >= 10**digits
                if not (big if isinstance(big, bool) else self.eng.decide(big)):
                    break
                digits += 1
        eng = self.eng
        key = ("fmt", x.key(), spec)
        if key in eng.token_of:
            return eng.token_of[key]
        eng.ntok += 1
        if p == 0:
            body = str(10 ** (digits - 1) + eng.ntok)[:digits]
            raise Unsupported("format without decimals")
        frac = f"{eng.ntok:05d}".rjust(max(p, 5), "7")[-max(p, 5) :]
        if p < 5:
            # few decimals: the identity goes into a longer numeral of the same meaning
            frac = f"{eng.ntok:05d}"
        body = "1" * digits + "." + frac
        t = ("-" if neg else ("+" if sign == "+" else " " if sign == " " else "")) + body
        eng.tokens[t.strip()] = r
        if typ in ("e", "E"):
            t = t + typ + "+00"
            eng.tokens[t.strip()] = r
        out = t
        if width:
            w = int(width)
            if zero and not align:
                out = (t[0] + t[1:].rjust(w - 1, "0")) if t[0] in "+-" else t.rjust(w, "0")
                eng.tokens[out.strip()] = r
            elif align == "<":
                out = t.ljust(w, fill or " ")
            elif align == "^":
                out = t.center(w, fill or " ")
            else:
                out = t.rjust(w, fill or " ")
        eng.token_of[key] = out
        return out

    def _rounded(self, x, p):
        eng = self.eng
        h = Fraction(1, 2 * 10**p)
        b = core.p_bound(x.num) if not x.den else None

        def defs(a):
            r = Sym.atom(a)
            out = [core.zb(compare(r - x - h, "le")), core.zb(compare(x - r - h, "le"))]
            for k in (0, 1):  # rounding is monotonic and exact for integers
                out.append(z3.Implies(core.zb(compare(x - k, "le")), core.zb(compare(r - k, "le"))))
                out.append(z3.Implies(core.zb(compare(k - x, "le")), core.zb(compare(k - r, "le"))))
            return out

        e = eng.new_atom("round", (x.key(), p), deps=x.atoms(), defs=defs, lo=None if b is None else -b - 1, hi=None if b is None else b + 1)
        return Sym.atom(e)

    def _rounded_rel(self, x, p):
        eng = self.eng
        h = Fraction(1, 10**p)
        ax = core.sym_abs(x)

        def defs(a):
            return [core.zb(compare(Sym.atom(a) - x - ax * h, "le")), core.zb(compare(x - Sym.atom(a) - ax * h, "le"))]

        return Sym.atom(eng.new_atom("round", ("e", x.key(), p), deps=x.atoms() | ax.atoms(), defs=defs))

    # ---- values
    def c(self, x, q=1):
        return Sym.const(Fraction(x) / q if isinstance(x, int) else core.to_frac(x) / q)

    def array(self, x):
        r = self.nparr.np_array(x)
        if r.dtype != object:
            r = self.nparr.wrap_keep(self.nparr.as_obj(self.nparr.np_array(x, dtype=float)))
        return self.arranged(r)

    def zero(self, x):
        """Zeros of the same shape (never not-a-number, unlike x * 0)."""
        return self.array(self.nparr.np.zeros(self.nparr.np.shape(x)))

    def ints(self, x):
        return self.nparr.np.array(x).view(self.nparr.IntArr)

    def sqrt(self, x):
        return core.sym_sqrt(Sym.lift(x))

    def exp(self, x):
        return core.sym_exp(Sym.lift(x))

    # ---- assumptions and obligations
    def assume(self, *conds):
        for c in conds:
            if isinstance(c, self.nparr.np.ndarray):
                c = b_all(list(c.flat))
            c = core._b(c)
            if c is True:
                continue
            if c is False:
                raise PathAbort()
            if self.eng.decided.get(c.e.get_id()) is True:
                continue
            self.eng.add_constraint(c)
            self.eng.decided[c.e.get_id()] = True
            self.eng._keep = getattr(self.eng, "_keep", [])
            self.eng._keep.append(c.e)
        if self.eng._check() == z3.unsat:
            raise PathAbort()

    def _once(self, label):
        self.nobl += 1
        k = (tuple(str(v) for v, _ in self.eng.trace), label, self.nobl)
        if k in self.session.done:
            return False
        self.session.done.add(k)
        self.eng.stats["obligations"] += 1
        return True

    def _flat(self, x):
        np = self.nparr.np
        if hasattr(x, "__vsym_array__"):
            x = x.__vsym_array__()
        if isinstance(x, (list, tuple)):
            x = self.nparr.np_array(x)
        if isinstance(x, np.ndarray):
            return x.shape, list(self.nparr.as_obj(x).flat)
        return (), [self.nparr.lift_scalar(x.item() if isinstance(x, np.generic) else x)]

    def close(self, label, a, b, tol=TOL):
        first = self._once(label)
        occ = self._occurrence(label)
        try:
            sa, fa = self._flat(a)
            sb, fb = self._flat(b)
        except (ValueError, TypeError) as e:
            raise Failure(label, f"not an array: {e}") from None
        if sa != sb:
            raise Failure(label, f"shape {sa} instead of {sb}")
        if not first:
            return
        hard = []
        tolf = core.to_frac(tol)
        for i, (x, y) in enumerate(zip(fa, fb)):
            if isinstance(x, self.nparr.SymC) or isinstance(y, self.nparr.SymC):
                x, y = self.nparr.SymC.lift(x), self.nparr.SymC.lift(y)
                pairs = [(x.re, y.re), (x.im, y.im)]
            else:
                pairs = [(x, y)]
            for x, y in pairs:
                lx, ly = Sym.lift(x), Sym.lift(y)
                if lx is NotImplemented or ly is NotImplemented:
                    raise Failure(label, f"entry {i}: {x!r} instead of {y!r}")
                if lx is None or ly is None:
                    same = lx is None and ly is None and (x == y or (x != x and y != y))
                    if not same:
                        raise Failure(label, f"entry {i}: {x!r} instead of {y!r}")
                    continue
                if len(self.observed) < 60:
                    self.observed.append((occ, i, lx))
                d = core.add(lx, ly, -1)
                cv = d.const_value()
                if cv is not None:
                    if abs(cv) > tolf:
                        raise Failure(label, f"entry {i} is off by {float(cv):.3g}")
                    self.eng.stats["normal_form"] += 1
                    continue
                if not d.den:
                    bd = core.p_bound(d.num)
                    if (bd is None or bd > tolf) and len(d.num) < 300:
                        num = core.p_numeric(d.num)
                        if all(c <= tolf for c in num.values()):
                            core.bound_exponentials(num)
                            bd = core.p_bound(num)
                    if bd is not None and bd <= tolf:
                        self.eng.stats["normal_form"] += 1
                        continue
                hard.append((i, d))
        for i, d in hard:
            bad = b_or(d > tolf, d < -tolf)
            self._refute(label, bad, f"entry {i}")

    def true(self, label, cond, detail=""):
        first = self._once(label)
        np = self.nparr.np
        if hasattr(cond, "__vsym_array__"):
            cond = cond.__vsym_array__()
        if isinstance(cond, np.ndarray):
            cond = b_all(list(cond.flat))
        cond = core._b(cond)
        if cond is True:
            if first:
                self.eng.stats["normal_form"] += 1
            return
        if cond is False:
            raise Failure(label, detail or "condition is false")
        if first:
            self._refute(label, b_not(cond), detail or "condition can be false")

    def fail(self, label, detail=""):
        raise Failure(label, detail)

    def _refute(self, label, bad, detail):
        """The path condition must exclude `bad`."""
        if bad is False:
            return
        if bad is True:
            raise Failure(label, detail)
        r, model = self.session.solve(self.eng, bad)
        if r == "unsat":
            return
        if r == "sat":
            raise Failure(label, detail, cond=bad, model=model)
        self.session.open_obligations.append(f"{label}: {detail}"[:160])

    def observe(self, label, x):
        label = self._occurrence(label)
        for i, v in enumerate(self._flat(x)[1]):
            s = Sym.lift(v)
            if isinstance(s, Sym) and len(self.observed) < 60:
                self.observed.append((label, i, s))


# ==================================================================================== concrete
class ConEnv(Base):
    symbolic = False

    def __init__(self, inputs, choices, seed=0, jitter=0.0):
        import numpy as np

        self.np = np
        self.inputs = dict(inputs)
        self.choices = dict(choices)
        self.rng = random.Random(seed)
        self.jitter = jitter
        self.fails = []
        self.observed = {}
        self.used = {}
        self.used_choices = {}
        self.scratch = tempfile.mkdtemp(prefix="vcon")

    def close_env(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    @property
    def torch(self):
        import torch

        return torch

    def tensor(self, x):
        return self.torch.tensor(self.array(x))

    def equivalents(self, reps):
        """Representative of each atom in structures with the stubbed symmetry group."""
        from vsym import stubs

        stubs.STATE["equivalent"] = [int(r) for r in reps]

    def follow_shuffle(self, few=False):
        """Shuffled passes over data take the order of the replayed path."""
        from torch.utils.data import RandomSampler

        count = [0]

        def order(sampler):
            rest, out = list(range(len(sampler.data_source))), []
            if few:
                from vsym.torchshim import few_order

                count[0] += 1
                return iter(few_order(len(rest), self.choice(f"shuffle{count[0]}", 3)))
            while rest:
                count[0] += 1
                out.append(rest.pop(self.choice(f"shuffle{count[0]}", len(rest)) if len(rest) > 1 else 0))
            return iter(out)

        RandomSampler.__iter__ = order

    def pm_structure(self, lattice, numbers, coords):
        from pymatgen.core import Element, Structure

        return Structure(lattice, [Element.from_Z(int(n)) for n in numbers], coords)

    def pm_trajectory(self, symbols, coords, lattice, **k):
        from pymatgen.core.trajectory import Trajectory

        return Trajectory(symbols, coords, lattice=lattice, **k)

    def real(self, name, lo=-5, hi=5):
        if name in self.inputs:
            v = float(self.inputs[name])
            if self.jitter:
                v = min(max(v + self.jitter * self.rng.uniform(-1, 1), float(lo)), float(hi))
        else:
            v = self.rng.uniform(float(lo), float(hi))
        self.used[name] = v
        return v

    def intvar(self, name, lo, hi):
        v = int(round(float(self.inputs[name]))) if name in self.inputs else self.rng.randint(int(lo), int(hi))
        self.used[name] = v
        return v

    def unit(self, name):
        if name + "_c" in self.inputs:
            c = float(self.inputs[name + "_c"])
            s = float(self.inputs.get(name + "_s", 1.0))
            n = math.hypot(c, s) or 1.0
            c, s = c / n, s / n
            if self.jitter:
                t = math.atan2(s, c) + self.jitter
                c, s = math.cos(t), math.sin(t)
        else:
            t = self.rng.uniform(0, 2 * math.pi)
            c, s = math.cos(t), math.sin(t)
        self.used[name + "_c"], self.used[name + "_s"] = c, s
        return c, s

    def choice(self, name, n):
        if n <= 1:
            return 0
        v = self.choices[name] if name in self.choices else self.rng.randrange(n)
        self.used_choices[name] = v
        return v

    def num(self, name, lo, hi, dec=8):
        t = f"{self.real(name, lo, hi):.{dec}f}"
        return float(t), t

    def text(self, x, dec=8):
        return f"{float(x):.{dec}f}"

    def c(self, x, q=1):
        return x / q

    def array(self, x):
        return self.arranged(self.np.array(x, dtype=float))

    def zero(self, x):
        return self.np.zeros(self.np.shape(x))

    def ints(self, x):
        return self.np.array(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def exp(self, x):
        return math.exp(x)

    def assume(self, *conds):
        for c in conds:
            if not self.np.all(c):
                raise Skip()

    def _np(self, x):
        if hasattr(x, "detach"):
            x = x.detach().numpy()
        return self.np.asarray(x)

    def close(self, label, a, b, tol=TOL):
        np = self.np
        occ = self._occurrence(label)
        try:
            a, b = self._np(a), self._np(b)
            if a.shape != b.shape:
                self.fail(label, f"shape {a.shape} instead of {b.shape}")
                return
            if not a.size:
                return
            if np.iscomplexobj(a) or np.iscomplexobj(b):
                a, b = np.stack([a.real, a.imag]), np.stack([np.real(b), np.imag(b)])
            a, b = a.astype(float), b.astype(float)
        except (ValueError, TypeError) as e:
            self.fail(label, f"not an array: {e}")
            return
        self._record(occ, a)
        with np.errstate(all="ignore"):
            d = np.abs(a - b)
            bad = ~((d <= tol / 2) | ((a != a) & (b != b)) | (a == b))
        if bad.any():
            i = int(np.argmax(bad.reshape(-1)))
            self.fail(label, f"entry {i} is {a.reshape(-1)[i]!r} instead of {b.reshape(-1)[i]!r}")

    def true(self, label, cond, detail=""):
        if hasattr(cond, "detach"):
            cond = cond.detach().numpy()
        if not self.np.all(cond):
            self.fail(label, detail or "condition is false")

    def fail(self, label, detail=""):
        self.fails.append((label, str(detail)[:400]))

    def observe(self, label, x):
        self._record(self._occurrence(label), x)

    def _record(self, label, x):
        np = self.np
        try:
            v = [float(t) for t in np.asarray(self._np(x)).astype(float).reshape(-1)]
        except (TypeError, ValueError):
            return
        if label not in self.observed:
            self.observed[label] = v


def run_concrete(fn, params, inputs, choices, seed=0, jitter=0.0):
    """Run a harness on the real code; returns a result dictionary."""
    env = ConEnv(inputs, choices, seed, jitter)
    cwd = os.getcwd()
    try:
        try:
            os.chdir(env.scratch)
            fn(env, **params)
            st = "fail" if env.fails else "pass"
        except Skip:
            st = "fail" if env.fails else "skip"
        except Exception as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            where = next((f"{f.filename}:{f.lineno}" for f in reversed(tb)), "")
            env.fails.append(("unexpected exception", f"{type(e).__name__}: {e} at {where}"[:400]))
            st = "fail"
        return {"status": st, "fails": env.fails[:10], "observed": env.observed, "inputs": env.used, "choices": env.used_choices}
    finally:
        os.chdir(cwd)
        env.close_env()
