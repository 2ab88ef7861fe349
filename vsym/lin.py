"""Linear relaxation of a path: products become variables bounded by McCormick inequalities.

Unsatisfiability of the relaxation implies unsatisfiability of the path, so it is used to discharge
queries before the (much more expensive) non-linear solver is asked.
"""

from __future__ import annotations

from fractions import Fraction

from vsym.core import _zval, z3


class Lin:
    def __init__(self, eng):
        self.eng = eng
        self.s = z3.Solver()
        self.pending = []
        self.cache = {}
        self.prod = {}
        self.bounds = {}
        self.natoms = 0
        self.keep = []
        self.n = 0

    def add(self, e):
        self.pending.append(e)

    # ---- bounds of leaves
    def bound(self, e):
        while self.natoms < len(self.eng.atoms):
            a = self.eng.atoms[self.natoms]
            self.natoms += 1
            self.keep.append(a.rv)
            self.bounds[a.rv.get_id()] = (a.lo, a.hi)
            self.bounds[a.var.get_id()] = (a.lo, a.hi)
        return self.bounds.get(e.get_id(), (None, None))

    def product(self, leaves):
        leaves = sorted(leaves, key=lambda x: x.get_id())
        cur, cb, key = leaves[0], self.bound(leaves[0]), (leaves[0].get_id(),)
        for x in leaves[1:]:
            key = key + (x.get_id(),)
            if key in self.prod:
                cur, cb = self.prod[key]
                continue
            self.n += 1
            m = z3.Real(f"m!{self.n}")
            xb = self.bound(x)
            same = cur.get_id() == x.get_id()
            b = (None, None)
            if None not in xb and None not in cb:
                (l, h), (p, q) = cb, xb
                cs = [l * p, l * q, h * p, h * q]
                b = (min(cs), max(cs))
                if same:
                    b = (Fraction(0) if l <= 0 <= h else min(l * l, h * h), max(l * l, h * h))
                L, H, P, Q = map(_zval, (l, h, p, q))
                self.s.add(m >= L * x + P * cur - L * P, m >= H * x + Q * cur - H * Q, m <= H * x + P * cur - H * P, m <= L * x + Q * cur - L * Q)
                self.s.add(m >= _zval(b[0]), m <= _zval(b[1]))
            elif same:
                b = (Fraction(0), None)
                self.s.add(m >= 0)
            self.prod[key] = (m, b)
            self.keep.append(m)
            cur, cb = m, b
        return cur

    def tr(self, e):
        i = e.get_id()
        if i in self.cache:
            return self.cache[i]
        r = self._tr(e)
        self.cache[i] = r
        self.keep.append(e)
        return r

    def _tr(self, e):
        if z3.is_const(e) or z3.is_rational_value(e) or z3.is_int_value(e):
            return e
        if z3.is_mul(e):
            num, leaves, todo = None, [], [e]
            while todo:
                x = todo.pop()
                if z3.is_mul(x):
                    todo.extend(x.children())
                elif z3.is_rational_value(x) or z3.is_int_value(x):
                    num = x if num is None else z3.simplify(num * x)
                else:
                    leaves.append(self.tr(x))
            if not leaves:
                return num
            t = leaves[0] if len(leaves) == 1 else self.product([z3.ToReal(x) if x.is_int() else x for x in leaves])
            return t if num is None else num * t
        if z3.is_app_of(e, z3.Z3_OP_POWER) or z3.is_div(e):
            self.n += 1
            return z3.Real(f"q!{self.n}")
        ch = [self.tr(c) for c in e.children()]
        if all(c.get_id() == o.get_id() for c, o in zip(ch, e.children())):
            return e
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            return z3.Sum(ch)
        if k == z3.Z3_OP_AND:
            return z3.And(ch)
        if k == z3.Z3_OP_OR:
            return z3.Or(ch)
        return e.decl()(*ch)

    def flush(self):
        p, self.pending = self.pending, []
        for e in p:
            self.s.add(self.tr(e))

    def unsat(self, *extra, timeout=700):
        """True when the path together with `extra` is impossible already in the relaxation."""
        self.flush()
        self.s.set("timeout", timeout)
        return self.s.check(*[self.tr(x) for x in extra]) == z3.unsat
