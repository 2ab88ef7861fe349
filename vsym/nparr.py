"""Symbolic numpy: object arrays of symbolic reals plus a proxy for the numpy module."""

from __future__ import annotations

import functools
import math
import types
from fractions import Fraction

import numpy as np

from vsym import core
from vsym.core import (
    NAN,
    Engine,
    Sym,
    SymBool,
    Unsupported,
    b_all,
    b_and,
    b_any,
    b_not,
    b_or,
    concretize_int,
    ite,
    sym_abs,
    sym_cbrt,
    sym_exp,
    sym_floor,
    sym_max,
    sym_min,
    sym_rint,
    sym_sign,
    sym_sqrt,
    sym_trunc,
)

INHOM = "setting an array element with a sequence. The requested array has an inhomogeneous shape"


class SymC:
    """Symbolic complex scalar."""

    __slots__ = ("re", "im")
    __array_priority__ = 3000

    def __init__(self, re, im=0):
        self.re, self.im = re, im

    @staticmethod
    def lift(x):
        if isinstance(x, SymC):
            return x
        if isinstance(x, (complex, np.complexfloating)):
            return SymC(Sym.lift(float(x.real)), Sym.lift(float(x.imag)))
        return SymC(x, Sym.const(0))

    def __add__(self, o):
        o = SymC.lift(o)
        return SymC(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __sub__(self, o):
        o = SymC.lift(o)
        return SymC(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        return SymC.lift(o) - self

    def __mul__(self, o):
        o = SymC.lift(o)
        return SymC(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = SymC.lift(o)
        d = o.re * o.re + o.im * o.im
        return SymC((self.re * o.re + self.im * o.im) / d, (self.im * o.re - self.re * o.im) / d)

    def __neg__(self):
        return SymC(-self.re, -self.im)

    def __pow__(self, n):
        r = SymC(Sym.const(1), Sym.const(0))
        for _ in range(int(n)):
            r = r * self
        return r

    def __abs__(self):
        return sym_sqrt(self.re * self.re + self.im * self.im)

    def conjugate(self):
        return SymC(self.re, -self.im)

    conj = conjugate

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def __deepcopy__(self, memo):
        return self


def is_symish(x):
    return isinstance(x, (Sym, SymBool, SymC, SymArray))


def lift_scalar(x):
    """A float becomes an exact symbolic constant; everything else is returned unchanged."""
    if isinstance(x, (float, Fraction)) and not isinstance(x, bool):
        if isinstance(x, Fraction) or math.isfinite(x):
            return Sym.const(x)
        return float(x)
    return x


_lift_vec = np.frompyfunc(lambda x: lift_scalar(x) if not isinstance(x, np.generic) else lift_scalar(x.item()), 1, 1)


def plain(a):
    """Plain object ndarray view."""
    if isinstance(a, np.ndarray):
        return a.view(np.ndarray)
    return a


def as_obj(x):
    """Plain object ndarray of exact elements."""
    if isinstance(x, SymArray):
        return plain(x)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return plain(x)
        if x.dtype.kind == "b":
            return x.astype(object)
        if x.dtype.kind == "f":
            r = np.empty(x.shape, dtype=object)
            for i, v in enumerate(x.flat):
                r.flat[i] = lift_scalar(float(v))
            return r
        return np.asarray(x).astype(object)
    if isinstance(x, (list, tuple)):
        return as_obj(np_array(x))
    if isinstance(x, np.generic):
        x = x.item()
    r = np.empty((), dtype=object)
    r[()] = lift_scalar(x)
    return r


def wrap(a):
    """Object ndarray -> SymArray (0-d -> scalar)."""
    if not isinstance(a, np.ndarray):
        return lift_scalar(a)
    if a.dtype != object:
        return real_to_sym(a)
    if a.ndim == 0:
        return a.item()
    return a.view(SymArray)


def wrap_keep(a):
    if isinstance(a, np.ndarray) and a.dtype == object:
        return a.view(SymArray)
    return a


def real_to_sym(a):
    """Results of real numpy calls: float data become exact symbolic arrays; others stay."""
    if isinstance(a, SymArray):
        return a
    if isinstance(a, np.ndarray):
        if a.dtype.kind == "f":
            return as_obj(a).view(SymArray)
        if a.dtype.kind == "c":
            r = np.empty(a.shape, dtype=object)
            for i, v in enumerate(a.flat):
                r.flat[i] = SymC.lift(complex(v))
            return r.view(SymArray)
        if a.dtype == object:
            return a.view(SymArray)
        return a
    if isinstance(a, np.floating):
        return lift_scalar(float(a))
    if isinstance(a, float):
        return lift_scalar(a)
    if isinstance(a, tuple) and type(a) is tuple:
        return tuple(real_to_sym(x) for x in a)
    if type(a) is list:
        return [real_to_sym(x) for x in a]
    return a


def fold_bool(a):
    """Object array of bool/SymBool: a real bool array when everything is decided."""
    if isinstance(a, np.ndarray):
        if all(isinstance(x, (bool, np.bool_)) for x in a.flat):
            r = np.array([bool(x) for x in a.flat], dtype=bool).reshape(a.shape)
            return r if r.ndim else r[()]
        return wrap(a)
    if isinstance(a, (bool, np.bool_)):
        return np.bool_(a)
    return a


# ------------------------------------------------------------------------------------ scalar tables
def _n(x):
    return lift_scalar(x.item() if isinstance(x, np.generic) else x)


def s_div(a, b):
    a, b = _n(a), _n(b)
    if isinstance(a, SymC) or isinstance(b, SymC):
        return SymC.lift(a) / b
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, (int, float)) and not isinstance(b, bool) and not isinstance(a, (Sym, SymBool)):
        a = Sym.lift(a) if not isinstance(a, float) else a
    if isinstance(b, SymBool):
        b = b.as_sym()
    if isinstance(a, SymBool):
        a = a.as_sym()
    bb = Sym.lift(b)
    if bb is None:
        return Sym.const(0) if isinstance(b, float) and math.isinf(b) and isinstance(a, Sym) else NAN
    c = bb.const_value()
    if c == 0:
        aa = Sym.lift(a)
        if aa is None:
            return a
        ac = aa.const_value()
        if ac is None:
            z = aa == 0
            if z is True or (isinstance(z, SymBool) and Engine.cur.decide(z)):
                return NAN
            p = aa > 0
            return math.inf if (p is True or (isinstance(p, SymBool) and Engine.cur.decide(p))) else -math.inf
        return NAN if ac == 0 else (math.inf if ac > 0 else -math.inf)
    aa = Sym.lift(a)
    if aa is None:
        if isinstance(a, float) and math.isinf(a) and c is not None:
            return a if c > 0 else -a
        return NAN
    return aa / bb


def s_mul(a, b):
    return _n(a) * _n(b)


def s_floordiv(a, b):
    a, b = _n(a), _n(b)
    if isinstance(a, float) or isinstance(b, float):
        return NAN
    if isinstance(a, int) and isinstance(b, int):
        return a // b
    q = s_div(a, b)
    return sym_floor(q) if isinstance(q, Sym) else q


def s_mod(a, b):
    a, b = _n(a), _n(b)
    if isinstance(a, float) or isinstance(b, float):
        return NAN
    if isinstance(a, int) and isinstance(b, int):
        return a % b
    q = s_floordiv(a, b)
    if isinstance(q, float):
        return NAN
    return Sym.lift(a) - q * b


def s_fmod(a, b):
    a, b = _n(a), _n(b)
    q = s_div(a, b)
    if isinstance(q, float):
        return NAN
    return Sym.lift(a) - sym_trunc(q) * b


def s_pow(a, b):
    a, b = _n(a), _n(b)
    if isinstance(a, float) or isinstance(b, float):
        return NAN
    if isinstance(a, (Sym, SymC)) or isinstance(b, Sym):
        if isinstance(b, Sym):
            c = b.const_value()
            if c is None:
                raise Unsupported("symbolic exponent")
            b = int(c) if c.denominator == 1 else c
        if not isinstance(a, SymC):
            a = Sym.lift(a)
            if isinstance(b, int) and b < 0:
                return s_div(Sym.const(1), a ** (-b))
        return a**b
    return a**b


def _numcmp(op):
    def f(a, b):
        a, b = _n(a), _n(b)
        if isinstance(a, SymBool):
            a = a.as_sym()
        if isinstance(b, SymBool):
            b = b.as_sym()
        r = op(a, b)
        return bool(r) if isinstance(r, np.bool_) else r

    return f


def s_eq(a, b):
    a, b = _n(a), _n(b)
    if isinstance(a, SymBool) and isinstance(b, (bool, SymBool)):
        return a == b
    if isinstance(b, SymBool) and isinstance(a, bool):
        return b == a
    if isinstance(a, SymBool):
        a = a.as_sym()
    if isinstance(b, SymBool):
        b = b.as_sym()
    return a == b


def s_ne(a, b):
    return b_not(s_eq(a, b))


def s_isnan(x):
    return isinstance(x, float) and math.isnan(x)


def s_isinf(x):
    return isinstance(x, float) and math.isinf(x)


def s_isfinite(x):
    return not (isinstance(x, float) and not math.isfinite(x))


def _fl(f):
    def g(x):
        x = _n(x)
        if isinstance(x, float):
            return x
        if isinstance(x, SymBool):
            x = x.as_sym()
        if isinstance(x, bool):
            x = int(x)
        return f(x)

    return g


def _to_sym(x):
    return x if isinstance(x, (Sym, SymC)) else Sym.const(x)


def s_trig(f):
    def g(x):
        x = _n(x)
        if isinstance(x, Sym):
            c = x.const_value()
            if c is None:
                raise Unsupported("trigonometric function of a symbolic value")
            x = float(c)
        return Sym.const(f(x)) if math.isfinite(f(x)) else f(x)

    return g


def s_log(x):
    x = _n(x)
    if isinstance(x, Sym):
        c = x.const_value()
        if c is None:
            raise Unsupported("log of a symbolic value")
        x = float(c)
    if x == 0:
        return -math.inf
    return Sym.const(math.log(x)) if x > 0 else NAN


def s_not(x):
    return b_not(x)


def s_invert(x):
    if isinstance(x, int) and not isinstance(x, bool):
        return ~x
    return b_not(x)


def s_bitand(a, b):
    if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
        return b_and(a, b)
    return a & b


def s_bitor(a, b):
    if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
        return b_or(a, b)
    return a | b


def s_bool(x):
    return core._b(x)


def _nanprop(f):
    def g(a, b):
        a, b = _n(a), _n(b)
        if s_isnan(a) or s_isnan(b):
            return NAN
        return f(a, b)

    return g


def s_add(a, b):
    a, b = _n(a), _n(b)
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return b_or(a, b)
    return a + b


def s_sub(a, b):
    return _n(a) - _n(b)


UF = {
    "add": s_add,
    "subtract": s_sub,
    "multiply": lambda a, b: b_and(a, b) if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)) else s_mul(a, b),
    "divide": s_div,
    "true_divide": s_div,
    "floor_divide": s_floordiv,
    "remainder": s_mod,
    "mod": s_mod,
    "fmod": s_fmod,
    "power": s_pow,
    "float_power": s_pow,
    "negative": lambda a: -_n(a),
    "positive": lambda a: a,
    "absolute": _fl(lambda x: abs(x)),
    "fabs": _fl(lambda x: abs(_to_sym(x))),
    "sqrt": _fl(lambda x: sym_sqrt(_to_sym(x))),
    "square": lambda a: s_mul(a, a),
    "cbrt": _fl(lambda x: sym_cbrt(_to_sym(x))),
    "reciprocal": lambda a: s_div(1, a),
    "exp": _fl(lambda x: sym_exp(_to_sym(x))),
    "expm1": _fl(lambda x: sym_exp(_to_sym(x)) - 1),
    "log": s_log,
    "sign": _fl(lambda x: sym_sign(x)),
    "floor": _fl(lambda x: sym_floor(_to_sym(x))),
    "ceil": _fl(lambda x: -sym_floor(-_to_sym(x))),
    "trunc": _fl(lambda x: sym_trunc(_to_sym(x))),
    "rint": _fl(lambda x: sym_rint(_to_sym(x))),
    "maximum": _nanprop(lambda a, b: sym_max(a, b)),
    "minimum": _nanprop(lambda a, b: sym_min(a, b)),
    "fmax": lambda a, b: b if s_isnan(a) else a if s_isnan(b) else sym_max(_n(a), _n(b)),
    "fmin": lambda a, b: b if s_isnan(a) else a if s_isnan(b) else sym_min(_n(a), _n(b)),
    "greater": _numcmp(lambda a, b: a > b),
    "greater_equal": _numcmp(lambda a, b: a >= b),
    "less": _numcmp(lambda a, b: a < b),
    "less_equal": _numcmp(lambda a, b: a <= b),
    "equal": s_eq,
    "not_equal": s_ne,
    "logical_and": lambda a, b: b_and(s_bool(a), s_bool(b)),
    "logical_or": lambda a, b: b_or(s_bool(a), s_bool(b)),
    "logical_not": lambda a: b_not(s_bool(a)),
    "logical_xor": lambda a, b: s_ne(s_bool(a), s_bool(b)),
    "bitwise_and": s_bitand,
    "bitwise_or": s_bitor,
    "invert": s_invert,
    "bitwise_xor": lambda a, b: s_ne(s_bool(a), s_bool(b)),
    "isnan": s_isnan,
    "isinf": s_isinf,
    "isfinite": s_isfinite,
    "conjugate": lambda a: a.conjugate() if isinstance(a, SymC) else a,
    "hypot": lambda a, b: sym_sqrt(_to_sym(_n(a)) ** 2 + _to_sym(_n(b)) ** 2),
    "cos": s_trig(math.cos),
    "sin": s_trig(math.sin),
    "tanh": s_trig(math.tanh),
    "deg2rad": lambda a: s_mul(a, math.pi / 180),
    "copysign": lambda a, b: ite(_n(b) >= 0, sym_abs(_n(a)), -sym_abs(_n(a))),
    "heaviside": lambda a, b: ite(_n(a) > 0, 1, ite(s_eq(a, 0), b, 0)),
}
BOOL_UF = {
    "greater", "greater_equal", "less", "less_equal", "equal", "not_equal", "logical_and", "logical_or", "logical_not",
    "logical_xor", "bitwise_and", "bitwise_or", "invert", "bitwise_xor", "isnan", "isinf", "isfinite",
}  # fmt: skip
_VEC = {k: np.frompyfunc(v, v.__code__.co_argcount, 1) for k, v in UF.items()}
REDUCE_INIT = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}


def _reduce(name, a, axis, keepdims=False, initial=None):
    f = UF[name]
    a = as_obj(a)
    if axis is None:
        ax = tuple(range(a.ndim))
    elif isinstance(axis, tuple):
        ax = tuple(x % a.ndim for x in axis)
    else:
        if a.ndim == 0:
            ax = ()
        else:
            if not -a.ndim <= axis < a.ndim:
                raise np.exceptions.AxisError(axis, a.ndim)
            ax = (axis % a.ndim,)
    rest = tuple(i for i in range(a.ndim) if i not in ax)
    t = np.transpose(a, rest + ax).reshape([a.shape[i] for i in rest] + [-1 if a.size else int(np.prod([a.shape[i] for i in ax]))])
    out = np.empty(t.shape[:-1], dtype=object)
    for idx in np.ndindex(*out.shape):
        items = list(t[idx])
        if initial is not None:
            items.insert(0, initial)
        if not items:
            if name not in REDUCE_INIT:
                raise ValueError(f"zero-size array to reduction operation {name} which has no identity")
            out[idx] = lift_scalar(float(REDUCE_INIT[name])) if name in ("add", "multiply") else REDUCE_INIT[name]
            continue
        if name in ("logical_and",):
            out[idx] = b_all(items)
        elif name in ("logical_or",):
            out[idx] = b_any(items)
        else:
            if name == "add":
                items = [x.as_sym() if isinstance(x, SymBool) else int(x) if isinstance(x, bool) else x for x in items]
            out[idx] = functools.reduce(f, items)
    if keepdims:
        out = out.reshape([1 if i in ax else a.shape[i] for i in range(a.ndim)])
    if name in ("logical_and", "logical_or"):
        return fold_bool(out if out.ndim else out.item())
    return wrap(out)


def handle_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    kw.pop("casting", None)
    kw.pop("dtype", None)
    kw.pop("order", None)
    kw.pop("subok", None)
    if where is not True:
        w = fold_bool(as_obj(where))
        if not (isinstance(w, (np.ndarray, np.bool_)) and getattr(w, "dtype", None) == bool and w.all()):
            if method != "__call__" or out is None:
                raise Unsupported("where= in ufunc")
            base = out[0] if isinstance(out, tuple) else out
            res = handle_ufunc(ufunc, method, inputs, {})
            base[...] = np_where(where, res, base)
            return base
    if name == "matmul" and method == "__call__":
        a, b = as_obj(inputs[0]), as_obj(inputs[1])
        if a.ndim == 0 or b.ndim == 0:
            raise ValueError("matmul: Input operand does not have enough dimensions")
        ca = a.shape[-1]
        cb = b.shape[-2] if b.ndim > 1 else b.shape[0]
        if ca != cb:
            raise ValueError(
                f"matmul: Input operand 1 has a mismatch in its core dimension 0, with gufunc signature (n?,k),(k,m?)->(n?,m?) (size {cb} is different from {ca})"
            )
        res = _matmul(a, b)
        return _out(out, res)
    if name == "vecdot" and method == "__call__":
        return _out(out, _reduce("add", handle_ufunc(np.multiply, "__call__", inputs[:2], {}), -1))
    if name == "divmod" and method == "__call__":
        return handle_ufunc(np.floor_divide, method, inputs, {}), handle_ufunc(np.remainder, method, inputs, {})
    if name not in UF:
        if not any(has_sym(x) for x in inputs):
            args = [to_real(x) for x in inputs]
            return _out(out, real_to_sym(getattr(ufunc, method)(*args, **kw)))
        raise Unsupported(f"ufunc {name}")
    if method == "__call__":
        args = [as_obj(x) for x in inputs]
        res = _VEC[name](*args)
        if name in BOOL_UF:
            if isinstance(res, np.ndarray) and res.dtype != object:
                return _out(out, res)
            if isinstance(res, int) and not isinstance(res, bool):
                return res
            if isinstance(res, np.ndarray) and any(isinstance(x, int) and not isinstance(x, bool) for x in res.flat):
                return _out(out, res.astype(int))
            return _out(out, fold_bool(res))
        if isinstance(res, np.ndarray):
            return _out(out, _ints_back(wrap_keep(res), inputs) if res.ndim else wrap(res))
        return _out(out, lift_scalar(res))
    if method == "reduce":
        axis = kw.get("axis", 0)
        init = kw.get("initial", None)
        if init is np._NoValue:
            init = None
        return _out(out, _reduce(name, inputs[0], axis, kw.get("keepdims", False), init))
    if method == "accumulate":
        a = as_obj(inputs[0])
        axis = kw.get("axis", 0)
        if a.ndim == 0:
            return wrap(a)
        r = np.empty(a.shape, dtype=object)
        a2, r2 = np.moveaxis(a, axis, 0), np.moveaxis(r, axis, 0)
        for i in range(a2.shape[0]):
            r2[i] = a2[i] if i == 0 else _VEC[name](r2[i - 1], a2[i])
        return _out(out, wrap(r))
    if method == "outer":
        a, b = as_obj(inputs[0]), as_obj(inputs[1])
        return wrap(_VEC[name](a.reshape(a.shape + (1,) * b.ndim), b))
    if method == "at":
        a = inputs[0]
        idx = inputs[1]
        vals = as_obj(inputs[2]) if len(inputs) > 2 else None
        it = np.broadcast_to(np.asarray(idx), np.asarray(idx).shape)
        vals = np.broadcast_to(vals, it.shape + np.shape(a)[1:])
        for k, i in np.ndenumerate(it):
            a[i] = UF[name](a[i], vals[k]) if np.ndim(a[i]) == 0 else handle_ufunc(ufunc, "__call__", (a[i], vals[k]), {})
        return None
    raise Unsupported(f"ufunc method {method}")


def _ints_back(res, inputs):
    """Keep integer arrays integer (all inputs concrete integers)."""
    if all(type(x) is int for x in res.flat) and res.size:
        return np.array([int(x) for x in res.flat], dtype=int).reshape(res.shape)
    return res


def _matmul(a, b):
    a2 = a[None, :] if a.ndim == 1 else a
    b2 = b[:, None] if b.ndim == 1 else b
    bs = np.broadcast_shapes(a2.shape[:-2], b2.shape[:-2])
    n, k, m = a2.shape[-2], a2.shape[-1], b2.shape[-1]
    A = np.broadcast_to(a2, bs + (n, k))
    B = np.broadcast_to(b2, bs + (k, m))
    out = np.empty(bs + (n, m), dtype=object)
    for idx in np.ndindex(*bs):
        Ai, Bi, Oi = A[idx], B[idx], out[idx] if bs else out
        for i in range(n):
            for j in range(m):
                Oi[i, j] = sum_prod(Ai[i], Bi[:, j])
    if a.ndim == 1:
        out = out[..., 0, :]
    if b.ndim == 1:
        out = out[..., 0]
    return wrap(out)


def _iszero(x):
    return isinstance(x, Sym) and not x.num


def sum_prod(u, v):
    t = Sym.const(0)
    for x, y in zip(u, v):
        x = x if isinstance(x, Sym) else _n(x)
        y = y if isinstance(y, Sym) else _n(y)
        if isinstance(x, SymBool):
            x = x.as_sym()
        if isinstance(y, SymBool):
            y = y.as_sym()
        if (_iszero(x) and isinstance(y, Sym)) or (_iszero(y) and isinstance(x, Sym)):
            continue
        t = t + x * y
    return t


def _out(out, res):
    if out is None:
        return res
    o = out[0] if isinstance(out, tuple) else out
    if isinstance(o, SymArray) or (isinstance(o, np.ndarray) and o.dtype == object):
        r = res if isinstance(res, np.ndarray) else as_obj(res)
        if np.broadcast_shapes(np.shape(r), o.shape) != o.shape:
            raise ValueError(f"non-broadcastable output operand with shape {o.shape} doesn't match the broadcast shape {np.shape(r)}")
        np.ndarray.__setitem__(o, Ellipsis, as_obj(res) if not isinstance(res, np.ndarray) or res.dtype != object else plain(res))
        return o
    if isinstance(o, np.ndarray):
        if o.dtype.kind in "iu" and (isinstance(res, SymArray) or getattr(res, "dtype", np.dtype(int)).kind == "f" or isinstance(res, Sym)):
            raise np._core._exceptions._UFuncOutputCastingError(np.add, "same_kind", np.dtype(float), o.dtype, 0)
        if isinstance(res, SymArray) or isinstance(res, (Sym, SymBool)):
            o[...] = to_real(res) if not has_sym(res) else _conc_bool(res)
            return o
        o[...] = res
        return o
    raise Unsupported("ufunc out")


def _conc_bool(res):
    a = as_obj(res)
    r = np.empty(a.shape, dtype=bool)
    for i, x in enumerate(a.flat):
        if not isinstance(x, (bool, np.bool_, SymBool)):
            raise Unsupported("symbolic value stored in a concrete array")
        r.flat[i] = bool(x)
    return r


def has_sym(x):
    """Does x contain a non-constant symbolic value?"""
    if isinstance(x, Sym):
        return x.const_value() is None
    if isinstance(x, SymBool):
        return True
    if isinstance(x, SymC):
        return has_sym(x.re) or has_sym(x.im)
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(has_sym(v) for v in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    if isinstance(x, dict):
        return any(has_sym(v) for v in x.values())
    return False


def has_symobj(x):
    if isinstance(x, (Sym, SymBool, SymC, SymArray)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_symobj(v) for v in x)
    if isinstance(x, dict):
        return any(has_symobj(v) for v in x.values())
    return False


def to_real(x):
    """Convert constants back to real numpy/python values."""
    if isinstance(x, Sym):
        c = x.const_value()
        if c is None:
            raise Unsupported("symbolic value in foreign code")
        return float(c)
    if isinstance(x, SymC):
        return complex(to_real(x.re), to_real(x.im))
    if isinstance(x, SymBool):
        raise Unsupported("symbolic condition in foreign code")
    if isinstance(x, np.ndarray) and x.dtype == object:
        vals = [to_real(v) for v in x.flat]
        if any(isinstance(v, complex) for v in vals):
            dt = complex
        elif all(isinstance(v, (bool, np.bool_)) for v in vals) and vals:
            dt = bool
        else:
            dt = float
        return np.array(vals, dtype=dt).reshape(x.shape)
    if type(x) is list:
        return [to_real(v) for v in x]
    if type(x) is tuple:
        return tuple(to_real(v) for v in x)
    if type(x) is dict:
        return {k: to_real(v) for k, v in x.items()}
    if x is F64:
        return np.float64
    return x


# ------------------------------------------------------------------------------------ the array class
def _is_bool_sym(a):
    return isinstance(a, np.ndarray) and a.dtype == object and a.size > 0 and all(isinstance(x, (bool, np.bool_, SymBool)) for x in a.flat)


def _conc_index(k):
    if isinstance(k, tuple):
        return tuple(_conc_index(x) for x in k)
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, Sym):
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
    if isinstance(k, slice):
        return k
    if isinstance(k, np.ndarray) and k.dtype == object:
        if _is_bool_sym(k):
            return _conc_bool(k)
        if k.size == 0:
            return np.zeros(k.shape, dtype=int)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    return k


class IntArr(np.ndarray):
    """An integer array given by a harness: stays integer where numpy would, becomes exact where numpy makes floats."""

    def __setitem__(self, k, v):
        if has_symobj(v):
            v = to_real(v)
        np.ndarray.__setitem__(self, k, v)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        plain_ = [np.asarray(x) if isinstance(x, IntArr) else x for x in inputs]
        out = kw.get("out")
        if not any(has_symobj(x) for x in plain_) and out is None:
            r = getattr(ufunc, method)(*plain_, **kw)
            if isinstance(r, np.ndarray) and r.dtype.kind in "iu":
                return r.view(IntArr)
            if isinstance(r, np.ndarray) and r.dtype.kind == "b" or np.isscalar(r) and not isinstance(r, (float, np.floating)):
                return r
        r = handle_ufunc(ufunc, method, [x if isinstance(x, np.ndarray) and x.dtype == object or not isinstance(x, np.ndarray) else as_obj(x).view(SymArray) for x in plain_], dict(kw))
        if isinstance(r, np.ndarray) and r.dtype.kind == "f":
            r = real_to_sym(r)
        return r


class SymArray(np.ndarray):
    __array_priority__ = 100

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return handle_ufunc(ufunc, method, inputs, dict(kw))

    def __array_function__(self, func, types_, args, kwargs):
        return call_np(func.__name__, func, args, kwargs)

    def __array_finalize__(self, obj):
        pass

    def __array_wrap__(self, a, context=None, return_scalar=False):
        return wrap(np.asarray(a)) if isinstance(a, np.ndarray) else a

    def __getitem__(self, k):
        k = _conc_index(k)
        r = np.ndarray.__getitem__(self, k)
        return r

    def __setitem__(self, k, v):
        if isinstance(k, tuple) and len(k) == 1 and isinstance(k[0], np.ndarray):
            k = k[0]
        if isinstance(k, np.ndarray) and k.dtype == object and _is_bool_sym(k):
            vv = as_obj(v)
            if k.ndim <= self.ndim and (vv.ndim <= self.ndim - k.ndim):
                cur = plain(self)
                m = plain(k).reshape(k.shape + (1,) * (self.ndim - k.ndim))
                np.ndarray.__setitem__(self, Ellipsis, plain(np_where(m, np.broadcast_to(vv, self.shape), cur)))
                return
        k = _conc_index(k)
        if isinstance(v, np.ndarray) and v.dtype == object:
            v = plain(v)
        elif isinstance(v, np.ndarray):
            v = as_obj(v)
        elif isinstance(v, (list, tuple, range)):
            v = as_obj(np_array(list(v)))
        else:
            v = lift_scalar(v.item() if isinstance(v, np.generic) else v)
            if isinstance(v, str):
                v = Engine.cur.parse_float(v)
            if isinstance(v, int) and not isinstance(v, bool):
                v = Sym.const(v)
            if not isinstance(v, (Sym, SymBool, SymC, float, bool)):
                if isinstance(v, complex):
                    v = SymC.lift(v)
                elif v is None:
                    v = NAN
                else:
                    v = as_obj(getattr(v, "__array__", lambda: _raise_te(v))())
        np.ndarray.__setitem__(plain(self), k, v)

    # ---------------------------------------------------------------- methods
    def all(self, axis=None, out=None, keepdims=False, **kw):
        return _reduce("logical_and", self, axis, keepdims)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return _reduce("logical_or", self, axis, keepdims)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return _reduce("add", self, axis, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return _reduce("multiply", self, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return _reduce("maximum", self, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return _reduce("minimum", self, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return np_mean(self, axis, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return np_std(self, axis, ddof=ddof, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return np_var(self, axis, ddof=ddof, keepdims=keepdims)

    def argmax(self, axis=None, out=None, **kw):
        return np_argmax(self, axis)

    def argmin(self, axis=None, out=None, **kw):
        return np_argmin(self, axis)

    def argsort(self, axis=-1, kind=None, **kw):
        return np_argsort(self, axis)

    def sort(self, axis=-1, kind=None, **kw):
        self[...] = np_sort(self, axis)

    def nonzero(self):
        return np.nonzero(_conc_bool(as_obj(OVR["not_equal"](self, 0)) if not _is_bool_sym(self) else self))

    def dot(self, o, out=None):
        return np_dot(self, o)

    def round(self, decimals=0, out=None):
        return np_round(self, decimals)

    def clip(self, min=None, max=None, out=None, **kw):
        return np_clip(self, min, max)

    def cumsum(self, axis=None, dtype=None, out=None):
        a = self if axis is not None else self.reshape(-1)
        return handle_ufunc(np.add, "accumulate", (a,), {"axis": axis or 0})

    def trace(self, *a, **k):
        return wrap(plain(self).trace(*a, **k))

    def conj(self):
        return handle_ufunc(np.conjugate, "__call__", (self,), {})

    conjugate = conj

    @property
    def real(self):
        return np_real(self)

    @property
    def imag(self):
        return np_imag(self)

    @property
    def dtype(self):
        return np.dtype(object)

    def astype(self, dtype, *a, copy=True, **k):
        if _is_float(dtype) or dtype is object:
            if _is_bool_sym(self):
                return wrap_keep(np.frompyfunc(lambda x: Sym.const(int(x)) if isinstance(x, (bool, np.bool_)) else x.as_sym(), 1, 1)(plain(self)))
            return self.copy() if copy else self
        kind = np.dtype(dtype).kind
        if kind == "b":
            return OVR["not_equal"](self, 0) if not _is_bool_sym(self) else self.copy()
        if kind in "iu":
            r = np.empty(self.shape, dtype=dtype)
            for i, x in enumerate(self.flat):
                r.flat[i] = int(x) if not isinstance(x, SymBool) else int(bool(x))
            return r
        if kind == "c":
            return wrap_keep(np.frompyfunc(SymC.lift, 1, 1)(plain(self)))
        raise Unsupported(f"astype {dtype}")

    def copy(self, order="C"):
        return np.ndarray.copy(plain(self)).view(SymArray)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def tolist(self):
        return plain(self).tolist()

    def item(self, *a):
        return plain(self).item(*a)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        x = plain(self).reshape(-1)[0]
        return bool(core._b(x))

    def __float__(self):
        if self.size != 1:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        return float(plain(self).reshape(-1)[0])

    def __int__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return int(plain(self).reshape(-1)[0])

    def __contains__(self, v):
        return bool(_reduce("logical_or", OVR["equal"](self, v), None))

    def __matmul__(self, o):
        return handle_ufunc(np.matmul, "__call__", (self, o), {})

    def __rmatmul__(self, o):
        return handle_ufunc(np.matmul, "__call__", (o, self), {})

    def __repr__(self):
        return "SymArray" + str(self.shape)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def tobytes(self, *a, **k):
        return plain(to_real(self)).tobytes()

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")


def _raise_te(v):
    raise TypeError(f"float() argument must be a string or a real number, not '{type(v).__name__}'")


# ------------------------------------------------------------------------------------ dtype markers
class _F64Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (Sym, np.float64, float))

    def __call__(cls, x=0.0, *a):
        return sym_float(x)


class F64(metaclass=_F64Meta):
    """Stands for numpy.float64."""


def _is_float(dt):
    if dt is F64:
        return True
    if dt is None:
        return False
    if isinstance(dt, str) and dt in ("float64", "float", "float32", "d", "f", "f8", "f4", "double"):
        return True
    if dt is float or getattr(dt, "_vsym_float", False):
        return True
    try:
        return np.dtype(dt).kind == "f"
    except TypeError:
        return False


def sym_float(x):
    """float(x) with symbolic values and printed tokens understood."""
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        return x.as_sym()
    if isinstance(x, SymArray):
        if x.size != 1 or x.ndim:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        return sym_float(x.item())
    if isinstance(x, str):
        return Engine.cur.parse_float(x)
    if hasattr(x, "__vsym_float__"):
        return x.__vsym_float__()
    return lift_scalar(float(x))


# ------------------------------------------------------------------------------------ array creation
def _shape_of(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple, range)):
        shapes = [_shape_of(v) for v in x]
        if not shapes:
            return (0,)
        if any(s != shapes[0] for s in shapes):
            raise ValueError(INHOM)
        return (len(x),) + shapes[0]
    if hasattr(x, "__vsym_array__"):
        return x.__vsym_array__().shape
    return ()


def _fill(out, x):
    if isinstance(x, np.ndarray):
        out[...] = as_obj(x)
    elif isinstance(x, (list, tuple, range)):
        for i, v in enumerate(x):
            if out.ndim == 1:
                if isinstance(v, np.ndarray) and v.ndim == 0:
                    v = v.item()
                v = v.item() if isinstance(v, np.generic) else v
                out[i] = lift_scalar(v)
            else:
                _fill(out[i], v)
    elif hasattr(x, "__vsym_array__"):
        out[...] = as_obj(x.__vsym_array__())
    else:
        out[()] = lift_scalar(x)


def _needs_sym(x):
    if isinstance(x, (Sym, SymBool, SymC)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_needs_sym(v) for v in x)
    return hasattr(x, "__vsym_array__")


def np_array(obj, dtype=None, copy=True, order=None, subok=False, ndmin=0, **kw):
    if hasattr(obj, "__vsym_array__"):
        obj = obj.__vsym_array__()
    if isinstance(obj, (map, filter, zip)) or isinstance(obj, types.GeneratorType):
        raise Unsupported("array from an iterator")
    if not _needs_sym(obj):
        if _is_float(dtype):
            dtype = float
        r = np.array(obj, dtype=dtype, ndmin=ndmin)
        if r.dtype.kind == "f":
            return wrap_keep(as_obj(r))
        if r.dtype.kind == "U" and _is_float(dtype):
            raise Unsupported("string array")
        return r
    shape = _shape_of(obj)
    out = np.empty(shape, dtype=object)
    _fill(out, obj)
    if shape:
        flat = out.reshape(-1)
    else:
        flat = [out.item()]
    boolish = all(isinstance(x, (bool, np.bool_, SymBool)) for x in flat) and len(flat) > 0
    if not boolish:
        for i in range(len(flat)):
            x = flat[i]
            if isinstance(x, (bool, int, np.integer)):
                x = Sym.const(int(x))
            elif isinstance(x, SymBool):
                x = x.as_sym()
            elif isinstance(x, str):
                x = Engine.cur.parse_float(x)
            if shape:
                flat[i] = x
            else:
                out[()] = x
    r = out.view(SymArray)
    if boolish:
        f = fold_bool(out)
        r = f if isinstance(f, np.ndarray) else r
    if dtype is not None and isinstance(r, SymArray):
        r = r.astype(dtype)
    elif dtype is not None:
        r = real_to_sym(r.astype(float if _is_float(dtype) else dtype))
    while r.ndim < ndmin:
        r = r[None]
    return r


def np_asarray(obj, dtype=None, **kw):
    if isinstance(obj, SymArray) and (dtype is None or _is_float(dtype)):
        return obj
    if isinstance(obj, np.ndarray) and obj.dtype.kind in "iub" and dtype is None:
        return obj
    return np_array(obj, dtype=dtype)


def _shape_arg(s):
    if isinstance(s, (int, np.integer)):
        return (int(s),)
    if isinstance(s, Sym):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return tuple(int(x) for x in s)


def _full(shape, v, dtype):
    if dtype is not None and not _is_float(dtype) and np.dtype(dtype).kind in "iubU":
        return np.full(_shape_arg(shape), v, dtype=dtype)
    if dtype is object:
        return np.full(_shape_arg(shape), v, dtype=object)
    r = np.empty(_shape_arg(shape), dtype=object)
    v = lift_scalar(v)
    if isinstance(v, np.ndarray):
        r[...] = as_obj(v)
    else:
        if isinstance(v, int) and not isinstance(v, bool):
            v = Sym.const(v)
        r.fill(v)
    return r.view(SymArray)


def np_zeros(shape, dtype=None, *a, **k):
    return _full(shape, 0.0 if not (dtype is not None and not _is_float(dtype)) else 0, dtype)


def np_ones(shape, dtype=None, *a, **k):
    return _full(shape, 1.0 if not (dtype is not None and not _is_float(dtype)) else 1, dtype)


def np_empty(shape, dtype=None, *a, **k):
    """Uninitialised memory is arbitrary: nan shows up if it is ever used."""
    if dtype is not None and not _is_float(dtype):
        return np.empty(shape, dtype=dtype)
    return _full(shape, NAN, None)


def np_full(shape, fill_value, dtype=None, **k):
    if dtype is None and isinstance(fill_value, (int, np.integer, bool, np.bool_)):
        return np.full(shape, fill_value)
    return _full(shape, fill_value, dtype)


def _like(v):
    def f(a, dtype=None, *x, shape=None, **k):
        a = np_asarray(a) if not isinstance(a, np.ndarray) else a
        sh = a.shape if shape is None else shape
        if isinstance(a, SymArray) and dtype is None:
            return _full(sh, v, None)
        if dtype is None:
            return np.full(sh, 0 if v != v else v, dtype=a.dtype)
        return _full(sh, 0 if v != v else v, dtype)

    return f


def np_full_like(a, fill_value, dtype=None, **k):
    a = np_asarray(a)
    if isinstance(a, SymArray) and dtype is None:
        return _full(a.shape, fill_value, None)
    return real_to_sym(np.full(a.shape, fill_value, dtype=a.dtype if dtype is None else dtype))


def np_eye(N, M=None, k=0, dtype=None, **kw):
    if dtype is not None and not _is_float(dtype):
        return np.eye(N, M, k, dtype=dtype)
    return real_to_sym(np.eye(N, M, k))


def np_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = concretize_int(num) if isinstance(num, Sym) else int(num)
    start, stop = _n(start), _n(stop)
    start = Sym.lift(start) if not isinstance(start, np.ndarray) else start
    stop = Sym.lift(stop) if not isinstance(stop, np.ndarray) else stop
    if isinstance(start, np.ndarray) or isinstance(stop, np.ndarray):
        raise Unsupported("linspace with arrays")
    div = (num - 1) if endpoint else num
    step = (stop - start) / div if div > 0 else NAN
    r = np.empty(num, dtype=object)
    for i in range(num):
        r[i] = start + step * i if div > 0 else start
    if endpoint and num > 1:
        r[-1] = stop
    r = r.view(SymArray)
    return (r, step) if retstep else r


def np_arange(*a, dtype=None, **k):
    if has_sym(list(a)):
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        n = concretize_int(-sym_floor(-((Sym.lift(stop) - start) / step)))
        r = np.empty(max(n, 0), dtype=object)
        for i in range(max(n, 0)):
            r[i] = Sym.lift(start) + Sym.lift(step) * i
        return r.view(SymArray)
    if dtype is not None and _is_float(dtype):
        dtype = float
    a = [to_real(x) for x in a]
    return real_to_sym(np.arange(*a, dtype=dtype))


# ------------------------------------------------------------------------------------ functions
def np_where(c, *xy):
    if not xy:
        c = fold_bool(as_obj(c)) if not (isinstance(c, np.ndarray) and c.dtype != object) else c
        return np.nonzero(_conc_bool(c) if isinstance(c, SymArray) else c)
    x, y = xy
    ints = not _needs_sym(c) and all(not _needs_sym(v) and np.asarray(v).dtype.kind in "iub" for v in (x, y))
    if ints:
        return np.where(c, x, y)
    co = as_obj(c)
    res = np.frompyfunc(lambda cc, a, b: ite(cc, a, b) if not isinstance(cc, (np.bool_, int)) else (a if cc else b), 3, 1)(co, as_obj(x), as_obj(y))
    if isinstance(res, np.ndarray):
        if res.size and all(isinstance(v, (bool, np.bool_, SymBool)) for v in res.flat):
            return fold_bool(res)
        res = np.frompyfunc(lambda v: Sym.const(int(v)) if isinstance(v, (bool, int)) else v, 1, 1)(res)
        return wrap_keep(res) if isinstance(res, np.ndarray) else res
    return res


def _s_isclose(a, b, rtol, atol, equal_nan):
    a, b = _n(a), _n(b)
    if isinstance(a, float) or isinstance(b, float):
        if s_isnan(a) or s_isnan(b):
            return bool(equal_nan and s_isnan(a) and s_isnan(b))
        return a == b if isinstance(a, float) and isinstance(b, float) else False
    if isinstance(a, SymC) or isinstance(b, SymC):
        d = SymC.lift(a) - b
        return abs(d) <= atol + rtol * abs(SymC.lift(b))
    a, b = _to_sym(a if not isinstance(a, SymBool) else a.as_sym()), _to_sym(b if not isinstance(b, SymBool) else b.as_sym())
    d = a - b
    if _iszero(d):
        return True
    bc = b.const_value()
    tol = core.to_frac(atol) + core.to_frac(rtol) * abs(bc) if bc is not None else atol + rtol * sym_abs(b)
    # |d| <= tol without an absolute-value atom
    return b_and(d <= tol, -d <= tol)


def np_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    res = np.frompyfunc(lambda x, y: _s_isclose(x, y, rtol, atol, equal_nan), 2, 1)(as_obj(a), as_obj(b))
    return fold_bool(res)


def np_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return np_all(np_isclose(a, b, rtol, atol, equal_nan))


def np_all(a, axis=None, out=None, keepdims=False, **kw):
    if not isinstance(a, np.ndarray):
        if isinstance(a, (SymBool, bool, np.bool_)):
            return a
        if isinstance(a, Sym):
            return a != 0
        a = np_asarray(list(a) if not isinstance(a, (list, tuple, int, float)) else a)
    if a.dtype != object:
        return np.all(a, axis=axis, keepdims=keepdims)
    return _reduce("logical_and", a, axis, keepdims)


def np_any(a, axis=None, out=None, keepdims=False, **kw):
    if not isinstance(a, np.ndarray):
        if isinstance(a, (SymBool, bool, np.bool_)):
            return a
        if isinstance(a, Sym):
            return a != 0
        a = np_asarray(list(a) if not isinstance(a, (list, tuple, int, float)) else a)
    if a.dtype != object:
        return np.any(a, axis=axis, keepdims=keepdims)
    return _reduce("logical_or", a, axis, keepdims)


def np_array_equal(a, b, equal_nan=False):
    try:
        a, b = np_asarray(a), np_asarray(b)
    except (ValueError, TypeError):
        return False
    if a.shape != b.shape:
        return False
    return np_all(OVR["equal"](a, b))


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    if where is not None:
        a = np_where(where, a, 0)
    if not _needs_sym(a) and not isinstance(a, types.GeneratorType):
        r = np.asarray(a)
        if r.dtype.kind in "iub":
            return np.sum(r, axis=axis, keepdims=keepdims)
    return _out((out,) if out is not None else None, _reduce("add", np_asarray(a), axis, keepdims, None if initial in (None, np._NoValue) else initial))


def np_prod(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if not _needs_sym(a):
        r = np.asarray(a)
        if r.dtype.kind in "iub":
            return np.prod(r, axis=axis, keepdims=keepdims)
    return _reduce("multiply", np_asarray(a), axis, keepdims)


def _count(a, axis):
    if axis is None:
        return a.size
    ax = axis if isinstance(axis, tuple) else (axis,)
    return int(np.prod([a.shape[i] for i in ax]))


def np_mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = np_asarray(a)
    n = _count(a, axis)
    s = _reduce("add", a, axis, keepdims)
    return OVR["divide"](s, n)


def np_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, correction=None, **kw):
    a = np_asarray(a)
    if correction is not None:
        ddof = correction
    n = _count(a, axis)
    m = np_mean(a, axis, keepdims=True)
    d = OVR["subtract"](a, m)
    return OVR["divide"](_reduce("add", OVR["multiply"](d, d), axis, keepdims), n - ddof)


def np_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    return OVR["sqrt"](np_var(a, axis, ddof=ddof, keepdims=keepdims, **kw))


def np_max(a, axis=None, out=None, keepdims=False, **kw):
    if not _needs_sym(a) and np.asarray(a).dtype.kind in "iub":
        return np.max(a, axis=axis, keepdims=keepdims)
    return _reduce("maximum", np_asarray(a), axis, keepdims)


def np_min(a, axis=None, out=None, keepdims=False, **kw):
    if not _needs_sym(a) and np.asarray(a).dtype.kind in "iub":
        return np.min(a, axis=axis, keepdims=keepdims)
    return _reduce("minimum", np_asarray(a), axis, keepdims)


def _argext(a, axis, better):
    a = as_obj(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    t = np.moveaxis(a, axis, -1)
    out = np.empty(t.shape[:-1], dtype=int)
    for idx in np.ndindex(*out.shape):
        row = t[idx]
        best = 0
        for i in range(1, len(row)):
            if better(_n(row[i]), _n(row[best])):
                best = i
        out[idx] = best
    return out if out.ndim else np.int64(out[()])


def np_argmax(a, axis=None, **k):
    return _argext(np_asarray(a), axis, lambda x, y: bool(x > y))


def np_argmin(a, axis=None, **k):
    return _argext(np_asarray(a), axis, lambda x, y: bool(x < y))


def np_argsort(a, axis=-1, kind=None, **k):
    a = np_asarray(a)
    if a.dtype != object:
        return np.argsort(a, axis=axis, kind="stable")
    if a.ndim != 1:
        if axis is None:
            return np_argsort(a.reshape(-1))
        t = np.moveaxis(plain(a), axis, -1)
        out = np.empty(t.shape, dtype=int)
        for idx in np.ndindex(*t.shape[:-1]):
            out[idx] = np_argsort(t[idx].view(SymArray))
        return np.moveaxis(out, -1, axis)
    order = []
    for i in range(len(a)):
        pos = len(order)
        while pos > 0 and bool(_n(a[i]) < _n(a[order[pos - 1]])):
            pos -= 1
        order.insert(pos, i)
    return np.array(order, dtype=int)


def np_sort(a, axis=-1, **k):
    a = np_asarray(a)
    if a.dtype != object:
        return np.sort(a, axis=axis)
    if axis is None:
        a, axis = a.reshape(-1), 0
    return wrap_keep(np.take_along_axis(plain(a), np_argsort(a, axis), axis=axis))


def np_round(a, decimals=0, out=None):
    s = 10**decimals
    return OVR["divide"](OVR["rint"](OVR["multiply"](a, s)), s) if decimals else OVR["rint"](a)


def np_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    if lo is not None:
        a = OVR["maximum"](a, lo)
    if hi is not None:
        a = OVR["minimum"](a, hi)
    return a


def np_real(a):
    if isinstance(a, (SymC, Sym, complex, float, int)):
        return a.real
    return wrap_keep(np.frompyfunc(lambda x: x.re if isinstance(x, SymC) else x, 1, 1)(as_obj(a)))


def np_imag(a):
    if isinstance(a, (SymC, complex)):
        return a.imag
    return wrap_keep(np.frompyfunc(lambda x: x.im if isinstance(x, SymC) else Sym.const(0), 1, 1)(as_obj(a)))


def np_dot(a, b, out=None):
    a, b = np_asarray(a), np_asarray(b)
    if a.dtype != object and b.dtype != object:
        return np.dot(a, b)
    if a.ndim == 0 or b.ndim == 0:
        return OVR["multiply"](a, b)
    A, B = as_obj(a), as_obj(b)
    kb = B.shape[-2] if B.ndim > 1 else B.shape[0]
    if A.shape[-1] != kb:
        raise ValueError(f"shapes {A.shape} and {B.shape} not aligned: {A.shape[-1]} (dim {A.ndim-1}) != {kb} (dim {max(B.ndim-2,0)})")
    if B.ndim <= 2:
        if A.ndim == 1 and B.ndim == 1:
            return sum_prod(A, B)
        return _matmul(A, B) if A.ndim <= 2 else _matmul(A, B)
    raise Unsupported("dot with ndim > 2")


def np_inner(a, b):
    a, b = np_asarray(a), np_asarray(b)
    if a.ndim == 1 and b.ndim == 1:
        return np_dot(a, b)
    return np_dot(a, wrap_keep(np.moveaxis(plain(b), -1, -2)) if b.ndim > 1 else b)


def np_vdot(a, b):
    return sum_prod(as_obj(a).reshape(-1), as_obj(b).reshape(-1))


def np_outer(a, b):
    return handle_ufunc(np.multiply, "outer", (as_obj(a).reshape(-1), as_obj(b).reshape(-1)), {})


def np_tensordot(a, b, axes=2):
    A, B = as_obj(np_asarray(a)), as_obj(np_asarray(b))
    if isinstance(axes, int):
        aa, bb = list(range(A.ndim - axes, A.ndim)), list(range(axes))
    else:
        aa, bb = axes
        aa = [aa] if isinstance(aa, int) else list(aa)
        bb = [bb] if isinstance(bb, int) else list(bb)
    aa = [x % A.ndim for x in aa]
    bb = [x % B.ndim for x in bb]
    ra = [i for i in range(A.ndim) if i not in aa]
    rb = [i for i in range(B.ndim) if i not in bb]
    A2 = A.transpose(ra + aa).reshape(int(np.prod([A.shape[i] for i in ra])), -1)
    B2 = B.transpose(bb + rb).reshape(-1, int(np.prod([B.shape[i] for i in rb])))
    r = plain(_matmul(A2, B2))
    return wrap(r.reshape([A.shape[i] for i in ra] + [B.shape[i] for i in rb]))


def np_cross(a, b, axis=-1, **k):
    a, b = np_asarray(a), np_asarray(b)
    A, B = np.broadcast_arrays(plain(np.moveaxis(as_obj(a), axis, -1)), plain(np.moveaxis(as_obj(b), axis, -1)))
    if A.shape[-1] != 3:
        raise Unsupported("cross of non-3-vectors")
    out = np.empty(A.shape, dtype=object)
    for idx in np.ndindex(*A.shape[:-1]):
        x, y = A[idx], B[idx]
        out[idx + (0,)] = x[1] * y[2] - x[2] * y[1]
        out[idx + (1,)] = x[2] * y[0] - x[0] * y[2]
        out[idx + (2,)] = x[0] * y[1] - x[1] * y[0]
    return wrap_keep(np.moveaxis(out, -1, axis))


def np_einsum(sub, *ops, **kw):
    if not isinstance(sub, str):
        raise Unsupported("einsum list format")
    ops = [as_obj(np_asarray(o)) for o in ops]
    sub = sub.replace(" ", "")
    if "->" in sub:
        ins, out = sub.split("->")
    else:
        ins = sub
        letters = [c for c in ins if c.isalpha()]
        out = ("..." if "..." in ins else "") + "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(",")
    if len(ins) != len(ops):
        raise ValueError("more operands provided to einstein sum function than specified in the subscripts string")
    # expand ellipsis
    pool = [c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if c not in sub]
    nell = max([o.ndim - len(i.replace("...", "")) for i, o in zip(ins, ops) if "..." in i] or [0])
    ell = "".join(pool[:nell])
    ins2 = []
    for i, o in zip(ins, ops):
        if "..." in i:
            n = o.ndim - len(i.replace("...", ""))
            i = i.replace("...", ell[nell - n :])
        if len(i) != o.ndim:
            raise ValueError("einstein sum subscripts string contains too many or few subscripts for operand")
        ins2.append(i)
    out = out.replace("...", ell)
    dims = {}
    for i, o in zip(ins2, ops):
        for c, d in zip(i, o.shape):
            if dims.get(c, d) != d and 1 not in (d, dims.get(c)):
                raise ValueError(f"operands could not be broadcast together with remapped shapes: {c}")
            dims[c] = max(d, dims.get(c, d)) if d and dims.get(c, 1) else 0
    summed = [c for c in dims if c not in out]
    res = np.empty([dims[c] for c in out], dtype=object)
    for idx in np.ndindex(*res.shape):
        env = dict(zip(out, idx))
        t = Sym.const(0)
        for sidx in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, sidx))
            p = None
            for i, o in zip(ins2, ops):
                v = _n(o[tuple(env[c] if o.shape[k] > 1 else 0 for k, c in enumerate(i))])
                if isinstance(v, SymBool):
                    v = v.as_sym()
                p = v if p is None else p * v
                if _iszero(p):
                    break
            t = t + p
        res[idx] = t
    return wrap(res)


def np_unique(a, return_index=False, return_inverse=False, return_counts=False, **k):
    a = np_asarray(a)
    if a.dtype != object or not has_sym(a):
        return real_to_sym(np.unique(to_real(a), return_index, return_inverse, return_counts, **k))
    raise Unsupported("unique of symbolic values")


def np_nonzero(a):
    a = np_asarray(a)
    if isinstance(a, SymArray):
        return a.nonzero()
    return np.nonzero(a)


def np_count_nonzero(a, axis=None, **k):
    a = np_asarray(a)
    if a.dtype != object:
        return np.count_nonzero(a, axis=axis)
    return _reduce("add", np.frompyfunc(lambda x: core._b(x), 1, 1)(plain(a)), axis)


def np_diff(a, n=1, axis=-1, **k):
    a = np_asarray(a)
    r = plain(a)
    for _ in range(n):
        s1, s2 = [slice(None)] * r.ndim, [slice(None)] * r.ndim
        s1[axis], s2[axis] = slice(1, None), slice(None, -1)
        r = plain(handle_ufunc(np.subtract, "__call__", (r[tuple(s1)], r[tuple(s2)]), {}))
    return wrap_keep(r)


def np_searchsorted(a, v, side="left", **k):
    a, v = as_obj(np_asarray(a)), as_obj(v)

    def one(x):
        n = 0
        for y in a:
            c = _n(y) < x if side == "left" else _n(y) <= x
            if not bool(c):
                break
            n += 1
        return n

    r = np.frompyfunc(one, 1, 1)(v)
    return r.astype(int) if isinstance(r, np.ndarray) else r


def np_interp(x, xp, fp, left=None, right=None, **k):
    xp, fp = as_obj(np_asarray(xp)), as_obj(np_asarray(fp))

    def one(t):
        r = fp[-1] if right is None else right
        for i in range(len(xp) - 2, -1, -1):
            y = fp[i] + (fp[i + 1] - fp[i]) * s_div(t - xp[i], xp[i + 1] - xp[i])
            r = ite(t <= xp[i + 1], y, r)
        return ite(t < xp[0], fp[0] if left is None else left, r)

    return wrap(np.frompyfunc(one, 1, 1)(as_obj(x)))


def np_copy(a, *x, **k):
    return np_array(a)


def np_array2string(a, max_line_width=None, precision=8, suppress_small=None, separator=" ", prefix="", *x, sign="-", formatter=None, **k):
    a = np_asarray(a)
    if a.ndim != 1 or formatter is not None:
        return "[array]"
    spec = ("+" if sign == "+" else " " if sign == " " else "") + f".{precision}f"
    return "[" + separator.join(format(v, spec) for v in a) + "]"


def np_gradient(*a, **k):
    raise Unsupported("gradient")


def np_trapezoid(y, x=None, dx=1.0, axis=-1):
    y = np_asarray(y)
    if y.ndim != 1:
        raise Unsupported("trapezoid nd")
    t = Sym.const(0)
    for i in range(len(y) - 1):
        t = t + (y[i] + y[i + 1]) * ((x[i + 1] - x[i]) if x is not None else dx) / 2
    return t


# ---- linear algebra
def la_norm(x, ord=None, axis=None, keepdims=False):
    x = np_asarray(x) if not isinstance(x, np.ndarray) else x
    if x.dtype == object and _is_bool_sym(x):
        x = x.astype(float)
    if x.ndim == 0:
        return OVR["absolute"](x)
    if ord in (1, np.inf, -np.inf) and x.ndim == 1:
        a = OVR["absolute"](x)
        return _reduce("add", a, None) if ord == 1 else _reduce("maximum" if ord > 0 else "minimum", a, None)
    if ord not in (None, 2, "fro") or (ord == 2 and x.ndim > 1 and axis is None):
        raise Unsupported(f"norm ord={ord}")
    if ord == "fro" and axis is None:
        axis = None
    return OVR["sqrt"](_reduce("add", OVR["multiply"](x, x), axis, keepdims))


def la_det(a):
    a = as_obj(np_asarray(a))
    _square(a)
    out = np.empty(a.shape[:-2], dtype=object)
    for idx in np.ndindex(*out.shape):
        out[idx] = _det(a[idx])
    return wrap(out)


def _det(m):
    n = m.shape[0]
    if n == 1:
        return m[0, 0]
    if n == 2:
        return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    t = Sym.const(0)
    for j in range(n):
        if _iszero(m[0, j]):
            continue
        minor = np.delete(np.delete(m, 0, 0), j, 1)
        d = m[0, j] * _det(minor)
        t = t + d if j % 2 == 0 else t - d
    return t


def _square(a):
    if a.ndim < 2 or a.shape[-1] != a.shape[-2]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")


def la_inv(a):
    a = np_asarray(a)
    if a.dtype != object:
        a = wrap_keep(as_obj(a))
    a = as_obj(a)
    _square(a)
    out = np.empty(a.shape, dtype=object)
    for idx in np.ndindex(*a.shape[:-2]):
        m = a[idx]
        n = m.shape[0]
        det = Sym.lift(_det(m))
        z = det == 0
        if z is True or (isinstance(z, SymBool) and not core.known_nonzero(det) and bool(z)):
            raise np.linalg.LinAlgError("Singular matrix")
        r = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                if n == 1:
                    c = Sym.const(1)
                else:
                    c = Sym.lift(_det(np.delete(np.delete(m, j, 0), i, 1)))
                    if (i + j) % 2:
                        c = -c
                r[i, j] = c / det
        out[idx] = r
    return wrap_keep(out)


def la_solve(a, b):
    return handle_ufunc(np.matmul, "__call__", (la_inv(a), b), {})


def la_matrix_power(a, n):
    if n < 0:
        a, n = la_inv(a), -n
    r = np_eye(np.shape(a)[-1])
    for _ in range(n):
        r = r @ a
    return r


class ModProxy(types.ModuleType):
    """Proxy of a module: overrides first, then real attributes wrapped generically."""

    def __init__(self, name, real, overrides):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__["_ovr"] = overrides

    def __getattr__(self, name):
        o = self.__dict__["_ovr"]
        if name in o:
            return o[name]
        v = getattr(self.__dict__["_real"], name)  # AttributeError as usual
        if isinstance(v, types.ModuleType):
            return ModProxy(v.__name__, v, {})
        if isinstance(v, type) or not callable(v):
            return v
        return _generic(name, v)


def _generic(name, fn):
    def w(*a, **k):
        return call_np(name, fn, a, k)

    w.__name__ = name
    return w


def _obj_arg(x):
    if isinstance(x, SymArray):
        return plain(x)
    if isinstance(x, (list, tuple)) and _needs_sym(x):
        return type(x)(_obj_arg(v) for v in x)
    if x is F64:
        return object
    return x


STRUCTURAL = {
    "concatenate", "stack", "vstack", "hstack", "dstack", "column_stack", "append", "reshape", "ravel", "transpose",
    "expand_dims", "squeeze", "take", "roll", "flip", "fliplr", "flipud", "tile", "repeat", "broadcast_to", "moveaxis",
    "swapaxes", "split", "array_split", "insert", "delete", "atleast_1d", "atleast_2d", "atleast_3d", "broadcast_arrays",
    "rot90", "diagonal", "diag", "take_along_axis", "shape", "ndim", "size", "triu", "tril", "may_share_memory",
    "shares_memory", "meshgrid", "vsplit", "hsplit", "resize", "trace", "matrix_transpose", "rollaxis", "compress", "choose",
    "put", "ix_", "unravel_index", "permute_dims", "concat", "fill_diagonal", "copyto", "flatten", "unstack", "block", "pad",
    "kron",
}  # fmt: skip


def call_np(name, fn, args, kw):
    """Call a numpy function by name with symbolic arguments."""
    mod = getattr(fn, "__module__", "") or ""
    if "linalg" in mod and name in LA:
        return LA[name](*args, **kw)
    if name in OVR and "linalg" not in mod:
        return OVR[name](*args, **kw)
    symbolic = has_sym(list(args)) or has_sym(kw)
    if name in STRUCTURAL:
        if has_symobj(list(args)) or has_symobj(kw):
            a2 = []
            for x in args:
                if isinstance(x, (list, tuple)) and _needs_sym(x):
                    x = type(x)(
                        as_obj(np_asarray(v)) if name in ("concatenate", "stack", "vstack", "hstack", "dstack", "column_stack", "concat") else _obj_arg(v)
                        for v in x
                    )
                    if name not in ("concatenate", "stack", "vstack", "hstack", "dstack", "column_stack", "concat", "block"):
                        x = as_obj(np_array(x))
                elif isinstance(x, (Sym, SymBool)):
                    x = as_obj(x)
                else:
                    x = _obj_arg(x)
                a2.append(x)
            r = fn(*a2, **{k: _obj_arg(v) for k, v in kw.items()})
            return _lift_all(r)
        return real_to_sym(fn(*[to_real(a) for a in args], **{k: to_real(v) for k, v in kw.items()}))
    if not symbolic:
        return real_to_sym(fn(*[to_real(a) for a in args], **{k: to_real(v) for k, v in kw.items()}))
    raise Unsupported(f"numpy function {name}")


def _lift_all(r):
    if isinstance(r, np.ndarray) and r.dtype == object:
        if r.ndim == 0:
            return lift_scalar(r.item())
        if r.flags.writeable:
            flat = r.reshape(-1) if r.flags.c_contiguous else None
            it = flat if flat is not None else None
            if it is not None:
                for i in range(len(it)):
                    x = it[i]
                    if type(x) is float or isinstance(x, np.floating):
                        it[i] = lift_scalar(float(x))
                    elif type(x) is int or isinstance(x, np.integer):
                        it[i] = Sym.const(int(x))
        if r.size and all(isinstance(x, (bool, np.bool_)) for x in r.flat):
            return r.astype(bool)
        return r.view(SymArray)
    if isinstance(r, tuple):
        return tuple(_lift_all(x) for x in r)
    if isinstance(r, list):
        return [_lift_all(x) for x in r]
    return real_to_sym(r)


def _ufunc_w(name):
    uf = getattr(np, name)

    def w(*a, **k):
        if not has_symobj(list(a)) and not has_symobj(k):
            arrs = [np.asarray(x) for x in a]
            if all(x.dtype.kind in "iub" for x in arrs) and name not in ("divide", "true_divide", "sqrt", "exp", "reciprocal", "cbrt", "log", "cos", "sin", "float_power"):
                return uf(*a, **k)
        return handle_ufunc(uf, "__call__", a, dict(k))

    w.__name__ = name
    for m in ("reduce", "accumulate", "outer", "at"):

        def mm(*a, _m=m, **k):
            if not has_symobj(list(a)):
                arrs = [np.asarray(x) for x in a[:1]]
                if arrs[0].dtype.kind in "iub":
                    return getattr(uf, _m)(*a, **k)
            return handle_ufunc(uf, _m, tuple(np_asarray(x) if isinstance(x, (list, tuple)) else x for x in a[:1]) + a[1:], dict(k))

        setattr(w, m, mm)
    return w


OVR = {
    "array": np_array,
    "asarray": np_asarray,
    "asanyarray": np_asarray,
    "ascontiguousarray": np_asarray,
    "asfarray": np_asarray,
    "copy": np_copy,
    "zeros": np_zeros,
    "ones": np_ones,
    "empty": np_empty,
    "full": np_full,
    "zeros_like": _like(0.0),
    "ones_like": _like(1.0),
    "empty_like": _like(NAN),
    "full_like": np_full_like,
    "eye": np_eye,
    "identity": lambda n, dtype=None: np_eye(n, dtype=dtype),
    "linspace": np_linspace,
    "arange": np_arange,
    "where": np_where,
    "isclose": np_isclose,
    "allclose": np_allclose,
    "all": np_all,
    "any": np_any,
    "alltrue": np_all,
    "array_equal": np_array_equal,
    "array_equiv": np_array_equal,
    "sum": np_sum,
    "prod": np_prod,
    "mean": np_mean,
    "average": lambda a, axis=None, weights=None, **k: np_mean(a, axis)
    if weights is None
    else OVR["divide"](np_sum(OVR["multiply"](a, weights), axis), np_sum(weights)),
    "var": np_var,
    "std": np_std,
    "max": np_max,
    "amax": np_max,
    "min": np_min,
    "amin": np_min,
    "ptp": lambda a, axis=None, **k: OVR["subtract"](np_max(a, axis), np_min(a, axis)),
    "argmax": np_argmax,
    "argmin": np_argmin,
    "argsort": np_argsort,
    "sort": np_sort,
    "round": np_round,
    "around": np_round,
    "round_": np_round,
    "clip": np_clip,
    "real": np_real,
    "imag": np_imag,
    "dot": np_dot,
    "vdot": np_vdot,
    "inner": np_inner,
    "outer": np_outer,
    "tensordot": np_tensordot,
    "cross": np_cross,
    "einsum": np_einsum,
    "unique": np_unique,
    "nonzero": np_nonzero,
    "flatnonzero": lambda a: np_nonzero(np_asarray(a).reshape(-1))[0],
    "argwhere": lambda a: np.transpose(np.array(np_nonzero(a))),
    "count_nonzero": np_count_nonzero,
    "diff": np_diff,
    "searchsorted": np_searchsorted,
    "interp": np_interp,
    "trapz": np_trapezoid,
    "trapezoid": np_trapezoid,
    "gradient": np_gradient,
    "cumsum": lambda a, axis=None, **k: np_asarray(a).cumsum(axis),
    "array2string": np_array2string,
    "isscalar": lambda x: isinstance(x, (Sym, SymBool)) or np.isscalar(x),
    "iscomplexobj": lambda x: isinstance(x, np.ndarray) and x.dtype == object and any(isinstance(v, SymC) for v in x.flat),
    "float64": F64,
    "float32": F64,
    "double": F64,
    "floating": F64,
    "ndarray": np.ndarray,
    "errstate": np.errstate,
    "set_printoptions": lambda *a, **k: None,
    "nan_to_num": lambda a, *x, **k: np.frompyfunc(lambda v: Sym.const(0) if s_isnan(v) else v, 1, 1)(as_obj(a)).view(SymArray),
    "vectorize": lambda f, *a, **k: (lambda *x: _lift_all(np.frompyfunc(f, len(x), 1)(*[as_obj(v) for v in x]))),
    "apply_along_axis": lambda f, axis, a, *x, **k: np_array([f(r, *x, **k) for r in wrap_keep(np.moveaxis(plain(np_asarray(a)), axis, -1))])
    if np.ndim(a) == 2
    else _unsup("apply_along_axis"),
    "matmul": None,
}


def _unsup(m):
    raise Unsupported(m)


for _k in list(UF) + ["divmod", "matmul", "vecdot"]:
    if hasattr(np, _k):
        OVR[_k] = _ufunc_w(_k)
OVR["abs"] = OVR["absolute"]
OVR["conj"] = OVR["conjugate"]
OVR["bitwise_not"] = OVR["invert"]

def la_pinv(a, rcond=None, hermitian=False, rtol=None):
    """Pseudoinverse: singular values below the cutoff are dropped, which is decided for concrete matrices only."""
    a = np_asarray(a)
    o = as_obj(a)
    r = rcond if rcond is not None else rtol
    r = 1e-15 if r is None else float(r)
    if all(Sym.lift(x).const_value() is not None for x in o.flat):
        f = np.array([float(Sym.lift(x).const_value()) for x in o.flat]).reshape(o.shape)
        s = np.linalg.svd(f, compute_uv=False)
        if np.all(s[..., -1] > r * s[..., 0]) and o.shape[-1] == o.shape[-2]:
            return la_inv(a)
        return wrap_keep(as_obj(np.linalg.pinv(f, rcond=r)))
    if r > 1e-9:
        raise Unsupported("pinv of an unknown matrix with a cutoff")
    return la_inv(a)


LA = {
    "norm": la_norm,
    "inv": la_inv,
    "det": la_det,
    "solve": la_solve,
    "matrix_power": la_matrix_power,
    "pinv": la_pinv,
    "matmul": OVR["matmul"],
    "outer": np_outer,
    "cross": np_cross,
    "vecdot": lambda a, b, axis=-1: np_sum(OVR["multiply"](a, b), axis),
    "vector_norm": lambda x, axis=None, keepdims=False, ord=2: la_norm(x, None, axis, keepdims),
    "trace": lambda a, **k: call_np("trace", np.trace, (a,), k),
    "multi_dot": lambda arrs: functools.reduce(np_dot, arrs),
    "tensordot": np_tensordot,
    "LinAlgError": np.linalg.LinAlgError,
}
LA_PROXY = ModProxy("numpy.linalg", np.linalg, LA)


def np_fft(a, n=None, axis=-1, inverse=False, **k):
    a = np_asarray(a)
    axis = k.pop("norm", None) and _unsup("fft norm") or axis
    if a.ndim != 1:
        m = np.moveaxis(as_obj(a), axis, -1)
        rows = [as_obj(np_fft(r.view(SymArray), n, -1, inverse)) for r in m.reshape(-1, m.shape[-1])]
        out = np.empty((len(rows), len(rows[0]) if rows else 0), dtype=object)
        for i, r in enumerate(rows):
            out[i] = r
        return np.moveaxis(out.reshape(m.shape[:-1] + (-1,)), -1, axis).view(SymArray)
    x = list(as_obj(a))
    if n is not None:
        x = (x + [Sym.const(0)] * n)[:n]
    N = len(x)
    out = np.empty(N, dtype=object)
    for f in range(N):
        re, im = Sym.const(0), Sym.const(0)
        for t in range(N):
            c, s = cos_sin(f * t % N, N)
            v = SymC.lift(x[t])
            sg = 1 if inverse else -1
            re = re + v.re * c - v.im * (sg * s)
            im = im + v.re * (sg * s) + v.im * c
        out[f] = SymC(re, im) if not inverse else SymC(re / N, im / N)
    return out.view(SymArray)


def cos_sin(k, n):
    """Rational approximations (1e-17) of cos and sin of 2 pi k / n, exact on the axes and symmetric."""
    k %= n
    if (4 * k) % n == 0:
        q = 4 * k // n
        return Fraction([1, 0, -1, 0][q]), Fraction([0, 1, 0, -1][q])
    if 2 * k > n:
        c, s = cos_sin(n - k, n)
        return c, -s
    if 4 * k > n:
        if n % 2 == 0:
            c, s = cos_sin(n // 2 - k, n)
            return -c, s
    return Fraction(repr(math.cos(2 * math.pi * k / n))), Fraction(repr(math.sin(2 * math.pi * k / n)))


def np_fftfreq(n, d=1.0, **k):
    n = int(n)
    r = np.empty(n, dtype=object)
    for i in range(n):
        v = i if i < (n - 1) // 2 + 1 else i - n
        r[i] = s_div(Sym.const(v), _n(d) * n)
    return r.view(SymArray)


def np_rfft(a, n=None, axis=-1, **k):
    r = np_fft(a, n, axis, **k)
    m = np.moveaxis(as_obj(r), axis, -1)
    return np.moveaxis(m[..., : m.shape[-1] // 2 + 1], -1, axis).view(SymArray)


FFT_PROXY = ModProxy("numpy.fft", np.fft, {
    "fft": np_fft,
    "ifft": lambda a, n=None, axis=-1, **k: np_fft(a, n, axis, inverse=True, **k),
    "rfft": np_rfft,
    "fftfreq": np_fftfreq,
    "rfftfreq": lambda n, d=1.0: np_asarray([s_div(Sym.const(i), _n(d) * n) for i in range(n // 2 + 1)]),
})  # fmt: skip
OVR["linalg"] = LA_PROXY
OVR["fft"] = FFT_PROXY
NP = ModProxy("numpy", np, OVR)
