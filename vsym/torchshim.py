"""Symbolic stand-in for the part of torch the project uses.

Tensors wrap symbolic (or concrete integer/boolean) arrays.  Layers with weights are uninterpreted
row functions: equal rows give equal results, nothing else is assumed about them.
"""

from __future__ import annotations

import contextlib
import itertools
import types

import numpy as np
import z3

from vsym import core, nparr, proxies
from vsym.core import Engine, Sym, SymBool, Unsupported, b_and, b_or
from vsym.nparr import OVR, LA, NP, F64, SymArray, as_obj, call_np, np_array, np_asarray, plain, real_to_sym, to_real, wrap_keep


class dtype:
    def __init__(self, name, kind, npd):
        self.name, self.kind, self.np = name, kind, npd
        self.is_floating_point = kind == "f"

    def __repr__(self):
        return "torch." + self.name


float64 = dtype("float64", "f", float)
float32 = dtype("float32", "f", float)
int64 = dtype("int64", "i", np.int64)
int32 = dtype("int32", "i", np.int32)
bool_ = dtype("bool", "b", bool)


class device:
    def __init__(self, t="cpu", index=None):
        self.type = t.type if isinstance(t, device) else t

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __eq__(self, o):
        return isinstance(o, device) and o.type == self.type or o == self.type

    def __hash__(self):
        return hash(self.type)

    def __repr__(self):
        return f"device(type='{self.type}')"

    __str__ = lambda self: self.type


class Size(tuple):
    def numel(self):
        return int(np.prod(self))


def _kind(a):
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            return "b" if a.size and all(isinstance(x, (bool, np.bool_, SymBool)) for x in a.flat) else "f"
        return {"u": "i"}.get(a.dtype.kind, a.dtype.kind)
    if isinstance(a, (bool, np.bool_, SymBool)):
        return "b"
    if isinstance(a, (int, np.integer)):
        return "i"
    return "f"


def U(x):
    if isinstance(x, Tensor):
        return x.a
    if isinstance(x, (list,)):
        return [U(v) for v in x]
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(U(v) for v in x)
    return x


def idx(k):
    if isinstance(k, tuple):
        return tuple(idx(v) for v in k)
    if isinstance(k, Tensor):
        a = k.a
        if isinstance(a, (int, np.integer)):
            return int(a)
        if isinstance(a, SymBool):
            return bool(a)
        return a
    if isinstance(k, list):
        return [idx(v) for v in k]
    if isinstance(k, Sym):
        raise TypeError("only integer tensors can be used as an index")
    return k


def W(a):
    return Tensor(a)


def arr(x):
    """Operand as array/scalar for symbolic numpy."""
    x = U(x)
    if isinstance(x, (float,)):
        return nparr.lift_scalar(x)
    if isinstance(x, (list, tuple)):
        return np_array(x)
    return x


def _el(name):
    f = OVR[name]

    def g(self, *o):
        return W(f(self.a, *[arr(x) for x in o]))

    return g


def _rel(name):
    f = OVR[name]

    def g(self, o):
        return W(f(arr(o), self.a))

    return g


def _inpl(name):
    f = OVR[name]

    def g(self, *o):
        r = f(self.a, *[arr(x) for x in o])
        if not isinstance(self.a, np.ndarray):
            self.a = r
            return self
        if self.a.dtype != object and isinstance(r, np.ndarray) and _kind(r) == "f":
            raise RuntimeError("result type Float can't be cast to the desired output type Long")
        self.a[...] = r
        return self

    return g


def _dimkw(dim, axis):
    return dim if dim is not None else axis


def _red(name):
    def g(self, dim=None, keepdim=False, dtype=None, axis=None, **k):
        a = self.a if isinstance(self.a, np.ndarray) else np_asarray(self.a)
        return W(OVR[name](a, axis=_ax(_dimkw(dim, axis)), keepdims=keepdim))

    return g


def _ax(d):
    if isinstance(d, list):
        return tuple(d)
    return d


class Tensor:
    __array_priority__ = 5000
    __array_ufunc__ = None
    requires_grad = False
    grad = None

    def __init__(self, a):
        if isinstance(a, Tensor):
            a = a.a
        if isinstance(a, np.bool_):
            a = bool(a)
        self.a = a

    # ---- conversion
    def __vsym_array__(self):
        return np_asarray(self.a) if not isinstance(self.a, np.ndarray) else self.a

    def __vsym_float__(self):
        a = self.a
        if isinstance(a, np.ndarray):
            if a.size != 1:
                raise RuntimeError("a Tensor with more than 1 elements cannot be converted to Scalar")
            a = a.reshape(-1)[0]
        return nparr.sym_float(a)

    def __float__(self):
        return float(self.__vsym_float__())

    def item(self):
        a = self.a
        if isinstance(a, np.ndarray):
            if a.size != 1:
                raise RuntimeError("a Tensor with more than 1 elements cannot be converted to Scalar")
            a = a.reshape(-1)[0]
        return a.item() if isinstance(a, np.generic) else a

    def __int__(self):
        return int(self.item())

    def __index__(self):
        v = self.item()
        if isinstance(v, (int, np.integer)):
            return int(v)
        raise TypeError("only integer tensors of a single element can be converted to an index")

    def __bool__(self):
        v = self.item() if not (isinstance(self.a, np.ndarray) and self.a.size != 1) else None
        if v is None:
            raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        return bool(core._b(v) if not isinstance(v, (int, np.integer)) else v)

    def numpy(self, force=False):
        return self.a if isinstance(self.a, np.ndarray) else np_asarray(self.a)

    def __array__(self, dtype=None, copy=None):
        return self.numpy()

    def tolist(self):
        return self.a.tolist() if isinstance(self.a, np.ndarray) else self.a

    def detach(self):
        return W(self.a)

    def clone(self, **k):
        return W(self.a.copy() if isinstance(self.a, np.ndarray) else self.a)

    def __deepcopy__(self, memo):
        return self.clone()

    def cpu(self):
        return self

    cuda = detach
    contiguous = detach

    def requires_grad_(self, v=True):
        return self

    @property
    def data(self):
        return W(self.a)

    @property
    def device(self):
        return device("cpu")

    @property
    def is_cuda(self):
        return False

    @property
    def dtype(self):
        k = _kind(self.a)
        return {"f": default_dtype, "b": bool_}.get(k) or (int32 if getattr(self.a, "dtype", None) == np.int32 else int64)

    def type(self, dt=None, **k):
        if dt is None:
            return "torch.FloatTensor"
        return self._cast(dt)

    def _cast(self, dt):
        if dt is float:
            dt = float64
        elif dt is int:
            dt = int64
        elif dt is bool:
            dt = bool_
        if isinstance(dt, str):
            raise Unsupported("type string")
        a = self.a
        k = _kind(a)
        if dt.kind == "f":
            if k == "f":
                return self
            if isinstance(a, np.ndarray):
                return W(wrap_keep(as_obj(np_array(a, dtype=float))))
            return W(Sym.lift(a))
        if dt.kind == "i":
            if isinstance(a, np.ndarray):
                if a.dtype == object:
                    return W(a.view(SymArray).astype(dt.np))
                return self if a.dtype == dt.np else W(a.astype(dt.np))
            return W(int(a))
        if isinstance(a, np.ndarray):
            return W(a.astype(bool) if a.dtype != object or k != "b" else a)
        return W(a if k == "b" else a != 0)

    def to(self, *a, **k):
        for x in list(a) + list(k.values()):
            if isinstance(x, dtype):
                return self._cast(x)
            if isinstance(x, Tensor):
                return self._cast(x.dtype)
        return self

    def float(self):
        return self._cast(float32)

    def double(self):
        return self._cast(float64)

    def int(self):
        return self._cast(int32)

    def long(self):
        return self._cast(int64)

    def bool(self):
        return self._cast(bool_)

    def type_as(self, o):
        return self._cast(o.dtype)

    # ---- shape
    @property
    def shape(self):
        return Size(np.shape(self.a) if isinstance(self.a, np.ndarray) else ())

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    @property
    def ndim(self):
        return len(self.shape)

    def dim(self):
        return self.ndim

    def numel(self):
        return int(np.prod(self.shape))

    nelement = numel

    def __len__(self):
        if not self.ndim:
            raise TypeError("len() of a 0-d tensor")
        return self.shape[0]

    def _arr(self):
        return self.a if isinstance(self.a, np.ndarray) else as_obj(self.a).view(SymArray)

    def view(self, *s):
        if len(s) == 1 and isinstance(s[0], dtype):
            return self._cast(s[0])
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        return W(self._arr().reshape([int(x) for x in s]))

    reshape = view

    def view_as(self, o):
        return self.view(*o.shape)

    def unsqueeze(self, d):
        n = self.ndim
        return W(np.expand_dims(plain(self._arr()), d if d >= 0 else d + n + 1).view(type(self._arr())))

    def squeeze(self, d=None):
        a = self._arr()
        if d is None:
            return W(a.reshape([x for x in a.shape if x != 1]))
        return W(a.reshape([x for i, x in enumerate(a.shape) if not (i == d % a.ndim and x == 1)]))

    def expand(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        sh = self.shape
        off = len(s) - len(sh)
        full = [sh[i - off] if int(x) == -1 else int(x) for i, x in enumerate(s)]
        a = self._arr()
        r = np.broadcast_to(plain(a), full)
        return W(r.view(type(a)))

    def expand_as(self, o):
        return self.expand(*o.shape)

    def repeat(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        a = self._arr()
        return W(np.tile(plain(a), [int(x) for x in s]).view(type(a)))

    def tile(self, *s):
        return self.repeat(*s)

    def repeat_interleave(self, n, dim=None, **k):
        a = self._arr()
        n = U(n)
        return W(np.repeat(plain(a), n, axis=dim).view(type(a)))

    def flatten(self, start_dim=0, end_dim=-1):
        sh = list(self.shape) or [1]
        e = end_dim % len(sh)
        return W(self._arr().reshape(sh[:start_dim] + [int(np.prod(sh[start_dim : e + 1]))] + sh[e + 1 :]))

    def ravel(self):
        return self.flatten()

    @property
    def T(self):
        return W(self._arr().T)

    @property
    def mT(self):
        return self.transpose(-1, -2)

    def t(self):
        return self.T

    def transpose(self, a, b):
        x = self._arr()
        return W(np.swapaxes(plain(x), a, b).view(type(x)))

    swapaxes = transpose

    def permute(self, *p):
        p = p[0] if len(p) == 1 and isinstance(p[0], (tuple, list)) else p
        return W(self._arr().transpose(p))

    def chunk(self, n, dim=0):
        sz = -(-self.shape[dim] // n)
        return self.split(sz, dim)

    def split(self, sz, dim=0):
        out, i, n = [], 0, self.shape[dim]
        sizes = sz if isinstance(sz, (list, tuple)) else [min(sz, n - k) for k in range(0, n, sz)]
        for s in sizes:
            k = [slice(None)] * self.ndim
            k[dim] = slice(i, i + s)
            out.append(W(self._arr()[tuple(k)]))
            i += s
        return tuple(out)

    def unbind(self, dim=0):
        a = np.moveaxis(plain(self._arr()), dim, 0)
        return tuple(W(x.view(type(self._arr())) if isinstance(x, np.ndarray) else x) for x in a)

    def __iter__(self):
        if not self.ndim:
            raise TypeError("iteration over a 0-d tensor")
        for i in range(self.shape[0]):
            yield self[i]

    def __getitem__(self, k):
        return W(self._arr()[idx(k)])

    def __setitem__(self, k, v):
        k = idx(k)
        v = arr(v)
        a = self._arr()
        if a.dtype != object:
            a[k] = v if not isinstance(v, (Sym, SymBool)) and not (isinstance(v, np.ndarray) and v.dtype == object) else _toint(v, a.dtype)
            return
        if isinstance(v, np.ndarray) and v.dtype != object:
            v = wrap_keep(as_obj(np_array(v, dtype=float)))
        if isinstance(k, np.ndarray) and k.dtype == object:
            k = nparr._conc_bool(k)
        if isinstance(v, np.ndarray):
            tgt = plain(a)[k]
            want = np.shape(tgt)
            vs = v.shape
            while len(vs) > len(want) and vs[0] == 1:
                v = v.reshape(vs[1:])
                vs = v.shape
        a[k] = v

    def index_select(self, dim, index):
        k = [slice(None)] * self.ndim
        k[dim] = U(index)
        return self[tuple(k)]

    def gather(self, dim, index):
        return W(np.take_along_axis(plain(self._arr()), U(index), dim).view(type(self._arr())))

    def fill_(self, v):
        self.a[...] = v
        return self

    def zero_(self):
        return self.fill_(0)

    def copy_(self, o, **k):
        self.a[...] = arr(o)
        return self

    def masked_fill(self, m, v):
        return where(m, v, self)

    def index_add_(self, dim, index, src):
        if dim != 0:
            raise Unsupported("index_add dim")
        a = self._arr()
        s = U(src)
        for n, i in enumerate(np.asarray(U(index))):
            a[i] = a[i] + s[n]
        return self

    def index_add(self, dim, index, src):
        return self.clone().index_add_(dim, index, src)

    def scatter_add_(self, dim, index, src):
        a, ix, s = self._arr(), np.asarray(U(index)), plain(U(src))
        for k in np.ndindex(*ix.shape):
            t = list(k)
            t[dim] = ix[k]
            a[tuple(t)] = a[tuple(t)] + s[k]
        return self

    def scatter_add(self, dim, index, src):
        return self.clone().scatter_add_(dim, index, src)

    # ---- arithmetic
    __add__ = _el("add")
    __radd__ = _rel("add")
    __sub__ = _el("subtract")
    __rsub__ = _rel("subtract")
    __mul__ = _el("multiply")
    __rmul__ = _rel("multiply")
    __truediv__ = _el("divide")
    __rtruediv__ = _rel("divide")
    __floordiv__ = _el("floor_divide")
    __rfloordiv__ = _rel("floor_divide")
    __mod__ = _el("remainder")
    __pow__ = _el("power")
    __neg__ = _el("negative")
    __abs__ = _el("absolute")
    __lt__ = _el("less")
    __le__ = _el("less_equal")
    __gt__ = _el("greater")
    __ge__ = _el("greater_equal")
    __eq__ = _el("equal")
    __ne__ = _el("not_equal")
    __and__ = _el("bitwise_and")
    __or__ = _el("bitwise_or")
    __xor__ = _el("bitwise_xor")
    __rand__ = __and__
    __ror__ = __or__
    __iadd__ = _inpl("add")
    __isub__ = _inpl("subtract")
    __imul__ = _inpl("multiply")
    __itruediv__ = _inpl("divide")
    add_, sub_, mul_, div_ = __iadd__, __isub__, __imul__, __itruediv__
    __hash__ = object.__hash__

    def __invert__(self):
        return W(OVR["logical_not"](self.a) if _kind(self.a) == "b" else ~self.a)

    def __matmul__(self, o):
        return W(OVR["matmul"](self._arr(), arr(o)))

    def __rmatmul__(self, o):
        return W(OVR["matmul"](arr(o), self._arr()))

    matmul = mm = bmm = __matmul__
    add, sub, mul, div, pow, remainder = __add__, __sub__, __mul__, __truediv__, __pow__, __mod__
    eq, ne, lt, le, gt, ge = __eq__, __ne__, __lt__, __le__, __gt__, __ge__
    neg = __neg__
    abs = _el("absolute")
    sqrt, exp, square, floor, ceil, sign, reciprocal = (
        _el("sqrt"), _el("exp"), _el("square"), _el("floor"), _el("ceil"), _el("sign"), _el("reciprocal"))  # fmt: skip
    round, trunc = _el("rint"), _el("trunc")
    logical_and, logical_or, logical_not, isnan, isinf, isfinite = (
        _el("logical_and"), _el("logical_or"), _el("logical_not"), _el("isnan"), _el("isinf"), _el("isfinite"))  # fmt: skip
    sum, prod, mean, any, all = _red("sum"), _red("prod"), _red("mean"), _red("any"), _red("all")

    def dot(self, o):
        return W(nparr.np_dot(self.a, arr(o)))

    def var(self, dim=None, unbiased=True, keepdim=False, correction=None, axis=None):
        return _stat("var", self, dim, unbiased, keepdim, correction, axis)

    def std(self, dim=None, unbiased=True, keepdim=False, correction=None, axis=None):
        return _stat("std", self, dim, unbiased, keepdim, correction, axis)

    def max(self, dim=None, keepdim=False):
        return _ext("max", "argmax", self, dim, keepdim)

    def min(self, dim=None, keepdim=False):
        return _ext("min", "argmin", self, dim, keepdim)

    def argmax(self, dim=None):
        return W(OVR["argmax"](self.a, dim))

    def norm(self, p=2, dim=None, keepdim=False):
        return W(LA["norm"](self._arr(), None, _ax(dim), keepdim))

    def clamp(self, min=None, max=None):
        return W(OVR["clip"](self.a, min, max))

    def diagonal(self, offset=0, dim1=0, dim2=1):
        return W(np.diagonal(plain(self._arr()), offset, dim1, dim2).view(type(self._arr())))

    def trace(self):
        return W(nparr.wrap(plain(self._arr()).trace()))

    def nonzero(self, as_tuple=False):
        return nonzero(self, as_tuple=as_tuple)

    def cumsum(self, dim):
        return W(self._arr().cumsum(axis=dim))

    def sigmoid(self):
        return elementwise("sigmoid", self)

    def tanh(self):
        return elementwise("tanh", self)

    def relu(self):
        return W(OVR["maximum"](self.a, 0))

    def softmax(self, dim):
        raise Unsupported("softmax")

    def inverse(self):
        return W(LA["inv"](self._arr()))

    def new_zeros(self, *s):
        return zeros(*s)

    def numpy_T(self):
        return self.numpy().T

    def __repr__(self):
        return f"tensor{tuple(self.shape)}"

    def __format__(self, spec):
        v = self.item()
        return format(v, spec)

    def __contains__(self, v):
        return bool(nparr._reduce("logical_or", OVR["equal"](self._arr(), arr(v)), None))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        import torch as _real  # only to tell unknown names from unsupported ones

        if hasattr(_real.Tensor, n):
            raise Unsupported(f"Tensor.{n}")
        raise AttributeError(f"'Tensor' object has no attribute '{n}'")


def _toint(v, dt):
    if isinstance(v, np.ndarray):
        r = np.empty(v.shape, dtype=dt)
        for i, x in enumerate(v.flat):
            r.flat[i] = int(x) if not isinstance(x, SymBool) else bool(x)
        return r
    return bool(v) if isinstance(v, SymBool) else int(v)


def _stat(name, t, dim, unbiased, keepdim, correction, axis):
    if isinstance(dim, bool):
        dim, unbiased = None, dim
    ddof = correction if correction is not None else (1 if unbiased else 0)
    return W(OVR[name](t._arr(), axis=_ax(_dimkw(dim, axis)), ddof=ddof, keepdims=keepdim))


class _MinMax(tuple):
    values = property(lambda s: s[0])
    indices = property(lambda s: s[1])


def _ext(name, arg, t, dim, keepdim):
    if dim is None:
        return W(OVR[name](t._arr()))
    if isinstance(dim, Tensor):
        return W(OVR["maximum" if name == "max" else "minimum"](t.a, dim.a))
    return _MinMax((W(OVR[name](t._arr(), axis=dim, keepdims=keepdim)), W(OVR[arg](t._arr(), dim))))


# ------------------------------------------------------------------------------------ uninterpreted functions
_UF = {}


def uf_apply(name, args, nout):
    """Uninterpreted function of symbolic arguments, nout results."""
    eng = Engine.cur
    args = [Sym.lift(a) for a in args]
    if any(a is None or a is NotImplemented for a in args):
        return [core.NAN] * nout
    key = tuple(a.key() for a in args)
    deps = set()
    for a in args:
        deps |= a.atoms()
    outs = []
    for o in range(nout):

        def defs(t, o=o, args=args):
            f = z3.Function(f"{name}_{o}", *([z3.RealSort()] * (len(args) + 1)))
            za = []
            for a in args:
                e = core.p_z3(a.num)
                if a.den:
                    e = e / core.p_z3(core._den_poly(a.den))
                za.append(e)
            return [t.rv == f(*za)]

        outs.append(Sym.atom(eng.new_atom("uf", (name, o, key), deps=deps, defs=defs)))
    return outs


def elementwise(name, t):
    a = as_obj(t.a)
    f = np.frompyfunc(lambda v: uf_apply(name, [v], 1)[0], 1, 1)
    r = f(a)
    return W(wrap_keep(r) if isinstance(r, np.ndarray) else r)


# ------------------------------------------------------------------------------------ functions
default_dtype = float32


def _shape(s, k):
    if "size" in k:
        s = (k["size"],)
    return s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s


def _isint(dt):
    return isinstance(dt, dtype) and dt.kind != "f" or dt in (int, bool)


def zeros(*s, dtype=None, **k):
    s = _shape(s, k)
    if _isint(dtype):
        return W(np.zeros([int(x) for x in s], dtype=dtype.np if not isinstance(dtype, type) else dtype))
    return W(OVR["zeros"](tuple(s)))


def ones(*s, dtype=None, **k):
    s = _shape(s, k)
    if _isint(dtype):
        return W(np.ones([int(x) for x in s], dtype=dtype.np if not isinstance(dtype, type) else dtype))
    return W(OVR["ones"](tuple(s)))


def empty(*s, dtype=None, **k):
    s = _shape(s, k)
    if _isint(dtype):
        return W(np.zeros([int(x) for x in s], dtype=dtype.np))
    return W(OVR["empty"](tuple(s)))


def full(s, v, dtype=None, **k):
    if _isint(dtype) or (dtype is None and isinstance(v, int)):
        return W(np.full(s, v))
    return W(OVR["full"](tuple(s), float(v) if isinstance(v, int) else v))


def eye(n, m=None, dtype=None, **k):
    if _isint(dtype):
        return W(np.eye(n, m, dtype=dtype.np))
    return W(OVR["eye"](n, m))


def tensor(x, dtype=None, **k):
    def conv(v):
        if isinstance(v, Tensor):
            return v.a
        if isinstance(v, (list, tuple, range)):
            return [conv(q) for q in v]
        return v

    x = conv(x)
    if isinstance(x, np.ndarray):
        r = W(x.copy())
    elif isinstance(x, list):
        r = W(np_array(x))
        if r.a.size == 0 and r.a.dtype != object:
            r = W(wrap_keep(as_obj(r.a)))
    elif isinstance(x, np.generic):
        r = W(nparr.lift_scalar(x.item()))
    else:
        r = W(nparr.lift_scalar(x))
    return r._cast(dtype) if dtype is not None else r


def as_tensor(x, dtype=None, **k):
    r = x if isinstance(x, Tensor) else (W(x) if isinstance(x, np.ndarray) else tensor(x))
    return r._cast(dtype) if dtype is not None else r


def from_numpy(x):
    if not isinstance(x, np.ndarray):
        raise TypeError(f"expected np.ndarray (got {type(x).__name__})")
    return W(x)


def where(c, a=None, b=None):
    if a is None:
        return nonzero(c, as_tuple=True)
    return W(OVR["where"](U(c), arr(a), arr(b)))


def nonzero(t, as_tuple=False):
    a = t._arr()
    r = np.nonzero(nparr._conc_bool(a) if a.dtype == object and _kind(a) == "b" else (nparr._conc_bool(OVR["not_equal"](a, 0)) if a.dtype == object else a))
    if as_tuple:
        return tuple(W(x) for x in r)
    return W(np.stack(r, axis=1) if a.ndim else np.zeros((0, 0), dtype=int))


def _join(name):
    def f(ts, dim=0, axis=None, **k):
        d = dim if axis is None else axis
        arrs = [U(t) if isinstance(U(t), np.ndarray) else as_obj(U(t)).view(SymArray) for t in ts]
        if any(a.dtype == object for a in arrs):
            r = getattr(np, "concatenate" if name == "cat" else "stack")([plain(a) if a.dtype == object else as_obj(a) for a in arrs], axis=d)
            return W(r.view(SymArray))
        return W(getattr(np, "concatenate" if name == "cat" else "stack")(arrs, axis=d))

    return f


def _fn(name):
    m = getattr(Tensor, name)

    def f(x, *a, **k):
        k.pop("out", None)
        if not isinstance(x, Tensor):
            x = tensor(x) if not isinstance(x, (list, tuple)) else x
            if isinstance(x, (list, tuple)):
                raise TypeError(f"{name}(): argument 'input' must be Tensor, not {type(x).__name__}")
        if "input" in k:
            k.pop("input")
        return m(x, *a, **k)

    return f


def linspace(a, b, steps, **k):
    return W(OVR["linspace"](a, b, int(steps)))


def arange(*a, dtype=None, **k):
    a = [U(x) for x in a]
    r = OVR["arange"](*a)
    return W(r)._cast(dtype) if dtype is not None else W(r)


def diag(t):
    a = t._arr()
    return W(nparr.call_np("diag", np.diag, (a,), {}))


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(OVR["allclose"](U(a), U(b), rtol, atol))


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return W(OVR["isclose"](U(a), U(b), rtol, atol))


def einsum(sub, *ops):
    ops = ops[0] if len(ops) == 1 and isinstance(ops[0], (list, tuple)) else ops
    return W(OVR["einsum"](sub, *[U(o) for o in ops]))


def zeros_like(t, dtype=None, **k):
    return zeros(*t.shape, dtype=dtype or (t.dtype if t.dtype.kind != "f" else None))


def ones_like(t, dtype=None, **k):
    return ones(*t.shape, dtype=dtype or (t.dtype if t.dtype.kind != "f" else None))


def equal(a, b):
    return bool(OVR["array_equal"](U(a), U(b)))


def t_norm(x, p=2, dim=None, keepdim=False, ord=None):
    return W(LA["norm"](x._arr(), None, _ax(dim), keepdim))


def cross(a, b, dim=-1):
    return W(OVR["cross"](U(a), U(b), axis=dim))


def vecdot(a, b, dim=-1):
    return W(OVR["sum"](OVR["multiply"](U(a), U(b)), axis=dim))


def unique(*a, **k):
    raise Unsupported("unique")


@contextlib.contextmanager
def _ctx(*a, **k):
    yield


class no_grad(contextlib.ContextDecorator):
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


# ------------------------------------------------------------------------------------ nn
def manual_seed(s):
    """Layers made after the same seed have the same (unknown) weights."""
    Engine.cur._nmod = 10000 * (int(s) + 1)


class Parameter(Tensor):
    pass


class Module:
    _count = itertools.count()

    def __init__(self, *a, **k):
        self.training = True
        self._uid = getattr(Engine.cur, "_nmod", 0)
        Engine.cur._nmod = self._uid + 1

    def register_buffer(self, name, t, persistent=True):
        object.__setattr__(self, name, t)

    def register_parameter(self, name, t):
        object.__setattr__(self, name, t)

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def children(self):
        for v in list(self.__dict__.values()):
            if isinstance(v, Module):
                yield v
            elif isinstance(v, (list, tuple)):
                for w in v:
                    if isinstance(w, Module):
                        yield w

    def modules(self):
        yield self
        for c in self.children():
            yield from c.modules()

    def parameters(self, recurse=True):
        return iter(())

    def named_parameters(self, *a, **k):
        return iter(())

    def state_dict(self, *a, **k):
        return {f"{n}.{k}": m.__dict__[k] for n, m in enumerate(self.modules()) for k in ("_uid", "_version") if k in m.__dict__}

    def train(self, mode=True):
        for m in self.modules():
            m.training = mode
        return self

    def eval(self):
        return self.train(False)

    def to(self, *a, **k):
        return self

    def cpu(self):
        return self

    double = float = cpu

    def apply(self, fn):
        for m in self.modules():
            fn(m)
        return self

    def zero_grad(self, *a):
        pass

    def reset_parameters(self):
        self._uid = Engine.cur._nmod
        Engine.cur._nmod += 1

    def requires_grad_(self, v=True):
        return self


class _RowLayer(Module):
    """Uninterpreted function of each row; in training mode normalisation may mix rows."""

    def __init__(self, nin, nout, *a, **k):
        super().__init__()
        self.nin, self.nout = nin, nout

    def rows(self, a):
        return [(f"layer{self._uid}", list(a[i])) for i in np.ndindex(*a.shape[:-1])]

    def forward(self, x):
        a = x._arr()
        if a.shape[-1] != self.nin:
            raise RuntimeError(f"mat1 and mat2 shapes cannot be multiplied ({a.shape} and {self.nin}x{self.nout})")
        o = np.empty(a.shape[:-1] + (self.nout,), dtype=object)
        for i, (name, args) in zip(np.ndindex(*a.shape[:-1]), self.rows(a)):
            o[i] = uf_apply(name, args, self.nout)
        return W(o.view(SymArray))


class Linear(_RowLayer):
    def __init__(self, in_features, out_features, bias=True, **k):
        super().__init__(in_features, out_features)


class LayerNorm(_RowLayer):
    def __init__(self, n, *a, **k):
        n = n if isinstance(n, int) else n[-1]
        super().__init__(n, n)


class BatchNorm1d(_RowLayer):
    """In training mode a row's result depends on all rows, and the running statistics change."""

    def __init__(self, n, *a, **k):
        super().__init__(n, n)
        self._version = 0

    def rows(self, a):
        if not self.training:
            return [(f"layer{self._uid}v{self._version}", args) for _, args in super().rows(a)]
        plain_rows = [args for _, args in super().rows(a)]
        everything = [v for r in plain_rows for v in r]
        self._version += 1
        return [(f"batch{self._uid}n{len(plain_rows)}", args + everything) for args in plain_rows]


class Embedding(Module):
    def __init__(self, n, d, **k):
        super().__init__()
        self.n, self.d = n, d

    def forward(self, x):
        ix = np.asarray(U(x))
        if ix.size and (ix.min() < 0 or ix.max() >= self.n):
            raise IndexError("index out of range in self")
        o = np.empty(ix.shape + (self.d,), dtype=object)
        for i in np.ndindex(*ix.shape):
            o[i] = uf_apply(f"embed{self._uid}", [Sym.const(int(ix[i]))], self.d)
        return W(o.view(SymArray))


class Elementwise(Module):
    def __init__(self, *a, **k):
        super().__init__()

    def forward(self, x):
        return elementwise(type(self).__name__, x)


class ShiftedSoftplus(Elementwise):
    pass


class Dropout(Module):
    def __init__(self, p=0.5, **k):
        super().__init__()

    def forward(self, x):
        if self.training:
            raise Unsupported("dropout")
        return x


class Identity(Module):
    def forward(self, x):
        return x


class Sequential(Module):
    def __init__(self, *mods):
        super().__init__()
        self.mods = list(mods)

    def forward(self, x):
        for m in self.mods:
            x = m(x)
        return x

    def __iter__(self):
        return iter(self.mods)

    def __getitem__(self, i):
        return self.mods[i]

    def __len__(self):
        return len(self.mods)


class ModuleList(Module):
    def __init__(self, mods=()):
        super().__init__()
        self.mods = list(mods)

    def __iter__(self):
        return iter(self.mods)

    def __getitem__(self, i):
        return self.mods[i]

    def __len__(self):
        return len(self.mods)

    def append(self, m):
        self.mods.append(m)
        return self


def reset(m):
    if hasattr(m, "reset_parameters"):
        m.reset_parameters()
    else:
        for c in m.children() if isinstance(m, Module) else []:
            reset(c)


def scatter(src, index, dim=0, dim_size=None, reduce="sum"):
    if dim < 0:
        dim += src.ndim
    if dim != 0:
        raise Unsupported("scatter dim")
    ix = np.asarray(U(index))
    a = src._arr()
    n = dim_size if dim_size is not None else (int(ix.max()) + 1 if ix.size else 0)
    out = OVR["zeros"]((n,) + a.shape[1:])
    cnt = np.zeros(n, dtype=int)
    for e, i in enumerate(ix):
        out[int(i)] = out[int(i)] + a[e]
        cnt[int(i)] += 1
    if reduce in ("sum", "add"):
        return W(out)
    if reduce == "mean":
        for i in range(n):
            if cnt[i]:
                out[i] = out[i] / int(cnt[i])
        return W(out)
    raise Unsupported(f"scatter {reduce}")


def dimenet_triplets(edge_index, num_nodes):
    """The library's function on concrete indices (not code under test)."""
    import torch
    from torch_geometric.nn.models.dimenet import triplets

    ei = U(edge_index)
    r = triplets(edge_index=torch.from_numpy(np.array(ei, dtype=np.int64)), num_nodes=int(num_nodes))
    return tuple(W(x.numpy().copy()) for x in r)


# ------------------------------------------------------------------------------------ data
class Dataset:
    def __class_getitem__(cls, k):
        return cls

    def __init__(self, *a, **k):
        pass


class Subset(Dataset):
    def __init__(self, ds, indices):
        self.ds, self.indices = ds, list(indices)

    def __getitem__(self, i):
        return self.ds[self.indices[i]]

    def __len__(self):
        return len(self.indices)


def few_order(n, k):
    """Three of the orders of n items: as listed, backwards, and scattered."""
    import math

    if k == 0:
        return list(range(n))
    if k == 1:
        return list(range(n))[::-1]
    a = next(x for x in range(max(2, n // 3), 3 * n + 3) if math.gcd(x, n) == 1)
    return [(a * i + n // 2) % n for i in range(n)]


class DataLoader:
    """Every order of a shuffled pass is explored."""

    def __init__(self, dataset, batch_size=1, shuffle=False, sampler=None, generator=None, drop_last=False, num_workers=0, **k):
        if sampler is not None or k.get("batch_sampler") is not None or k.get("collate_fn") is not None:
            raise Unsupported("DataLoader options")
        if batch_size is not None and batch_size <= 0:
            raise ValueError("batch_size should be a positive integer value")
        self.dataset, self.batch_size, self.shuffle, self.drop_last = dataset, batch_size, shuffle, drop_last

    def __len__(self):
        n = len(self.dataset)
        return n // self.batch_size if self.drop_last else -(-n // self.batch_size)

    def __iter__(self):
        n = len(self.dataset)
        order = list(range(n))
        if self.shuffle:
            eng = Engine.cur
            rest, order = order, []
            if getattr(eng, "few_orders", False):
                eng._nsh = getattr(eng, "_nsh", 0) + 1
                rest, order = [], few_order(n, eng.choose(f"shuffle{eng._nsh}", 3))
            while rest:
                eng._nsh = getattr(eng, "_nsh", 0) + 1
                order.append(rest.pop(eng.choose(f"shuffle{eng._nsh}", len(rest)) if len(rest) > 1 else 0))
        for s in range(0, n, self.batch_size):
            ids = order[s : s + self.batch_size]
            if self.drop_last and len(ids) < self.batch_size:
                return
            items = [self.dataset[i] for i in ids]
            yield [_join("stack")([it[j] for it in items]) for j in range(len(items[0]))]


class Generator:
    def __init__(self, device=None):
        pass

    def manual_seed(self, s):
        return self

    def seed(self):
        return 0


class _Missing(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        import importlib

        try:
            real = importlib.import_module(self.__name__)
        except ImportError:
            raise AttributeError(n) from None
        if not hasattr(real, n):
            raise AttributeError(n)

        def f(*a, **k):
            raise Unsupported(f"{self.__name__}.{n}")

        return f


def _mk(name, **attrs):
    m = _Missing(name)
    m.__dict__.update(attrs)
    m.__path__ = []
    return m


def _set_default_dtype(d):
    global default_dtype
    default_dtype = d


_FUNCS = """sum prod mean any all var std max min argmax sqrt exp square floor ceil sign abs round trunc reciprocal logical_and logical_or
logical_not isnan isinf isfinite sigmoid tanh relu clamp flatten reshape squeeze unsqueeze transpose permute chunk split unbind matmul mm bmm add sub mul
div pow remainder neg eq ne lt le gt ge index_select gather repeat_interleave tile ravel dot trace diagonal cumsum masked_fill numel swapaxes clone""".split()


def modules():
    top = dict(
        Tensor=Tensor, Size=Size, device=device, dtype=dtype, float64=float64, double=float64, float32=float32, float=float32, int64=int64, long=int64,
        int32=int32, int=int32, bool=bool_, zeros=zeros, ones=ones, empty=empty, full=full, eye=eye, tensor=tensor, as_tensor=as_tensor,
        from_numpy=from_numpy, where=where, nonzero=nonzero, cat=_join("cat"), concat=_join("cat"), concatenate=_join("cat"), stack=_join("stack"),
        linspace=linspace, arange=arange, diag=diag, allclose=allclose, isclose=isclose, einsum=einsum, zeros_like=zeros_like, ones_like=ones_like,
        equal=equal, norm=t_norm, cross=cross, no_grad=no_grad, inference_mode=no_grad, enable_grad=no_grad, Generator=Generator,
        is_tensor=lambda x: isinstance(x, Tensor), get_default_dtype=lambda: default_dtype, set_default_dtype=_set_default_dtype,
        get_default_device=lambda: device("cpu"), set_default_device=lambda d: None, manual_seed=manual_seed, pi=np.pi, inf=float("inf"),
        diag_embed=_uns("diag_embed"), outer=lambda a, b: W(OVR["outer"](U(a), U(b))), unique=unique, minimum=lambda a, b: W(OVR["minimum"](arr(a), arr(b))),
        maximum=lambda a, b: W(OVR["maximum"](arr(a), arr(b))), fmod=lambda a, b: W(OVR["fmod"](arr(a), arr(b))), broadcast_to=lambda t, s: t.expand(s),
        subtract=lambda a, b: W(OVR["subtract"](arr(a), arr(b))), multiply=lambda a, b: W(OVR["multiply"](arr(a), arr(b))),
        divide=lambda a, b: W(OVR["divide"](arr(a), arr(b))), inverse=lambda t: t.inverse(), is_grad_enabled=lambda: True, movedim=_uns("movedim"),
        __version__="2.4.1",
    )  # fmt: skip
    for n in _FUNCS:
        top.setdefault(n, _fn(n))
    linalg = _mk("torch.linalg", norm=t_norm, vector_norm=lambda x, ord=2, dim=None, keepdim=False: t_norm(x, dim=dim, keepdim=keepdim), cross=cross,
                 vecdot=vecdot, inv=lambda t: t.inverse(), det=lambda t: W(LA["det"](t._arr())), solve=lambda a, b: W(LA["solve"](U(a), U(b))),
                 matmul=lambda a, b: a @ b)  # fmt: skip
    act = {n: type(n, (Elementwise,), {}) for n in ("Tanh", "Sigmoid", "SiLU", "ReLU", "Softplus", "GELU")}
    loss = _mk("torch.nn.modules.loss", _Loss=Module)
    functional = _mk("torch.nn.functional", softplus=lambda t: elementwise("Softplus", t), silu=lambda t: elementwise("SiLU", t))
    nn = _mk("torch.nn", Module=Module, Linear=Linear, LayerNorm=LayerNorm, BatchNorm1d=BatchNorm1d, Embedding=Embedding, Sequential=Sequential,
             ModuleList=ModuleList, Parameter=Parameter, Dropout=Dropout, Identity=Identity, functional=functional, **act)  # fmt: skip
    data = _mk("torch.utils.data", Dataset=Dataset, DataLoader=DataLoader, Subset=Subset)
    utils = _mk("torch.utils", data=data)
    optimizer = _mk("torch.optim.optimizer", Optimizer=object)
    optim = _mk("torch.optim", optimizer=optimizer, Optimizer=object)
    t = _mk("torch", nn=nn, linalg=linalg, utils=utils, optim=optim, **top)
    nnm = _mk("torch.nn.modules", loss=loss)
    nn.__dict__["modules"] = nnm
    inits = _mk("torch_geometric.nn.inits", reset=reset)
    schnet = _mk("torch_geometric.nn.models.schnet", ShiftedSoftplus=ShiftedSoftplus)
    dn = _mk("torch_geometric.nn.models.dimenet", triplets=dimenet_triplets)
    tu = _mk("torch_geometric.utils", scatter=scatter)
    models = _mk("torch_geometric.nn.models", schnet=schnet, dimenet=dn)
    tnn = _mk("torch_geometric.nn", models=models, inits=inits)
    tg = _mk("torch_geometric", nn=tnn, utils=tu)
    ms = [t, nn, linalg, utils, data, optim, optimizer, nnm, loss, functional, inits, schnet, dn, tu, models, tnn, tg]
    ms += [_mk("torch_scatter", scatter=scatter), _mk("torch_sparse")]
    return {m.__name__: m for m in ms}


def _uns(n):
    def f(*a, **k):
        raise Unsupported(n)

    return f
