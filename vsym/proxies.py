"""Symbolic stand-ins for the libraries the project imports (scipy, math, spglib, tqdm, ...)."""

from __future__ import annotations

import math
import types
from fractions import Fraction

import numpy as np

from vsym import core, nparr, stubs
from vsym.core import Engine, Sym, SymBool, Unsupported, concretize_int, ite, sym_floor
from vsym.nparr import OVR, SymArray, as_obj, has_sym, np_array, np_asarray, real_to_sym, to_real, wrap_keep


def module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    m.__path__ = []
    return m


# ------------------------------------------------------------------------------------ builtins
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (Sym, float))

    def __call__(cls, x=0.0):
        return nparr.sym_float(x)

    def __subclasscheck__(cls, c):
        return issubclass(c, (Sym, float))


class SymFloat(float, metaclass=_FloatMeta):
    """Replacement of the builtin float inside the code under test."""

    _vsym_float = True


# ------------------------------------------------------------------------------------ math
def _m1(name, f):
    def g(x):
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.item()
        if isinstance(x, (Sym, SymBool)):
            return f(x)
        return nparr.lift_scalar(getattr(math, name)(x))

    return g


MATH = nparr.ModProxy("math", math, {
    "sqrt": _m1("sqrt", core.sym_sqrt),
    "exp": _m1("exp", core.sym_exp),
    "floor": _m1("floor", lambda x: concretize_int(sym_floor(x))),
    "ceil": _m1("ceil", lambda x: -concretize_int(sym_floor(-x))),
    "trunc": _m1("trunc", lambda x: int(x)),
    "fabs": _m1("fabs", core.sym_abs),
    "isnan": lambda x: nparr.s_isnan(x),
    "isinf": lambda x: nparr.s_isinf(x),
    "isfinite": lambda x: nparr.s_isfinite(x),
    "pow": lambda a, b: nparr.s_pow(a, b),
    "isclose": lambda a, b, rel_tol=1e-9, abs_tol=0.0: core.b_or(
        nparr._s_isclose(a, b, rel_tol, abs_tol, False), nparr._s_isclose(b, a, rel_tol, abs_tol, False)),
    "prod": lambda it, start=1: _prod(it, start),
    "fsum": lambda it: sum(it, Sym.const(0)),
    "hypot": lambda *a: core.sym_sqrt(sum((Sym.lift(x) ** 2 for x in a), Sym.const(0))),
    "dist": lambda p, q: core.sym_sqrt(sum(((Sym.lift(x) - y) ** 2 for x, y in zip(p, q)), Sym.const(0))),
    "cos": nparr.UF["cos"], "sin": nparr.UF["sin"], "log": nparr.s_log,
    "modf": lambda x: (x - core.sym_trunc(x), core.sym_trunc(x)),
    "fmod": nparr.s_fmod,
})  # fmt: skip


def _prod(it, start=1):
    for x in it:
        start = start * x
    return start


# ------------------------------------------------------------------------------------ scipy
class SymSpline:
    """scipy BSpline as returned by make_interp_spline (any order, exact arithmetic)."""

    def __init__(self, x, y, k):
        self.x, self.y, self.k = list(x), y, k  # y: SymArray (n, ...)
        self.extrapolate = True
        self.axis = 0

    @property
    def c(self):
        return self.y

    @property
    def t(self):
        return np_asarray(self.x)

    def _eval(self, v):
        n, k = len(self.x), self.k
        if n == k + 1 or k == 0:
            return self._lagrange(v, range(n)) if k else self._step(v)
        if k == 1:
            seg = [self._lagrange(v, (i, i + 1)) for i in range(n - 1)]
            out = seg[-1]
            for i in range(n - 3, -1, -1):
                out = OVR["where"](v < self.x[i + 1], seg[i], out)
            return out
        # general order: the value is linear in the data; the cardinal splines need concrete abscissae
        if has_sym(list(self.x)):
            raise Unsupported("spline with symbolic knots")
        from scipy.interpolate import PPoly, make_interp_spline

        xs = [float(to_real(s)) for s in self.x]
        card = make_interp_spline(xs, np.eye(n), k)
        vc = Sym.lift(v).const_value()
        if vc is not None:
            w = card(float(vc))
            return OVR["tensordot"](real_to_sym(w), self.y, 1)
        from types import SimpleNamespace

        pps = [PPoly.from_spline(make_interp_spline(xs, np.eye(n)[i], k)) for i in range(n)]
        pp = SimpleNamespace(x=pps[0].x, c=np.stack([q.c for q in pps], axis=-1))
        brk = sorted(set(pp.x.tolist()))
        pieces = []
        for a, b in zip(brk, brk[1:]):
            i = int(np.where(pp.x[:-1] == a)[0][-1])
            co = pp.c[:, i, :]
            w = []
            for j in range(n):
                s = Sym.const(0)
                for d in range(co.shape[0]):
                    s = s * (v - core.to_frac(a)) + core.to_frac(float(co[d, j]))
                w.append(s)
            pieces.append((b, OVR["tensordot"](np_array(w), self.y, 1)))
        out = pieces[-1][1]
        for b, p in reversed(pieces[:-1]):
            out = OVR["where"](v < core.to_frac(b), p, out)
        return out

    def _step(self, v):
        out = self.y[-1]
        for i in range(len(self.x) - 2, -1, -1):
            out = OVR["where"](v < self.x[i + 1], self.y[i], out)
        return out

    def _lagrange(self, v, idx):
        idx = list(idx)
        out = None
        for i in idx:
            w = Sym.const(1)
            for j in idx:
                if j != i:
                    w = w * nparr.s_div(Sym.lift(v) - self.x[j], Sym.lift(self.x[i]) - self.x[j])
            t = self.y[i] * w
            out = t if out is None else out + t
        return out

    def __call__(self, x, nu=0, extrapolate=None):
        if nu:
            raise Unsupported("spline derivative")
        if isinstance(x, np.ndarray) and x.ndim:
            return np_array([self(v) for v in np_asarray(x)])
        if isinstance(x, (list, tuple)):
            return np_array([self(v) for v in x])
        r = self._eval(nparr._n(x.item() if isinstance(x, np.ndarray) else x))
        if isinstance(r, np.ndarray):
            return r.copy()
        return r


def make_interp_spline(x, y, k=3, t=None, bc_type=None, axis=0, check_finite=True):
    if t is not None or bc_type is not None:
        raise Unsupported("make_interp_spline options")
    x, y = np_asarray(x), np_asarray(y)
    if not isinstance(x, SymArray):
        x = wrap_keep(as_obj(x))
    if not isinstance(y, SymArray):
        y = wrap_keep(as_obj(y))
    k = int(k)
    if k < 0:
        raise ValueError("Expect non-negative k.")
    if axis % max(y.ndim, 1):
        y = nparr.call_np("moveaxis", np.moveaxis, (y, axis, 0), {})
    if x.ndim != 1:
        raise ValueError("Expect x to be a 1D sequence of coordinates.")
    if x.shape[0] != y.shape[0]:
        raise ValueError(f"Shapes of x {x.shape} and y {y.shape} are incompatible")
    for a, b in zip(x, x[1:]):
        if bool(a == b):
            raise ValueError("Expect x to not have duplicates")
        if bool(b < a):
            raise ValueError("Expect x to be a 1D strictly increasing sequence.")
    if len(x) < k + 1:
        raise ValueError(f"Need at least {k+1} knots for degree {k}")
    return SymSpline(list(x), y.copy(), k)


def interp1d(*a, **k):
    raise Unsupported("interp1d")


def correlate(a, b, mode="full", method="auto"):
    a, b = list(as_obj(np_asarray(a))), list(as_obj(np_asarray(b)))
    n, m = len(a), len(b)
    out = []
    for lag in range(-(m - 1), n):
        s = Sym.const(0)
        for j in range(m):
            i = lag + j
            if 0 <= i < n:
                s = s + a[i] * b[j]
        out.append(s)
    if mode == "full":
        return np_array(out)
    if mode == "same":
        st = (len(out) - n) // 2
        return np_array(out[st : st + n])
    if mode == "valid":
        if n >= m:
            return np_array(out[m - 1 : n])
    raise Unsupported("correlate mode")


def _np_correlate(a, v, mode="valid"):
    return correlate(a, v, mode)


def convolve(a, b, mode="full", method="auto"):
    b = np_asarray(b)
    return correlate(a, b[::-1], mode)


OVR["correlate"] = _np_correlate
OVR["convolve"] = convolve


class _BSpline:
    """Only used in annotations and isinstance checks."""

    def __new__(cls, *a, **k):
        raise Unsupported("BSpline constructor")


class _BSMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SymSpline)


BSpline = _BSMeta("BSpline", (_BSpline,), {})


def scipy_modules():
    import scipy

    interp = module("scipy.interpolate", make_interp_spline=make_interp_spline, BSpline=BSpline, interp1d=interp1d)
    F = nparr.FFT_PROXY
    fftpack = module("scipy.fftpack", fft=F.fft, ifft=F.ifft, fftfreq=F.fftfreq, rfft=_uns("rfft"), fftshift=_uns("fftshift"))
    sfft = module("scipy.fft", fft=F.fft, ifft=F.ifft, fftfreq=F.fftfreq, rfft=F.rfft, rfftfreq=F.rfftfreq)
    signal = module("scipy.signal", correlate=correlate, convolve=convolve, fftconvolve=convolve)
    integrate = module("scipy.integrate", trapezoid=nparr.np_trapezoid)
    linalg = nparr.ModProxy("scipy.linalg", np.linalg, dict(nparr.LA))
    import scipy.constants as sc

    top = module(
        "scipy", interpolate=interp, fftpack=fftpack, signal=signal, fft=sfft, integrate=integrate, linalg=linalg, constants=sc, __version__=scipy.__version__
    )
    return {
        "scipy": top, "scipy.interpolate": interp, "scipy.fftpack": fftpack, "scipy.fft": sfft, "scipy.signal": signal,
        "scipy.integrate": integrate, "scipy.linalg": linalg, "scipy.constants": sc,
    }  # fmt: skip


def _uns(n):
    def f(*a, **k):
        raise Unsupported(n)

    return f


# ------------------------------------------------------------------------------------ spglib
def identity_symmetry(n):
    return {
        "rotations": np.eye(3, dtype="intc")[None],
        "translations": np.zeros((1, 3)),
        "equivalent_atoms": np.array(stubs.equivalents(n), dtype="intc"),
    }


class _Dataset(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError as e:
            raise AttributeError(k) from e


def _spg(name):
    import spglib

    def f(cell, *a, **k):
        n = len(cell[2])
        if stubs.STATE["identity"]:
            d = identity_symmetry(n)
            d["translations"] = real_to_sym(d["translations"])
            return _Dataset(d) if name != "get_symmetry" else d
        c = (to_real(np_array([list(r) if not isinstance(r, np.ndarray) else r for r in cell[0]])), to_real(np_array(list(cell[1]))), [int(x) for x in cell[2]])
        r = getattr(spglib, name)(c, *[to_real(x) for x in a], **{q: to_real(v) for q, v in k.items()})
        if r is None:
            return r
        if isinstance(r, dict):
            return {q: real_to_sym(v) for q, v in r.items()}
        return _Dataset({q: real_to_sym(getattr(r, q)) for q in ("rotations", "translations", "equivalent_atoms", "number", "international", "hall_number", "transformation_matrix", "origin_shift", "wyckoffs") if hasattr(r, q)})

    return f


def spglib_module():
    import spglib

    return nparr.ModProxy("spglib", spglib, {"get_symmetry": _spg("get_symmetry"), "get_symmetry_dataset": _spg("get_symmetry_dataset"),
                                             "get_spacegroup": lambda *a, **k: "P1 (1)"})  # fmt: skip


# ------------------------------------------------------------------------------------ small ones
class _Bar:
    def __init__(self, iterable=None, *a, **k):
        self.it = iterable

    def __iter__(self):
        return iter(self.it)

    def __len__(self):
        return len(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __getattr__(self, n):
        return lambda *a, **k: None


def tqdm_module():
    def trange(*a, **k):
        return _Bar(range(*a))

    t = module("tqdm", tqdm=_Bar, trange=trange)
    return {"tqdm": t, "tqdm.auto": t}


# ------------------------------------------------------------------------------------ pymatgen
class PmLattice:
    """Stand-in for pymatgen.core.Lattice."""

    pbc = (True, True, True)

    def __init__(self, matrix, pbc=(True, True, True)):
        self.matrix = np_asarray(matrix).reshape(3, 3)

    @property
    def lengths(self):
        m = self.matrix
        return tuple(nparr.la_norm(m[i]) for i in range(3))

    abc = lengths
    a = property(lambda self: self.lengths[0])
    b = property(lambda self: self.lengths[1])
    c = property(lambda self: self.lengths[2])

    @property
    def angles(self):
        m, ln = self.matrix, self.lengths
        cos = np_asarray([(m[(i + 1) % 3] @ m[(i + 2) % 3]) / (ln[(i + 1) % 3] * ln[(i + 2) % 3]) for i in range(3)])
        return tuple(nparr.call_np("rad2deg", np.rad2deg, (nparr.call_np("arccos", np.arccos, (cos,), {}),), {}))

    alpha = property(lambda self: self.angles[0])
    beta = property(lambda self: self.angles[1])
    gamma = property(lambda self: self.angles[2])
    parameters = property(lambda self: (*self.lengths, *self.angles))

    @property
    def volume(self):
        return abs(nparr.la_det(self.matrix))

    @property
    def inv_matrix(self):
        return nparr.la_inv(self.matrix)

    @property
    def metric_tensor(self):
        return self.matrix @ self.matrix.T

    def copy(self):
        return PmLattice(self.matrix.copy())

    def get_cartesian_coords(self, fractional_coords):
        return np_asarray(fractional_coords) @ self.matrix

    def get_fractional_coords(self, cart_coords):
        return np_asarray(cart_coords) @ self.inv_matrix

    def __eq__(self, other):
        if not isinstance(other, PmLattice):
            return NotImplemented
        return self is other or bool(nparr.call_np("allclose", np.allclose, (self.matrix, other.matrix), {}))

    __hash__ = object.__hash__


class PmElement:
    """Stand-in for pymatgen.core.Element."""

    def __init__(self, symbol):
        z, name = pm_symbols()
        self.Z = self.number = z[symbol] if isinstance(symbol, str) else int(symbol)
        self.symbol = self.name = self.value = name[self.Z]

    def __str__(self):
        return self.symbol

    def __eq__(self, other):
        return isinstance(other, PmElement) and self.Z == other.Z

    def __hash__(self):
        return self.Z

    @classmethod
    def from_Z(cls, z):
        return cls(int(z))


def pm_symbols(cache=[]):
    if not cache:
        import re

        names = re.findall("[A-Z][a-z]?", PM_NAMES)
        cache.append(({n: i + 1 for i, n in enumerate(names)}, {i + 1: n for i, n in enumerate(names)}))
    return cache[0]


PM_NAMES = (
    "HHeLiBeBCNOFNeNaMgAlSiPSClArKCaScTiVCrMnFeCoNiCuZnGaGeAsSeBrKrRbSrYZrNbMoTcRuRhPdAgCdInSnSbTeIXeCsBaLaCePrNdPmSmEuGdTbDyHoErTmYbLu"
    "HfTaWReOsIrPtAuHgTlPbBiPoAtRnFrRaAcThPaUNpPuAmCmBkCfEsFmMdNoLrRfDbSgBhHsMtDsRgCnNhFlMcLvTsOg"
)


class PmSite:
    """Stand-in for pymatgen.core.PeriodicSite."""

    def __init__(self, number, frac, lattice):
        self.specie = PmElement(number)
        self.frac_coords, self.lattice = frac, lattice

    species_string = property(lambda self: self.specie.symbol)
    coords = property(lambda self: self.frac_coords @ self.lattice.matrix)
    a = property(lambda self: self.frac_coords[0])
    b = property(lambda self: self.frac_coords[1])
    c = property(lambda self: self.frac_coords[2])


class PmStructure:
    """Stand-in for pymatgen.core.Structure: lattice, species and fractional coordinates."""

    def __init__(self, lattice, species, coords, validate_proximity=False, to_unit_cell=False, coords_are_cartesian=False, **k):
        self.lattice = lattice if isinstance(lattice, PmLattice) else PmLattice(lattice)
        self._numbers = tuple(x if isinstance(x, int) else PmElement(str(x)).Z for x in species)
        c = np_asarray(coords)
        if coords_are_cartesian:
            c = c @ self.lattice.inv_matrix
        self._coords = c % 1 if to_unit_cell else c

    @property
    def frac_coords(self):
        return self._coords.copy()  # a new array at every request, as in pymatgen

    @property
    def cart_coords(self):
        return self._coords @ self.lattice.matrix

    @property
    def atomic_numbers(self):
        return self._numbers

    @property
    def species(self):
        return [PmElement(n) for n in self._numbers]

    elements = property(lambda self: [PmElement(n) for n in dict.fromkeys(self._numbers)])
    symbol_set = property(lambda self: tuple(sorted({e.symbol for e in self.species})))
    num_sites = property(lambda self: len(self._numbers))
    volume = property(lambda self: self.lattice.volume)
    ntypesp = property(lambda self: len(set(self._numbers)))
    labels = property(lambda self: [e.symbol for e in self.species])
    is_ordered = True

    @property
    def sites(self):
        return [PmSite(n, self._coords[i], self.lattice) for i, n in enumerate(self._numbers)]

    def __len__(self):
        return len(self._numbers)

    def __iter__(self):
        return iter(self.sites)

    def __getitem__(self, i):
        return self.sites[i]

    def copy(self):
        return PmStructure(self.lattice, self._numbers, self._coords.copy())


class PmTrajectory:
    """Stand-in for pymatgen.core.trajectory.Trajectory."""

    def __init__(self, species, coords, lattice=None, constant_lattice=True, time_step=None, coords_are_displacement=False, base_positions=None, **k):
        self.coords = np_asarray(coords)
        self.species = species
        lattice = lattice.matrix if isinstance(lattice, PmLattice) else lattice
        self.lattice = np_asarray(lattice) if lattice is not None else None
        self.constant_lattice = constant_lattice
        self.time_step = time_step
        self.coords_are_displacement = coords_are_displacement
        self.base_positions = base_positions if coords_are_displacement else self.coords[0]
        self.site_properties = self.frame_properties = self.charge = self.spin_multiplicity = None

    def __len__(self):
        return len(self.coords)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __getitem__(self, frames):
        self.to_positions()
        if isinstance(frames, int):
            if frames >= len(self):
                raise IndexError(f"index={frames} out of range, trajectory only has {len(self)} frames")
            lattice = self.lattice if self.constant_lattice else self.lattice[frames]
            return PmStructure(lattice, self.species, self.coords[frames], to_unit_cell=True)
        chosen = list(range(*frames.indices(len(self)))) if isinstance(frames, slice) else list(frames)
        lattice = self.lattice if self.constant_lattice else self.lattice[chosen]
        return PmTrajectory(self.species, self.coords[chosen], lattice, self.constant_lattice, self.time_step, False, self.base_positions)

    def get_structure(self, idx):
        return self[idx]

    def to_positions(self):
        if self.coords_are_displacement:
            c = nparr.call_np("cumsum", np.cumsum, (self.coords,), {"axis": 0})
            self.coords = self.base_positions + c
            self.coords_are_displacement = False

    def to_displacements(self):
        if self.coords_are_displacement:
            return
        d = np_asarray([self.coords[i] - self.coords[i - 1] if i else self.coords[i] * 0 for i in range(len(self.coords))])
        self.coords = d - nparr.call_np("around", np.around, (d,), {})
        self.coords_are_displacement = True


def pymatgen_modules():
    traj = module("pymatgen.core.trajectory", Trajectory=PmTrajectory)
    c = module("pymatgen.core", Structure=PmStructure, Lattice=PmLattice, Element=PmElement, PeriodicSite=PmSite, trajectory=traj)
    p = module("pymatgen", core=c)
    return {"pymatgen": p, "pymatgen.core": c, "pymatgen.core.trajectory": traj}
