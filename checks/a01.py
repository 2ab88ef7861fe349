"""A01: arguments of the wrong shape are refused, the documented shapes are accepted, and refusing changes nothing."""
import numpy as rnp

from checks.models import *

N = 3
BIG = 257  # beyond the interpreter's shared small integers


def grid(env, shape, lo=0.05, hi=0.45):
    """Distinct concrete values."""
    k = int(rnp.prod(shape))
    v = lo + (hi - lo) * (rnp.arange(k) * 7 % max(k, 1) + 0.5) / max(k, 1)
    return env.array(v.reshape(shape))


def fill(env, name, shape):
    """Symbolic values (the first few entries), the rest concrete."""
    a = grid(env, shape)
    flat = a.reshape(-1)
    for k in range(min(3, flat.shape[0])):
        flat[k] = env.real(f"{name}{k}", 0.05, 0.45)
    return a


def match(templates, shapes, fixed):
    """Whether all shapes fit the templates with one value per letter."""
    bound = dict(fixed)
    for t, s in zip(templates, shapes):
        if len(t) != len(s):
            return False
        for d, v in zip(t, s):
            if isinstance(d, int):
                if d != v:
                    return False
            elif bound.setdefault(d, v) != v:
                return False
    return True


def neighbours(shape):
    out = []
    for k in range(len(shape)):
        for v in (1, shape[k] + 1, shape[k] - 1):
            if v != shape[k] and v > 0:
                out.append(shape[:k] + (v,) + shape[k + 1 :])
    out += [(1,) + shape, shape[1:], shape + (1,), shape[::-1]]
    return [s for i, s in enumerate(out) if s != shape and s not in out[:i]]


class Case:
    """templates of the array arguments, the call, and (optionally) what must not change."""

    def __init__(self, templates, call, sizes=None, fixed=None, watch=None, symbolic=True, values=None):
        self.templates, self.call, self.fixed, self.watch, self.symbolic = templates, call, fixed or {}, watch, symbolic
        self.sizes = sizes or {}
        self.values = values or {}


def cases(env, kind):
    i = env.get
    ref = None
    if kind in ("interp", "art", "add_dof", "add_art", "mask", "calc", "calc-art", "displaced", "single", "direction", "images", "dof-objects", "art-objects"):
        ref = ref_structure(env, "tric", N, [22, 8, 16])
    fx = {"N": N}
    if kind == "reference":
        c = i("ramannoodle.structure._reference.ReferenceStructure")
        return Case([(3, 3), ("N", 3)], lambda l, p: c([22, 8, 16], l, p), fixed=fx, values={0: env.array([[4, 0, 0], [1, 5, 0], [-1, 0.5, 6]])})
    if kind == "phonons":
        c = i("ramannoodle.dynamics.Phonons")
        return Case([("N", 3), ("M",), ("M", "N", 3)], c, {"N": [1, 2], "M": [1, 2, 4]})
    if kind == "phonons-big":
        c = i("ramannoodle.dynamics.Phonons")
        return Case([("N", 3), ("M",), ("M", "N", 3)], c, {"N": [1], "M": [BIG]})
    if kind == "trajectory":
        c = i("ramannoodle.dynamics.Trajectory")
        return Case([("S", "N", 3)], lambda p: c(p, 1.0), {"S": [1, 4], "N": [1, 2]})
    if kind == "phonon-spectrum":
        c = i("ramannoodle.spectrum.PhononRamanSpectrum")
        return Case([("M",), ("M", 3, 3)], c, {"M": [1, 2, 4, BIG]})
    if kind == "md-spectrum":
        c = i("ramannoodle.spectrum.MDRamanSpectrum")
        return Case([("S", 3, 3)], lambda t: c(t, 1.0), {"S": [2, 4]})
    if kind == "interp":
        c = i("ramannoodle.pmodel.InterpolationModel")
        return Case([(3, 3)], lambda p: c(ref, p))
    if kind == "art":
        c = i("ramannoodle.pmodel.ARTModel")
        return Case([(3, 3)], lambda p: c(ref, p))
    if kind in ("add_dof", "add_art", "mask", "calc", "calc-art", "dof-objects", "art-objects"):
        interp, artm = model_classes(env)
        isart = kind in ("add_art", "calc-art", "art-objects")
        p0 = env.symten("ref")
        model = (artm if isart else interp)(ref, p0)
        h = env.c(1, 10)
        if env.flag("nonempty") or kind == "mask":
            if isart:
                model.add_art(0, env.array([1, 0, 0]), env.array([-h, h]), env.symten("q", 2))
            else:
                model.add_dof(env.array([[1, 0, 0], [0, 0, 0], [0, 0, 0]]), env.array([-h, h]), env.symten("q", 2), 1)
        conf = at(env, "tric", N, [(env.real("t", -0.2, 0.2), env.array([[1, 0, 0], [0, 0, 0], [0, 0, 0]]))])
        watch = lambda: (len(model.cart_basis_vectors), len(model.interpolations), tuple(model.mask.shape), eval_one(env, model, conf))  # noqa: E731
        if kind == "add_dof":
            d = env.array([[0, 0, 0], [0, 3, 0], [0, 0, 4]])
            return Case([("N", 3), ("L",), ("L", 3, 3)], lambda a, b, c: model.add_dof(a, b, c, 1), {"L": [2, 3]}, fx, watch, False, {0: d})
        if kind == "add_art":
            return Case([(3,), ("L",), ("L", 3, 3)], lambda a, b, c: model.add_art(1, a, b, c), {"L": [2]}, {"L": 2}, watch, False, {0: env.array([0, 3, 4])})
        if kind.endswith("objects"):
            u = env.array([[0, 0, 0], [0, 3, 0], [0, 0, 0]])
            n = 2 if isart else env.pick("objects", [1, 2])
            objs = [env.pm_structure(env.array(LATTICES["tric"]), [22, 8, 16], at(env, "tric", N, [(a, u)])) for a in [h / 4, -h / 5][:n]]
            go = (lambda p: model.add_art_from_pymatgen(objs, p)) if isart else (lambda p: model.add_dof_from_pymatgen(objs, p, 1))
            return Case([("M", 3, 3)], go, fixed={"M": n}, watch=watch)
        if kind == "mask":
            return Case([("J",)], lambda v: setattr(model, "mask", v > 1), {"J": [1]}, {"J": 1}, watch, False)
        return Case([("S", "N", 3)], model.calc_polarizabilities, {"S": [1, 2, 4]}, fx, watch)
    if kind == "displaced":
        f = i("ramannoodle.structure.get_displaced_positions") if hasattr(env.imp("ramannoodle.structure"), "get_displaced_positions") else i("ramannoodle.structure._displace.get_displaced_positions")
        return Case([("N", 3), ("L",)], lambda d, a: f(ref, d, a), {"L": [1, 3]}, fx, None, False)
    if kind == "single":
        f = i("ramannoodle.structure._displace.get_ast_displaced_positions")
        return Case([(3,), ("L",)], lambda d, a: f(ref, 1, d, a), {"L": [1, 3]}, fx, None, False)
    if kind == "direction":
        return Case([(3,)], ref.get_frac_direction)
    if kind == "images":
        return Case([("N", 3)], ref.get_equivalent_displacements, fixed=fx, symbolic=False)
    if kind == "convolve":
        f = i("ramannoodle.spectrum.utils.convolve_spectrum")
        return Case([("M",), ("M",), ("L",)], lambda w, y, o: f(w, y, "lorentzian", 5.0, o), {"M": [1, 2, 4], "L": [1, 3]})
    if kind == "dataset":
        c = i("ramannoodle.dataset.torch.PolarizabilityDataset")
        return Case([(3, 3), ("S", "N", 3), ("S", 3, 3)], lambda l, p, q: c(l, [22, 8, 16], p, q), {"S": [1, 2, 4]}, fx)
    if kind == "dataset-objects":
        f = i("ramannoodle.io.pymatgen.construct_polarizability_dataset")
        n = env.pick("objects", [1, 2])
        objs = [env.pm_structure(env.array(LATTICES["tric"]), [22, 8, 16], env.array(POS[:3])) for _ in range(n)]
        return Case([("M", 3, 3)], lambda p: f(objs, p), fixed={"M": n})
    if kind == "scale":
        c = i("ramannoodle.dataset.torch.PolarizabilityDataset")
        d = c(env.array([[4, 0, 0], [0, 4, 0], [0, 0, 4]]), [22, 8, 16], grid(env, (2, 3, 3)), grid(env, (2, 3, 3)) * grid(env, (2, 1, 1)))
        return Case([(3, 3), (3, 3)], d.scale_polarizabilities, watch=lambda: d.scaled_polarizabilities)
    if kind == "vectors":
        f = i("ramannoodle.dataset.torch.utils.polarizability_vectors_to_tensors")
        return Case([("S", 6)], lambda v: f(env.tensor(v)), {"S": [1, 2, 6]})
    if kind == "tensors":
        f = i("ramannoodle.dataset.torch.utils.polarizability_tensors_to_vectors")
        return Case([("S", 3, 3)], lambda v: f(env.tensor(v)), {"S": [1, 2, 6]})
    raise KeyError(kind)


def same(env, label, a, b):
    if isinstance(a, tuple):
        for k, (x, y) in enumerate(zip(a, b)):
            same(env, f"{label} {k}", x, y)
    elif isinstance(a, int):
        env.eq(label, a, b)
    else:
        env.close(label, a, b)


def shapes(env, kind):
    c = cases(env, kind)
    bound = {k: env.pick(f"size{k}", v) for k, v in c.sizes.items()}
    bound.update(c.fixed)
    right = [tuple(bound.get(d, d) for d in t) for t in c.templates]
    which = env.choice("argument", len(right) + 1)
    sh = list(right)
    if which < len(right):
        sh[which] = env.pick("shape", neighbours(right[which]))
    args = []
    for k, s in enumerate(sh):
        if k in c.values and s == tuple(c.values[k].shape):
            args.append(c.values[k])
        elif c.symbolic and len(s):
            args.append(fill(env, f"x{k}_", s))
        else:
            args.append(grid(env, s))
    before = c.watch() if c.watch else None
    if match(c.templates, sh, c.fixed):
        _, err = env.try_(c.call, *args)
        env.true("documented shapes accepted", err is None or "InvalidDOF" in type(err).__name__, f"{sh}: {type(err).__name__}: {err}")
    else:
        env.raises(f"refused: {sh}", (ValueError, invalid_dof(env)) if kind == "art-objects" else ValueError, c.call, *args)
        if before is not None:
            same(env, "unchanged", c.watch(), before)


def files(env, n):
    """One file name per amplitude, for any number of them."""
    f = env.get("ramannoodle.structure._displace.write_displaced_structures")
    ref = ref_structure(env, "tric", 2)
    root = env.tmp()
    m = n + env.choice("extra", 3) - 1
    paths = [str(root / f"s{k}") for k in range(m)]
    amps = env.array([0.001 * (k + 1) for k in range(n)])
    d = env.array([[1, 0, 0], [0, 1, 0]])
    if m == n:
        f(ref, d, amps, paths, "poscar")
        env.eq("files", sorted(p.name for p in root.iterdir()), sorted(f"s{k}" for k in range(n)))
    else:
        env.raises("refused", ValueError, f, ref, d, amps, paths, "poscar")
        env.eq("nothing written", list(root.iterdir()), [])


FORMATS = {
    "read_phonons": ["poscar", "xdatcar"],
    "read_trajectory": ["poscar"],
    "read_positions_and_polarizability": ["poscar", "xdatcar"],
    "read_structure_and_polarizability": ["poscar", "xdatcar"],
    "read_polarizability_dataset": ["poscar", "xdatcar"],
    "read_positions": [],
    "read_ref_structure": [],
    "write_structure": ["outcar", "vasprun.xml"],
    "write_trajectory": ["poscar", "outcar", "vasprun.xml"],
}


def formats(env, name):
    """Format names that are not documented for an operation."""
    f = env.get("ramannoodle.io.generic." + name)
    fmt = env.pick("format", ["cif", "", "POSCAR", "outcar "] + FORMATS[name])
    root = env.tmp()
    path = root / "file"
    if name.startswith("read"):
        path.write_text("nothing\n")
        env.raises("unsupported format", ValueError, f, path, fmt)
        env.eq("file", path.read_text(), "nothing\n")
    else:
        lat = env.array([[4, 0, 0], [1, 5, 0], [-1, 0.5, 6]])
        pos = fill(env, "x", (2, 3))
        env.raises("unsupported format", ValueError, f, lat, [22, 8], pos if name == "write_structure" else env.array([pos, pos]), path, fmt)
        env.eq("nothing written", list(root.iterdir()), [])


def empty(env, what, fmt):
    """No files at all."""
    if what == "dataset" and fmt == "objects":
        env.raises("refused", ValueError, env.get("ramannoodle.io.pymatgen.construct_polarizability_dataset"), [], env.np.zeros((0, 3, 3)))
        return
    if what == "dataset":
        env.raises("refused", ValueError, env.get("ramannoodle.io.generic.read_polarizability_dataset"), [], fmt)
        return
    ref = ref_structure(env, "tric", 2)
    if what == "write":
        root = env.tmp()
        f = env.get("ramannoodle.structure._displace.write_displaced_structures")
        env.raises("refused", ValueError, f, ref, env.array([[1, 0, 0], [0, 1, 0]]), env.array([env.real("a", 0.01, 0.3)]), [], "poscar")
        env.eq("nothing written", list(root.iterdir()), [])
        return
    interp, artm = model_classes(env)
    dummy = env.flag("dummy")
    model = (artm if what == "art" else interp)(ref, env.symten("ref"), dummy)
    for k in range(env.choice("before", 2)):
        v = env.array([[1, 0, 0], [0, 0, 0]])
        a = env.array([-env.real("h", 0.01, 0.2), env.c(1, 20)])
        model.add_art(0, v[0], a, env.symten("p", 2)) if what == "art" else model.add_dof(v, a, env.symten("p", 2), 1)
    before = len(model.cart_basis_vectors), len(model.mask)
    none = env.np.zeros((0, 3, 3))
    refusal = (ValueError, env.get("ramannoodle.exceptions.InvalidDOFException"))
    if fmt == "objects" and what == "art":
        env.raises("refused", refusal, model.add_art_from_pymatgen, [], none)
    elif fmt == "objects":
        env.raises("refused", refusal, model.add_dof_from_pymatgen, [], none, env.pick("order", [1, 2]))
    elif fmt == "hand" and what == "art":
        env.raises("refused", refusal, model.add_art, 1, env.array([0, 1, 0]), env.np.zeros(0), none)
    elif fmt == "hand":
        env.raises("refused", refusal, model.add_dof, env.array([[0, 0, 0], [0, 1, 0]]), env.np.zeros(0), none, env.pick("order", [1, 2]))
    elif what == "art":
        env.raises("refused", ValueError, model.add_art_from_files, [], fmt)
    else:
        env.raises("refused", ValueError, model.add_dof_from_files, [], fmt, env.pick("order", [1, 2]))
    env.eq("unchanged", (len(model.cart_basis_vectors), len(model.mask)), before)


def counts(env, route, dummy, count):
    """Atomic Raman tensors take two amplitudes (of a structure without symmetry), no more and no less."""
    from checks.m05 import GROUPS, source

    refusal = (ValueError, env.get("ramannoodle.exceptions.InvalidDOFException"))
    ref = ref_structure(env, "tric", 3)
    p0 = env.symten("ref")
    model = model_classes(env)[1](ref, p0, dummy)
    h = env.real("h", 0.01, 0.05)
    amps = [h * k for k in (1, -1, 2, -2)[:count]]
    pols = env.symten("p", count) if count else env.np.zeros((0, 3, 3))
    u = env.array([[0, 0, 0], [0, 1, 0], [0, 0, 0]])
    confs = [at(env, "tric", 3, [(a, u)]) for a in amps]
    if route == "hand":
        args = (model.add_art, 1, u[1], env.array(amps), pols)
    elif route == "objects":
        args = (model.add_art_from_pymatgen, [env.pm_structure(env.array(LATTICES["tric"]), [22, 8, 8], c) for c in confs], pols)
    else:
        args = (model.add_art_from_files, [source(env, route, LATTICES["tric"], c, pols[i], f"F{i}") for i, c in enumerate(confs)], route)
    if count == 2:
        args[0](*args[1:])
        env.eq("accepted", len(model.cart_basis_vectors), 1)
    else:
        env.raises("refused", refusal, *args)
        env.eq("unchanged", (len(model.cart_basis_vectors), len(model.mask)), (0, 0))


KINDS = ["reference", "phonons", "phonons-big", "trajectory", "phonon-spectrum", "md-spectrum", "interp", "art", "add_dof", "add_art", "mask", "calc", "calc-art", "displaced", "single",
         "direction", "images", "convolve", "dataset", "scale", "vectors", "tensors", "dof-objects", "art-objects", "dataset-objects"]  # fmt: skip


def units(tier):
    b = "every documented size in a small menu (up to 257), every argument with every neighbouring shape (one dimension more, less or 1; one axis more or less; reversed)"
    us = [Unit(f"shape-{k}", shapes, dict(kind=k), b, stub_symmetry=True, budget=120, max_paths=600) for k in KINDS]
    for n in (1, 3, BIG):
        us.append(Unit(f"files-{n}", files, dict(n=n), "one file more or less than amplitudes", stub_symmetry=True, budget=100))
    us += [Unit(f"format-{n}", formats, dict(name=n), "format names not documented for the operation") for n in FORMATS]
    for route in ("hand", "objects", "outcar", "vasprun.xml"):
        for dummy in (False, True):
            for count in (0, 1, 2, 3, 4) if route in ("hand", "objects") else (1, 2, 3, 4):
                us.append(Unit(f"counts-{route}{'-dummy' if dummy else ''}-{count}", counts, dict(route=route, dummy=dummy, count=count), "amplitudes up to 0.1, all tensors", stub_symmetry=True))
    for what in ("interp", "art", "dataset", "write"):
        for fmt in ("outcar", "vasprun.xml") + {"interp": ("poscar", "objects", "hand"), "art": ("poscar", "objects", "hand"), "dataset": ("objects",)}.get(what, ()):
            us.append(Unit(f"empty-{what}-{fmt}", empty, dict(what=what, fmt=fmt), "an empty list of files (structures, amplitudes)", stub_symmetry=True))
    return us
