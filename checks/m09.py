"""M09: amplitudes on one side of the reference only come with a warning, others do not."""
import warnings

import numpy as rnp

from checks.crystals import Crystal
from checks.models import *
from checks.m05 import source

EDGE = (1, 500)  # up to 0.002 angstrom may count as zero


def warned(env, fn, *args):
    """Whether a call warned about a degree of freedom, and about nothing else."""
    kind = env.get("ramannoodle.exceptions.DOFWarning")
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        fn(*args)
    return sum(1 for w in seen if issubclass(w.category, kind))


def less(a, b):
    return bool(a < b)


def sides(env, xs):
    """(reaches above, reaches below), None: too close to say."""
    e = env.c(*EDGE)
    up = True if any(less(e, x) for x in xs) else None if any(less(env.c(0), x) for x in xs) else False
    down = True if any(less(x, -e) for x in xs) else None if any(less(x, env.c(0)) for x in xs) else False
    return up, down


def verdict(env, label, count, groups):
    """groups: interpolation points of every degree of freedom added."""
    want = False
    for xs in groups:
        up, down = sides(env, xs)
        if up is False or down is False:
            want = True
        elif (up is None or down is None) and want is False:
            want = None
    if want is not None:
        env.eq(label + ": warning", count > 0, want)


def add(env, model, art, v, amps, pols, order, with_ref=True):
    if art:
        return warned(env, model.add_art, 0, v, amps, pols)
    return warned(env, model.add_dof, v, amps, pols, order, with_ref)


def setup(env, art, dummy, n=2):
    interp, artm = model_classes(env)
    ref = ref_structure(env, "tric", n)
    p0 = env.symten("ref")
    return ref, p0, (artm if art else interp)(ref, p0, dummy)


def free(env, art, dummy, count):
    """Any distinct amplitudes of either sign, in any order."""
    ref, p0, model = setup(env, art, dummy)
    a = [env.real(f"a{k}", -0.3, 0.3) for k in range(count)]
    gap = env.c(1, 1000)
    for i in range(count):
        env.assume((a[i] > gap) | (a[i] < -gap))
        for j in range(i):
            env.assume((a[i] - a[j] > gap) | (a[j] - a[i] > gap))
    with_ref = True if art else env.flag("reference included")
    v = env.array([[2, 1, 2], [0, 0, 0]])
    if not with_ref and count < 2:
        return
    n = add(env, model, art, v[0] if art else v, env.array(a), filled_tensors(env, count), 1, with_ref)
    verdict(env, "free", n, [a])
    # the warning is advice only
    env.eq("added", len(model.cart_basis_vectors), 1)
    k = env.choice("again", 2)
    w = env.array([[-2, 2, 1], [0, 0, 0]])
    h = env.c(1, 10)
    b = [[-h, h], [h, 2 * h]][k]
    n = add(env, model, art, w[0] if art else w, env.array(b), filled_tensors(env, 2), 2)
    verdict(env, "next", n, [b])
    env.eq("both added", len(model.cart_basis_vectors), 2)


def as_errors(env, art, dummy):
    """A caller that turns warnings into errors keeps the model as it was."""
    kind = env.get("ramannoodle.exceptions.DOFWarning")
    ref, p0, model = setup(env, art, dummy)
    h = env.real("h", 0.01, 0.2)
    t = env.real("t", -0.1, 0.1)
    s = env.pick("sign", [1, -1])
    v, w = env.array([[1, 0, 0], [0, 0, 0]]), env.array([[0, 1, 0], [0, 0, 0]])
    p = env.symten("p", 2)
    model.add_art(0, w[0], env.array([-h, h]), p) if art else model.add_dof(w, env.array([-h, h]), p, 1)
    conf = at(env, "tric", 2, [(t, v)])
    before = None if dummy else eval_one(env, model, conf)
    amps = env.array([h * s, h * 2 * s])
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        if art:
            env.raises("raised", kind, model.add_art, 0, v[0], amps, p)
        else:
            env.raises("raised", kind, model.add_dof, v, amps, p, env.pick("order", [1, 2]))
    env.eq("nothing added", (len(model.cart_basis_vectors), len(model.mask)), (1, 1))
    if not dummy:
        env.close("nothing changed", eval_one(env, model, conf), before)
    n = add(env, model, art, v[0] if art else v, env.array([-h, h]), p, 1)
    env.eq("no warning", n, 0)
    env.eq("usable afterwards", len(model.cart_basis_vectors), 2)


def symmetric(env, crystal, shift, vec, amps, art, dummy):
    """Amplitudes generated by symmetry count."""
    cr = Crystal(crystal, shift)
    interp, artm = model_classes(env)
    model = (artm if art else interp)(cr.structure(env), cr.invariant(env, env.symten("ref")), dummy)
    u = rnp.zeros((cr.n, 3))
    for i, d in vec.items():
        u[i] = d
    u /= rnp.linalg.norm(u)
    h = env.real("h", 0.01, 0.3)
    a = [h * x for x in amps]
    pols = filled_tensors(env, len(a))
    order = 1
    if art:
        i = next(iter(vec))
        n = warned(env, model.add_art, i, env.array(vec[i]), env.array(a), pols)
    else:
        n = warned(env, model.add_dof, env.array(u.tolist()), env.array(a), pols, order)
    xs = a + [-x for x in a] if cr.reverses(u) else a
    verdict(env, "with equivalents", n, [xs])
    env.eq("degrees of freedom", len(model.cart_basis_vectors), len(cr.orbit(u)))


def from_files(env, fmt, art):
    """Amplitudes read from files or structure objects."""
    ref, p0, model = setup(env, art, True, 3)
    a, b = env.real("a", 0.01, 0.3), env.real("b", -0.3, 0.3)
    env.assume((b > a + env.c(1, 100)) | (b < a - env.c(1, 100)), (b > 0.01) | (b < -0.01))
    u = unit_of(env, [[0, 0, 0], [0, 0, 0], [1, 2, 2]])
    confs = [at(env, "tric", 3, [(x, u)]) for x in (a, b)]
    if fmt == "objects":
        objs = [env.pm_structure(env.array(LATTICES["tric"]), [22, 8, 8], c) for c in confs]
        pols = filled_tensors(env, 2)
        n = warned(env, model.add_art_from_pymatgen, objs, pols) if art else warned(env, model.add_dof_from_pymatgen, objs, pols, 1)
    else:
        paths = [source(env, fmt, LATTICES["tric"], c, None, "f") for c in confs]
        n = warned(env, model.add_art_from_files, paths, fmt) if art else warned(env, model.add_dof_from_files, paths, fmt, 1)
    verdict(env, "files", n, [[a, b]])


def many(env, count):
    """Many amplitudes, one of them alone on its side."""
    ref, p0, model = setup(env, False, False)
    a = [env.c(3 * k + 7, 200) for k in range(count)]
    k = env.pick("which", [0, 1, count // 2, count - 1])
    a[k] = -env.real("a", -0.2, 0.2) if env.flag("other sign") else env.c(-1, 50)
    s = env.pick("sign", [1, -1])
    a = [x * s for x in a]
    for x in range(count):
        if x != k:
            env.assume((a[k] - a[x] > env.c(1, 1000)) | (a[x] - a[k] > env.c(1, 1000)))
    env.assume((a[k] > env.c(1, 1000)) | (a[k] < -env.c(1, 1000)))
    n = warned(env, model.add_dof, env.array([[2, 1, 2], [0, 0, 0]]), env.array(a), filled_tensors(env, count), 1)
    verdict(env, "many", n, [a])


def units(tier):
    deep = tier != "quick"
    us = []
    for art in (False, True):
        k = "art" if art else "dof"
        for dummy in (False, True):
            d = "-dummy" if dummy else ""
            for count in ((2,) if art else (1, 2, 3) if not deep else (1, 2, 3, 4)):
                us.append(Unit(f"free-{k}-{count}{d}", free, dict(art=art, dummy=dummy, count=count), f"{count} amplitudes anywhere in [-0.3,0.3] at least 0.001 apart and away from zero", stub_symmetry=True, budget=200, max_paths=2000))  # fmt: skip
            us.append(Unit(f"errors-{k}{d}", as_errors, dict(art=art, dummy=dummy), "two amplitudes on one side, any size", stub_symmetry=True, budget=60))
        for fmt in ("poscar", "xdatcar", "outcar", "objects"):
            us.append(Unit(f"{fmt}-{k}", from_files, dict(fmt=fmt, art=art), "two structures at any amplitudes", stub_symmetry=True, budget=60))
    for i, (name, shift, vec, amps) in enumerate([
        ("cubic-CsCl", False, {0: [1, 0, 0]}, [1]), ("cubic-CsCl", False, {0: [1, 0, 0]}, [1, 2]), ("tetra-P4/mmm", False, {0: [0, 0, 1]}, [-1]), ("tetra-P4mm", False, {1: [0, 0, 1]}, [1, 2]),
        ("tetra-P4mm", False, {1: [0, 0, 1]}, [-1, -2]), ("tetra-P4mm", False, {1: [0, 0, 1]}, [-1, 1]), ("tetra-P4mm", False, {1: [1, 0, 0]}, [1]), ("ortho-Pmm2", True, {1: [0, 0, 1]}, [2, 1]),
        ("monoclinic-Pm", True, {1: [0, 1, 0]}, [1]), ("monoclinic-Pm", True, {1: [1, 0, 0]}, [1, 3]), ("triclinic-P-1", True, {1: [1, 0, 0]}, [1, 3]), ("rutile", False, {0: [0, 0, 1]}, [1]),
    ]):  # fmt: skip
        for art in (False, True):
            us.append(Unit(f"crystal-{i}-{'art' if art else 'dof'}", symmetric, dict(crystal=name, shift=shift, vec=vec, amps=amps, art=art, dummy=bool(i % 2)), f"{name}, amplitudes {amps} times any length", budget=60))
    us.append(Unit("many-15", many, dict(count=15), "15 amplitudes, one of them anywhere in [-0.2,0.2]", stub_symmetry=True, budget=100))
    return us
