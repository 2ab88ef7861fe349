"""M07: dummy models accept and refuse exactly what real ones do, and never predict."""
import numpy as rnp

from checks import files
from checks.m05 import GROUPS, N, SHAPES, source
from checks.models import *


def pair(env, art, ref, p0, k=None):
    interp, artm = model_classes(env)
    cls = artm if art else interp
    k = env.choice("reference polarizability", 2) if k is None else k
    return cls(ref, p0), cls(ref, [p0, env.np.zeros((3, 3))][k], True)


def outcome(env, fn, *args):
    _, err = env.try_(fn, *args)
    return None if err is None else type(err).__name__


def agree(env, label, real, dummy):
    env.eq(label + ": number of degrees of freedom", len(dummy.cart_basis_vectors), len(real.cart_basis_vectors))
    env.eq(label + ": mask", [bool(x) for x in dummy.mask], [bool(x) for x in real.mask])
    for k, (a, b) in enumerate(zip(dummy.cart_basis_vectors, real.cart_basis_vectors)):
        env.close(f"{label}: basis vector {k}", a, b)


def silent(env, label, model, conf):
    user = env.get("ramannoodle.exceptions.UserError")
    env.raises(label + ": no prediction", user, eval_one, env, model, conf)
    env.raises(label + ": no predictions", user, model.calc_polarizabilities, env.array([conf, conf]))


def flags(env, real, dummy):
    env.eq("real", real.is_dummy_model, False)
    env.eq("dummy", dummy.is_dummy_model, True)
    if len(real.mask):
        env.eq("masked dummy", dummy.get_masked_model([0]).is_dummy_model, True)
        env.eq("masked real", real.get_masked_model([0]).is_dummy_model, False)


def sequence(env, art, length, given, deep):
    """The same operations on a real and a dummy model."""
    ref = ref_structure(env, "tric", 2)
    p0 = env.symten("ref")
    real, dummy = pair(env, art, ref, p0, int(given))
    _, raw = basis(env, "atom" if art else "mode")
    pols = env.symten("p", 2)
    h = env.real("h", 0.05, 0.2)
    d = env.real("d", -0.05, 0.1)
    amps = env.array([-h, h])
    for step in range(length):
        k = env.choice(f"direction{step}", 4)
        v = [raw[0], raw[1], raw[3], raw[0] + raw[1]][k]
        kind = env.choice(f"amplitudes{step}", 5 if step or deep else 3)
        a = [amps, env.array([h]), env.array([h, h + d * d * 1e-9]), env.array([-h, h, 2 * h]), env.array([-h, h / 3])][kind]
        p = env.array([pols[i % 2] for i in range(a.shape[0])])
        # a dummy model ignores what it is given
        q = p if given else env.array([[[0] * 3] * 3])
        if art:
            i = 1 if k == 2 else 0
            res = outcome(env, real.add_art, i, v[i], a, p)
            res2 = outcome(env, dummy.add_art, i, v[i], a, q)
        else:
            order = env.pick(f"order{step}", [1, 2]) if step else 1
            res = outcome(env, real.add_dof, v, a, p, order, True)
            res2 = outcome(env, dummy.add_dof, v, a, q, order, True)
        env.eq(f"outcome {step}", res2, res)
        agree(env, f"step {step}", real, dummy)
        silent(env, f"step {step}", dummy, env.array(POS[:2]))
    flags(env, real, dummy)
    if len(real.mask):
        s = [env.choice("mask", len(real.mask))]
        a, b = real.get_masked_model(s), dummy.get_masked_model(s)
        agree(env, "masked", a, b)
        silent(env, "masked", b, env.array(POS[:2]))
        a.unmask()
        b.unmask()
        agree(env, "unmasked", a, b)


def from_source(env, fmt, art, shape):
    """The same files or structure objects, collinear or not."""
    lat = "tric"
    ref = ref_structure(env, lat, N)
    p0 = env.symten("ref")
    real, dummy = pair(env, art, ref, p0)
    u = unit_of(env, SHAPES[shape])
    other = unit_of(env, [[0, 0, 0], [1, 0, 0], [0, 0, 1]] if not art else [[0, 1, 1], [0, 1, 0], [0, 0, 1]])
    a, b = env.real("a", 0.05, 0.3), env.real("b", -0.3, -0.05)
    second = env.pick("second", ["opposite", "same", "tilted", "none", "other count"])
    confs = [at(env, lat, N, [(a, u)])]
    if second == "opposite":
        confs.append(at(env, lat, N, [(b, u)]))
    elif second == "same":
        confs.append(confs[0])
    elif second == "tilted":
        confs.append(at(env, lat, N, [(b, u), (a, other)]))
    elif second == "other count":
        confs.append(at(env, lat, N, [(b, u)])[: N - 1])
    pols = [env.symten(f"p{i}") for i in range(len(confs))]
    if fmt == "objects":
        objs = [env.pm_structure(env.array(LATTICES[lat]), [22, 8, 8][: len(c)], c) for c in confs]
        if art:
            run = lambda m, p: m.add_art_from_pymatgen(objs, p)  # noqa: E731
        else:
            run = lambda m, p: m.add_dof_from_pymatgen(objs, p, 1)  # noqa: E731
        res = outcome(env, run, real, env.array(pols))
        res2 = outcome(env, run, dummy, env.array(pols))
    else:
        gen = {"outcar": files.outcar, "vasprun.xml": files.vasprun}[fmt]
        paths = []
        for c, p in zip(confs, pols):
            g = GROUPS if len(c) == N else [("Ti", 1), ("O", 1)]
            lattice = [list(v) for v in env.array(LATTICES[lat])]
            paths.append(files.write(env.tmp() / "f", gen(env, g, lattice, [list(r) for r in c], [list(v) for v in p], pdec=12)))
        if art:
            run = lambda m: m.add_art_from_files(paths, fmt)  # noqa: E731
        else:
            run = lambda m: m.add_dof_from_files(paths, fmt, 1)  # noqa: E731
        res, res2 = outcome(env, run, real), outcome(env, run, dummy)
    env.eq("outcome", res2, res)
    agree(env, "after", real, dummy)
    silent(env, "after", dummy, env.array(POS[:N]))


def positions_only(env, fmt, art):
    """Files without polarizabilities are for dummy models; inherited methods are off for atomic Raman tensors."""
    user = env.get("ramannoodle.exceptions.UserError")
    ref = ref_structure(env, "tric", N)
    p0 = env.symten("ref")
    real, dummy = pair(env, art, ref, p0)
    u = unit_of(env, SHAPES["up" if art else "pair"])
    a = env.real("a", 0.05, 0.3)
    confs = [at(env, "tric", N, [(x, u)]) for x in (a, -a)]
    paths = [source(env, fmt, LATTICES["tric"], c, None, "f") for c in confs]
    if art:
        env.raises("real model", ValueError, real.add_art_from_files, paths, fmt)
        for m in (real, dummy):
            env.raises("add_dof", user, m.add_dof, u, env.array([a, -a]), env.symten("p", 2), 1)
            env.raises("add_dof_from_files", user, m.add_dof_from_files, paths, fmt, 1)
            objs = [env.pm_structure(env.array(LATTICES["tric"]), [22, 8, 8], c) for c in confs]
            env.raises("add_dof_from_pymatgen", user, m.add_dof_from_pymatgen, objs, env.symten("q", 2), 1)
            agree(env, "nothing added", m, real)
        dummy.add_art_from_files(paths, fmt)
        real.add_art(2, env.array([0, 0, 1]), env.array([a, -a]), env.symten("p", 2))
    else:
        env.raises("real model", ValueError, real.add_dof_from_files, paths, fmt, 1)
        agree(env, "nothing added", dummy, real)
        dummy.add_dof_from_files(paths, fmt, 1)
        real.add_dof(u, env.array([a, -a]), env.symten("p", 2), 1)
    agree(env, "after", real, dummy)
    silent(env, "after", dummy, confs[0])


def spectra(env, art):
    """No spectrum comes out of a dummy model."""
    user = env.get("ramannoodle.exceptions.UserError")
    ref = ref_structure(env, "tric", 2)
    p0 = env.symten("ref")
    real, dummy = pair(env, art, ref, p0)
    if env.flag("with degrees of freedom"):
        v, amps, p = env.array([[1, 0, 0], [0, 0, 0]]), env.array([env.c(-1, 10), env.c(1, 10)]), env.symten("p", 2)
        for m in (real, dummy):
            if art:
                m.add_art(0, v[0], amps, p)
            else:
                m.add_dof(v, amps, p, 1)
    phonons = env.get("ramannoodle.dynamics._phonon.Phonons")(env.array(POS[:2]), env.array([env.real("w", 1, 10)]), env.arr("d", (1, 2, 3), -0.1, 0.1))
    traj = env.get("ramannoodle.dynamics._trajectory.Trajectory")(env.array([POS[:2]] * 3), env.real("dt", 0.5, 2))
    for label, x in (("phonons", phonons), ("trajectory", traj)):
        env.raises(label, user, x.get_raman_spectrum, dummy)
        x.get_raman_spectrum(real)
    flags(env, real, dummy)


def larger(env, art, n):
    """Every direction of a larger cell, then masks."""
    rs = env.imp("ramannoodle.structure._reference")
    pos = [[(2 * k + 1) / 64, (3 * k + 1) % 32 / 32, (5 * k + 2) % 32 / 32] for k in range(n)]
    ref = rs.ReferenceStructure([8] * n, lattice_of(env, "tric"), env.array(pos))
    real, dummy = pair(env, art, ref, env.symten("ref"), 1)
    c, s = env.c(3, 5), env.c(4, 5)
    z = env.c(0)
    amps = env.array([env.c(k, 40) for k in (-3, -2, -1, 1, 2, 4)])
    p = filled_tensors(env, 6, (2,))
    for i in range(3 * n):
        a, k = i // 3, i % 3
        d = env.array([[c, s, z], [-s, c, z], [z, z, env.c(1)]][k])
        if art:
            res, res2 = (outcome(env, m.add_art, a, d, amps[1:5:3], p[1:3]) for m in (real, dummy))
        else:
            v = env.array([[z, z, z]] * a + [list(d)] + [[z, z, z]] * (n - 1 - a))
            res, res2 = (outcome(env, m.add_dof, v, amps, p, 3) for m in (real, dummy))
        env.eq(f"accepted {i}", (res, res2), (None, None))
    agree(env, "all", real, dummy)
    again = env.pick("again", [0, n - 1])
    if art:
        env.eq("refused again", *(outcome(env, m.add_art, again, d, amps[1:5:3], p[1:3]) for m in (dummy, real)))
    sel = env.pick("mask", [[0], list(range(3 * n)), [3 * n - 1, 1], list(range(0, 3 * n, 2))])
    a, b = real.get_masked_model(sel), dummy.get_masked_model(sel)
    agree(env, "masked", a, b)
    silent(env, "masked", b, env.array(pos))
    flags(env, real, dummy)
    agree(env, "afterwards", real, dummy)


def units(tier):
    deep = tier != "quick"
    us = []
    for art in (False, True):
        a = "art" if art else "dof"
        for given in (False, True):
            us.append(Unit(f"sequence-{a}-{int(given)}", sequence, dict(art=art, length=2, given=given, deep=deep), "every sequence of two additions out of 4 directions x 5 sets of amplitudes x orders 1 and 2, with and without polarizabilities for the dummy", stub_symmetry=True, budget=400 if deep else 120, max_paths=2000))  # fmt: skip
        for fmt in ("outcar", "vasprun.xml", "objects"):
            for shape in ("up", "pair") if deep or fmt == "outcar" else ("pair",) if not art else ("up",):
                us.append(Unit(f"{fmt}-{a}-{shape}", from_source, dict(fmt=fmt, art=art, shape=shape), "one or two structures: opposite, repeated, tilted, another number of atoms", stub_symmetry=True, budget=80))  # fmt: skip
        for fmt in ("poscar", "xdatcar"):
            us.append(Unit(f"{fmt}-{a}", positions_only, dict(fmt=fmt, art=art), "two displaced structures", stub_symmetry=True, budget=60))
        us.append(Unit(f"large-{a}", larger, dict(art=art, n=11 if art else 5), "every direction of eleven (five) atoms, two (six) amplitudes", stub_symmetry=True, budget=150))
        us.append(Unit(f"spectra-{a}", spectra, dict(art=art), "one phonon, three configurations", stub_symmetry=True, budget=60))
    return us
