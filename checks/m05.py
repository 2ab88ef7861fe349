"""M05: degrees of freedom from files or structure objects equal those added by hand."""
from checks import files
from checks.models import *

GROUPS = [("Ti", 1), ("O", 2)]
N = 3
# unit Cartesian displacements; atom 2 sits at (0.25, 0.75, 0.0625): moving it down crosses the boundary
SHAPES = {
    "pair": [[3, 0, 0], [0, 4, 0], [0, 0, 0]],
    "all": [[2, 0, 0], [0, -3, 0], [0, 0, 6]],
    "up": [[0, 0, 0], [0, 0, 0], [0, 0, 1]],
    "skew": [[0, 0, 0], [2, -1, 2], [0, 0, 0]],
    "first": [[0, 3, -4], [0, 0, 0], [0, 0, 0]],
}
SYM = ["Ti", "O", "O"]


def wrapped(env, pos, cell):
    """Coordinates as another program might print them: some of them in a neighbouring cell."""
    return pos + env.array(cell)


def source(env, fmt, lattice, pos, pol, name):
    """A file holding one displaced structure."""
    d = env.tmp()
    path = d / name
    rows = [list(p) for p in pos]
    lat = [list(v) for v in env.array(lattice)]
    pr = None if pol is None else [list(v) for v in pol]
    if fmt == "outcar":
        t = files.outcar(env, GROUPS, lat, rows, pr, pdec=12)
    elif fmt == "vasprun.xml":
        t = files.vasprun(env, GROUPS, lat, rows, pr, pdec=12)
    elif fmt == "poscar":
        t = files.poscar(env, GROUPS, lat, rows, dec=12)
    else:
        t = files.xdatcar(env, GROUPS, lat, [rows], dec=12)
    return files.write(path, t)


def amplitudes(env, k, size="usual"):
    if size == "small":
        return [env.real("a0", 0.004, 0.02), env.real("a1", -0.02, -0.004), env.real("a2", 0.15, 0.3)][:k]
    if size == "large":
        return [env.real("a0", 0.8, 1.3), env.real("a1", -1.3, -0.7), env.real("a2", 0.1, 0.3)][:k]
    a = [env.real("a0", 0.05, 0.2), env.real("a1", -0.2, -0.05), env.real("a2", 0.3, 0.6)]
    return a[:k]


def setup(env, art, lattice, shape, k, size="usual"):
    interp, artm = model_classes(env)
    ref = ref_structure(env, lattice, N)
    p0 = env.symten("ref")
    cls = artm if art else interp
    u = unit_of(env, SHAPES[shape])
    amps = amplitudes(env, k, size)
    pols = [env.symten(f"p{i}") for i in range(k)]
    order = env.perm("order", k) if k > 1 else [0]
    amps, pols = [amps[i] for i in order], [pols[i] for i in order]
    confs = [at(env, lattice, N, [(a, u)]) for a in amps]
    # the image of an atom that is printed must not matter
    cells = [[[0, 0, 0]] * N, [[0, 0, 1], [0, 0, 0], [-1, 1, 0]], [[1, 0, 0], [0, -1, 0], [0, 0, 1]]]
    return cls, ref, p0, u, amps, pols, confs, cells


def compare(env, lattice, model, twin, u, amps, pols, p0, art):
    env.eq("number of degrees of freedom", len(model.cart_basis_vectors), len(twin.cart_basis_vectors))
    b, want = model.cart_basis_vectors[0], twin.cart_basis_vectors[0]
    dot = (b * want).sum()
    env.close("unit vector", (b * b).sum(), env.c(1))
    env.close("same direction", dot * dot, env.c(1))
    for a, p in zip(amps, pols):
        env.close("given polarizability", eval_one(env, model, at(env, lattice, N, [(a, u)])), p, 1e-5)
    t = env.real("t", -0.7, 0.7)
    conf = at(env, lattice, N, [(t, u)])
    env.close("same prediction", eval_one(env, model, conf), eval_one(env, twin, conf), 1e-5)


def from_files(env, fmt, art, lattice, shape, k, size="usual"):
    cls, ref, p0, u, amps, pols, confs, cells = setup(env, art, lattice, shape, k, size)
    model, twin = cls(ref, p0), cls(ref, p0)
    w = env.choice("images", len(cells))
    paths = [source(env, fmt, LATTICES[lattice], wrapped(env, c, cells[(w + i) % len(cells)]), p, "f") for i, (c, p) in enumerate(zip(confs, pols))]
    paths = paths if env.flag("as path") else [str(p) for p in paths]
    if art:
        model.add_art_from_files(paths, fmt)
        i = next(i for i in range(N) if any(SHAPES[shape][i]))
        twin.add_art(i, env.array(SHAPES[shape][i]), env.array(amps), env.array(pols))
    else:
        model.add_dof_from_files(paths, fmt, 1)
        twin.add_dof(env.array(SHAPES[shape]), env.array(amps), env.array(pols), 1)
    compare(env, lattice, model, twin, u, amps, pols, p0, art)


def from_objects(env, art, lattice, shape, k, size="usual"):
    cls, ref, p0, u, amps, pols, confs, cells = setup(env, art, lattice, shape, k, size)
    model, twin = cls(ref, p0), cls(ref, p0)
    w = env.choice("images", len(cells))
    objs = [env.pm_structure(env.array(LATTICES[lattice]), [22, 8, 8], wrapped(env, c, cells[(w + i) % len(cells)])) for i, c in enumerate(confs)]
    if art:
        model.add_art_from_pymatgen(objs, env.array(pols))
        i = next(i for i in range(N) if any(SHAPES[shape][i]))
        twin.add_art(i, env.array(SHAPES[shape][i]), env.array(amps), env.array(pols))
    else:
        model.add_dof_from_pymatgen(objs, env.array(pols), 1)
        twin.add_dof(env.array(SHAPES[shape]), env.array(amps), env.array(pols), 1)
    compare(env, lattice, model, twin, u, amps, pols, p0, art)


def dummy(env, fmt, art, lattice, shape):
    """Models without polarizabilities read positions only."""
    cls, ref, p0, u, amps, pols, confs, cells = setup(env, art, lattice, shape, 2)
    zero = env.np.zeros((3, 3))
    model, twin = cls(ref, zero, True), cls(ref, zero, True)
    paths = [source(env, fmt, LATTICES[lattice], wrapped(env, c, cells[1]), None, "f") for c in confs]
    if art:
        model.add_art_from_files(paths, fmt)
        i = next(i for i in range(N) if any(SHAPES[shape][i]))
        twin.add_art(i, env.array(SHAPES[shape][i]), env.array(amps), env.array(pols))
    else:
        model.add_dof_from_files(paths, fmt, 1)
        twin.add_dof(env.array(SHAPES[shape]), env.array(amps), env.array(pols), 1)
    env.eq("number of degrees of freedom", (len(model.cart_basis_vectors), len(model.mask)), (1, 1))
    env.close("same direction up to sign", abs((model.cart_basis_vectors[0] * twin.cart_basis_vectors[0]).sum()), env.c(1))
    env.close("along the displacement", abs((model.cart_basis_vectors[0] * u).sum()), env.c(1))


def order_two(env, fmt):
    """Higher interpolation order, with an earlier degree of freedom in place."""
    interp, _ = model_classes(env)
    ref = ref_structure(env, "tric", N)
    p0 = env.symten("ref")
    u = unit_of(env, SHAPES["pair"])
    amps = [env.c(1, 8), env.c(-1, 8), env.c(1, 4)]
    pols = [env.symten(f"p{i}") for i in range(3)]
    q = env.symten("q", 2)
    model, twin = interp(ref, p0), interp(ref, p0)
    confs = [at(env, "tric", N, [(a, u)]) for a in amps]
    other = env.array([[0, 0, 1], [0, 0, 0], [0, 0, 0]])
    for m in (model, twin):
        m.add_dof(other, env.array([env.c(-1, 10), env.c(1, 10)]), q, 1)
    k = env.pick("order", [1, 2, 3])
    if fmt == "objects":
        model.add_dof_from_pymatgen([env.pm_structure(env.array(LATTICES["tric"]), [22, 8, 8], c) for c in confs], env.array(pols), k)
    else:
        model.add_dof_from_files([source(env, fmt, LATTICES["tric"], c, p, "f") for c, p in zip(confs, pols)], fmt, k)
    twin.add_dof(u, env.array(amps), env.array(pols), k)
    t, s = env.real("t", -0.3, 0.3), env.real("s", -0.3, 0.3)
    conf = at(env, "tric", N, [(t, u), (s, unit_of(env, other))])
    env.close("same prediction", eval_one(env, model, conf), eval_one(env, twin, conf), 1e-5)


def refused(env, fmt, art, kind):
    """Displacements that are not collinear, more than one atom, other atoms."""
    interp, artm = model_classes(env)
    bad = invalid_dof(env)
    ref = ref_structure(env, "ortho", N)
    p0 = env.symten("ref")
    model = (artm if art else interp)(ref, p0)
    p = [env.symten(f"p{i}") for i in range(2)]
    a = env.real("a", 0.05, 0.3)
    base = [[0, 0, 0], [0, 0, 1], [0, 0, 0]]
    u = unit_of(env, base)
    first = at(env, "ortho", N, [(a, u)])
    if kind == "tilted":
        b = env.pick("tilt", [[[0, 0, 0], [0, 1, 10], [0, 0, 0]], [[0, 0, 0], [1, 0, -7], [0, 0, 0]], [[0, 0, 0], [0, 0, 12], [0, 5, 0]], [[1, 0, 0], [0, 0, 9], [0, 0, 0]]])
        second = at(env, "ortho", N, [(env.pick("sign", [1, -1]) * a, unit_of(env, b))])
    elif kind == "other atom":
        second = at(env, "ortho", N, [(-a, unit_of(env, [[0, 0, 0], [0, 0, 0], [0, 0, 1]]))])
    elif kind == "two atoms":
        u = unit_of(env, env.pick("which", [[[0, 0, 0], [0, 0, 1], [0, 1, 0]], [[0, 0, 0], [0, 0, 1], [0, env.c(1, 50), 0]], [[env.c(-1, 20), 0, 0], [0, 1, 0], [0, 0, 0]]]))
        first, second = at(env, "ortho", N, [(a, u)]), at(env, "ortho", N, [(-a, u)])
    swap = env.flag("swap")
    confs = [second, first] if swap else [first, second]
    if fmt == "objects":
        objs = [env.pm_structure(env.array(LATTICES["ortho"]), [22, 8, 8], c) for c in confs]
        add = (lambda: model.add_art_from_pymatgen(objs, env.array(p))) if art else (lambda: model.add_dof_from_pymatgen(objs, env.array(p), 1))
    else:
        paths = [source(env, fmt, LATTICES["ortho"], c, q, "f") for c, q in zip(confs, p)]
        add = (lambda: model.add_art_from_files(paths, fmt)) if art else (lambda: model.add_dof_from_files(paths, fmt, 1))
    env.raises("refused", bad, add)
    env.eq("nothing added", (len(model.cart_basis_vectors), len(model.interpolations), len(model.mask)), (0, 0, 0))
    env.close("model untouched", eval_one(env, model, first), p0)


def repeats(env, fmt, art, dummy):
    """An amplitude given more than once is refused, as when added by hand."""
    interp, artm = model_classes(env)
    ref = ref_structure(env, "ortho", N)
    p0 = env.symten("ref")
    model = (artm if art else interp)(ref, p0, dummy)
    a, b = env.real("a", 0.05, 0.3), env.real("b", -0.3, -0.05)
    u = unit_of(env, [[0, 0, 0], [1, 2, 2], [0, 0, 0]])
    p = [env.symten(f"p{i}") for i in range(2)]
    which = env.pick("which", [[0, 1, 0], [0, 0, 1], [1, 0, 0], [0, 0], [0, 1, 0, 1]])
    same = env.flag("same source")
    lat = LATTICES["ortho"]

    def one(k):
        c = at(env, "ortho", N, [((a, b)[k], u)])
        return env.pm_structure(env.array(lat), [22, 8, 8], c) if fmt == "objects" else source(env, fmt, lat, c, None if dummy else p[k], "f")

    made = [one(0), one(1)]
    args = [made[k] if same else one(k) for k in which]
    if fmt == "objects":
        q = env.array([p[k] for k in which])
        add = (lambda: model.add_art_from_pymatgen(args, q)) if art else (lambda: model.add_dof_from_pymatgen(args, q, 1))
    else:
        add = (lambda: model.add_art_from_files(args, fmt)) if art else (lambda: model.add_dof_from_files(args, fmt, 1))
    env.raises("refused", invalid_dof(env), add)
    env.eq("nothing added", (len(model.cart_basis_vectors), len(model.mask)), (0, 0))


def other_count(env, fmt, art):
    """Structures with another number of atoms."""
    interp, artm = model_classes(env)
    ref = ref_structure(env, "ortho", N)
    p0 = env.symten("ref")
    model = (artm if art else interp)(ref, p0)
    p = [env.symten(f"p{i}") for i in range(2)]
    a = env.real("a", 0.05, 0.3)
    u = unit_of(env, [[0, 0, 0], [0, 0, 1], [0, 0, 0]])
    confs = [at(env, "ortho", N, [(x, u)]) for x in (a, -a)]
    k = env.choice("which", 3)
    if k == 2:  # the only one
        k, confs, p = 0, confs[:1], p[:1]
    extra = env.array([[0.5, 0.5, 0.5]])
    n = env.pick("atoms", [N + 1, N - 1, 1])
    confs[k] = env.np.concatenate([confs[k], extra])[:n]
    groups = [("Ti", 1), ("O", n - 1)][: min(n, 2)]
    lat = [list(v) for v in env.array(LATTICES["ortho"])]
    if fmt == "objects":
        objs = [env.pm_structure(env.array(lat), [22] + [8] * (len(c) - 1), c) for c in confs]
        add = (lambda: model.add_art_from_pymatgen(objs, env.array(p))) if art else (lambda: model.add_dof_from_pymatgen(objs, env.array(p), 1))
    else:
        gen = files.outcar if fmt == "outcar" else files.vasprun
        paths = []
        for i, (c, q) in enumerate(zip(confs, p)):
            g = groups if i == k else GROUPS
            paths.append(files.write(env.tmp() / "f", gen(env, g, lat, [list(r) for r in c], [list(r) for r in q], pdec=12)))
        add = (lambda: model.add_art_from_files(paths, fmt)) if art else (lambda: model.add_dof_from_files(paths, fmt, 1))
    env.raises("refused", invalid_dof(env), add)
    env.eq("nothing added", (len(model.cart_basis_vectors), len(model.mask)), (0, 0))


def symmetric(env, fmt, art):
    """In a symmetric crystal one file stands for all its images."""
    from checks.crystals import Crystal

    cr = Crystal("tetra-P4/mmm", False)
    interp, artm = model_classes(env)
    cls = artm if art else interp
    ref = cr.structure(env)
    p0 = cr.invariant(env, env.symten("ref"))
    u = [[0, 0, 0], [0, 0, 0]]
    u[1][env.choice("axis", 3)] = 1
    a = env.c(1, 10)
    pol = env.symten("p")
    model, twin = cls(ref, p0), cls(ref, p0)
    pos = env.array(cr.positions.tolist()) + (env.array(u) @ inv3(env, env.array(cr.lattice.tolist()))) * a
    groups = [("Ti", 1), ("O", 1)]
    lat = [list(v) for v in env.array(cr.lattice.tolist())]
    if fmt == "objects":
        objs = [env.pm_structure(env.array(lat), [22, 8], pos)]
        if art:
            model.add_art_from_pymatgen(objs, env.array([pol]))
        else:
            model.add_dof_from_pymatgen(objs, env.array([pol]), 1)
    else:
        gen = files.outcar if fmt == "outcar" else files.vasprun
        path = files.write(env.tmp() / "f", gen(env, groups, lat, [list(r) for r in pos], [list(r) for r in pol], pdec=12))
        if art:
            model.add_art_from_files(path, fmt)
        else:
            model.add_dof_from_files(path, fmt, 1)
    if art:
        twin.add_art(1, env.array(u[1]), env.array([a]), env.array([pol]))
    else:
        twin.add_dof(env.array(u), env.array([a]), env.array([pol]), 1)
    env.eq("as many degrees of freedom", len(model.cart_basis_vectors), len(twin.cart_basis_vectors))
    t = [[env.real(f"t{i}{k}", -0.2, 0.2) for k in range(3)] for i in range(2)]
    conf = env.array(cr.positions.tolist()) + env.array(t) @ inv3(env, env.array(cr.lattice.tolist()))
    env.close("same prediction", eval_one(env, model, conf), eval_one(env, twin, conf), 1e-5)


def many(env, fmt, art, n):
    """More structures than two or three, in a mixed order."""
    interp, artm = model_classes(env)
    ref = ref_structure(env, "tric", N)
    p0 = env.symten("ref")
    u = unit_of(env, SHAPES["pair"])
    amps = [env.c(3 * k - 10, 40) + (env.c(1, 90) if k % 2 else 0) for k in range(n)]
    k = env.pick("free", [0, n // 2, n - 1])
    pols = filled_tensors(env, n, [k], name="p")
    order = [(5 * i + 2) % n for i in range(n)]
    model, twin = interp(ref, p0), interp(ref, p0)
    confs = [at(env, "tric", N, [(amps[i], u)]) for i in order]
    pl = [pols[i] for i in order]
    if fmt == "objects":
        model.add_dof_from_pymatgen([env.pm_structure(env.array(LATTICES["tric"]), [22, 8, 8], c) for c in confs], env.array(pl), 1)
    else:
        model.add_dof_from_files([source(env, fmt, LATTICES["tric"], c, p, f"f{9 - i}") for i, (c, p) in enumerate(zip(confs, pl))], fmt, 1)
    twin.add_dof(u, env.array([amps[i] for i in order]), env.array(pl), 1)
    for i in range(n):
        env.close(f"point {i}", eval_one(env, model, at(env, "tric", N, [(amps[i], u)])), pols[i], 1e-4)
    t = env.real("t", -0.25, 0.25)
    conf = at(env, "tric", N, [(t, u)])
    env.close("same prediction", eval_one(env, model, conf), eval_one(env, twin, conf), 1e-4)


def units(tier):
    us = []
    deep = tier != "quick"
    lats = ["cubic", "ortho", "tric", "left"] if deep else ["tric"]
    for fmt in ("outcar", "vasprun.xml", "objects"):
        for art in (False, True):
            a = "art" if art else "dof"
            for lat in lats if fmt != "vasprun.xml" or deep else ["left"]:
                for sh in ("up", "skew", "first") if art else ("pair", "all", "up"):
                    if not deep and fmt != "outcar" and sh in ("first", "all"):
                        continue
                    k = 2 if art or not deep else 3
                    fn = from_objects if fmt == "objects" else from_files
                    p = dict(art=art, lattice=lat, shape=sh, k=k)
                    if fmt != "objects":
                        p["fmt"] = fmt
                    us.append(Unit(f"{fmt}-{a}-{lat}-{sh}", fn, p, f"{k} displaced structures, amplitudes 0.05..0.6 of both signs, every order, three sets of images", stub_symmetry=True, budget=150))
            us.append(Unit(f"{fmt}-{a}-long", fn, dict(art=art, lattice="long", shape="up", k=2) | ({} if fmt == "objects" else dict(fmt=fmt)), "two displaced structures of a slab in a cell of 210 angstrom", stub_symmetry=True, budget=150))
            for size, what in (("small", "0.004 to 0.02"), ("large", "0.7 to 1.3")):
                fn = from_objects if fmt == "objects" else from_files
                us.append(Unit(f"{size}-{fmt}-{a}", fn, dict(art=art, lattice="tric", shape="skew" if art else "pair", k=2, size=size) | ({} if fmt == "objects" else dict(fmt=fmt)), f"two displaced structures, amplitudes of {what} angstrom", stub_symmetry=True, budget=100))
            for kind in ("tilted", "other atom") + (("two atoms",) if art else ()):
                us.append(Unit(f"refused-{fmt}-{a}-{kind.replace(' ', '-')}", refused, dict(fmt=fmt, art=art, kind=kind), "amplitude 0.05..0.3", stub_symmetry=True, budget=60))
            us.append(Unit(f"atoms-{fmt}-{a}", other_count, dict(fmt=fmt, art=art), "one atom more, one fewer or a single atom in the first, second or only structure", stub_symmetry=True, budget=60))
            for blank in (False, True):
                us.append(Unit(f"repeats-{fmt}-{a}{'-dummy' if blank else ''}", repeats, dict(fmt=fmt, art=art, dummy=blank), "two amplitudes, one or both of them twice, as the same file or as copies", stub_symmetry=True, budget=60))
            us.append(Unit(f"symmetric-{fmt}-{a}", symmetric, dict(fmt=fmt, art=art), "P4/mmm, one structure, three axes", budget=90))
        us.append(Unit(f"order-{fmt}", order_two, dict(fmt=fmt), "orders 1 to 3, three amplitudes", stub_symmetry=True, budget=90))
    for fmt in ("poscar", "xdatcar", "outcar", "vasprun.xml"):
        for art in (False, True):
            us.append(Unit(f"dummy-{fmt}-{'art' if art else 'dof'}", dummy, dict(fmt=fmt, art=art, lattice="tric", shape="up" if art else "pair"), "two displaced structures", stub_symmetry=True, budget=60))
    for fmt in ("outcar", "vasprun.xml", "objects"):
        us.append(Unit(f"many-{fmt}", many, dict(fmt=fmt, art=False, n=7 if not deep else 12), "seven (thorough twelve) structures in a mixed order, one tensor free", stub_symmetry=True, budget=150))
    return us + layouts(us, "objects-dof-tric-pair", "objects-art-tric-skew")
