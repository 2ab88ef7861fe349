"""I07: datasets read from several files keep samples apart and refuse mismatches."""
from checks.common import *
from checks.files import *

TP = 2e-5
G = {
    "a": [("Ti", 1), ("O", 2)],
    "b": [("H", 2)],
    "c": [("O", 1), ("Zr", 1), ("O", 1)],
}


def entry(env, fmt, generic):
    """Function that makes a dataset of a list of calculations (lattice, groups, positions, polarizability)."""
    if fmt == "pymatgen":
        pm = env.imp("ramannoodle.io.pymatgen")

        def make(calcs, form=None):
            return pm.construct_polarizability_dataset([env.pm_structure(l, numbers_of(g), p) for l, g, p, _ in calcs], env.array([e for *_, e in calcs]))

        return make
    m = env.imp("ramannoodle.io.vasp." + ("outcar" if fmt == "outcar" else "vasprun"))
    gen = env.imp("ramannoodle.io.generic")
    text = outcar if fmt == "outcar" else vasprun

    def make(calcs, form="path", which=None):
        d = env.tmp()
        paths = [write(d / f"F{9 - i}", text(env, g, l, p, polarizability=e, pdec=12, decoys=False)) for i, (l, g, p, e) in enumerate(calcs)]
        paths = paths if which is None else [paths[i] for i in which]
        arg = paths if form == "path" else [str(p) for p in paths] if form == "str" else paths[0] if form == "one" else str(paths[0])
        return gen.read_polarizability_dataset(arg, fmt) if generic else m.read_polarizability_dataset(arg)

    return make


def pols(env, n, size=0.25):
    base = [[[1, 2, 3], [2, 4, 5], [3, 5, 6]], [[2, 4, 5], [4, 8, 9], [5, 9, 7]], [[9, 5, 1], [5, 1, 7], [1, 7, 2]], [[4, 4, 2], [4, 3, 1], [2, 1, 5]]]
    return [env.array(base[i]) + env.symten(f"e{i}", None, -size, size) for i in range(n)]


def samples(env, fmt, generic, groups, n, form):
    """One sample per file, in the given order, each with its own data."""
    g = G[groups]
    nums = numbers_of(g)
    lat = lattice_of(env, "tric")
    pos = [env.arr(f"p{i}", (len(nums), 3), 0, 1) for i in range(n)]
    pol = pols(env, n)
    order = env.perm("order", n) if n <= 3 else list(range(n))[::-1]
    calcs = [(lat, g, pos[i], pol[i]) for i in order]
    if form in ("one", "one-str"):
        calcs = calcs[:1]
        order = order[:1]
    ds = entry(env, fmt, generic)(calcs, form)
    env.eq("length", len(ds), len(order))
    env.eq("samples", ds.num_samples, len(order))
    env.eq("atoms", ds.num_atoms, len(nums))
    env.eq("numbers", list(ds.atomic_numbers), nums)
    env.close("positions", ds.positions, env.array([pos[i] for i in order]), TP)
    env.close("polarizabilities", ds.polarizabilities, env.array([pol[i] for i in order]), TP)
    for k, i in enumerate(order):
        l, z, p, _ = ds[k]
        env.close("item lattice", l, lat, TP)
        env.close("item numbers", z, nums, TP)
        env.close("item positions", p, pos[i], TP)


def repeated(env, fmt):
    """The same calculation may be given twice."""
    g = G["b"]
    lat = lattice_of(env, "tric")
    pos = [env.arr(f"p{i}", (2, 3), 0, 1) for i in range(2)]
    pol = pols(env, 2)
    which = [env.choice(f"file{i}", 2) for i in range(3)]
    env.assume(len(set(which)) == 2)
    if fmt != "pymatgen" and env.flag("same file"):
        ds = entry(env, fmt, False)([(lat, g, p, e) for p, e in zip(pos, pol)], "path", which)
    else:
        ds = entry(env, fmt, False)([(lat, g, pos[i], pol[i]) for i in which])
    env.close("positions", ds.positions, env.array([pos[i] for i in which]), TP)
    env.close("polarizabilities", ds.polarizabilities, env.array([pol[i] for i in which]), TP)


def near(env, fmt):
    """Samples that differ by very little are different samples."""
    g = G["b"]
    lat = lattice_of(env, "tric")
    base = [[0.25, 0.5, 0.125], [0.375, 0.75, 0.25]]
    e0 = env.array([[1, 2, 3], [2, 4, 5], [3, 5, 6]])
    d, e = env.real("d", -0.00002, 0.00002), env.real("e", -0.00002, 0.00002)
    z = env.c(0)
    where, k = env.choice("where", 3), env.choice("component", 3)
    move = [[z] * 3, [z] * 3]
    move[k % 2][k] = d
    pos = [env.array(base), env.array(base) + (env.array(move) if where != 1 else env.array([[z] * 3] * 2))]
    bump = [[z] * 3 for _ in range(3)]
    bump[k][k] = e
    pol = [e0, e0 + (env.array(bump) if where != 0 else env.array([[z] * 3] * 3))]
    order = [0, 1, 0] if env.flag("three") else [0, 1]
    ds = entry(env, fmt, False)([(lat, g, pos[i], pol[i]) for i in order])
    for n, i in enumerate(order):
        env.close(f"positions {n}", ds.positions[n], pos[i], 3e-6)
        env.close(f"polarizability {n}", ds.polarizabilities[n], pol[i], 3e-6)


def lattices(env, fmt, generic):
    """A deviating component of the lattice in any file is refused, rounding is not."""
    bad = env.get("ramannoodle.exceptions.IncompatibleStructureException")
    g = G["b"]
    k, i, j = env.choice("file", 3), env.choice("row", 3), env.choice("column", 3)
    x = env.real("x", -3, 3)
    big = env.flag("big")
    if big:
        env.assume((x > 0.001) | (x < -0.001))
    else:
        env.assume((x <= 0.000004) & (x >= -0.000004))
    lats = [lattice_of(env, "tric") for _ in range(3)]
    lats[k][i, j] = lats[k][i, j] + x
    pol = pols(env, 3, 0.1)
    calcs = [(lats[q], g, env.array(POS[q : q + 2]), pol[q]) for q in range(3)]
    ds, e = env.try_(entry(env, fmt, generic), calcs)
    if big:
        env.true("other lattice refused", isinstance(e, bad), detail=repr(e))
    else:
        env.true("same lattice accepted", e is None, detail=repr(e))
        env.close("polarizabilities", ds.polarizabilities, env.array(pol), TP)


def drift(env, fmt, generic):
    """Every lattice is compared with the first one: small steps do not add up unnoticed."""
    bad = env.get("ramannoodle.exceptions.IncompatibleStructureException")
    g = G["b"]
    i = env.choice("row", 3)
    step = env.real("step", 0.00036, 0.00039) * (1 if env.flag("growing") else -1)
    n = env.pick("files", [4, 6])
    lats = [env.array([[40, 0, 0], [0, 40, 0], [0, 0, 40]]) for _ in range(n)]
    for q in range(n):
        lats[q][i, i] = lats[q][i, i] + step * q
    pol = filled_tensors(env, n)
    calcs = [(lats[q], g, env.array(POS[q % 3 : q % 3 + 2]), pol[q]) for q in range(n)]
    ds, e = env.try_(entry(env, fmt, generic), calcs)
    env.true("other lattice refused", isinstance(e, bad), detail=repr(e))


KINDS = ["sheared", "transposed", "rows exchanged", "row reversed", "rotated", "same cell, other vectors", "zeros and ones"]


def shapes(env, fmt, generic):
    """Lattices that share lengths, angles, volume or the set of lattice points are still different lattices."""
    bad = env.get("ramannoodle.exceptions.IncompatibleStructureException")
    np = env.np
    g = G["b"]
    k, kind = env.choice("file", 3), env.pick("kind", KINDS)
    lats = [lattice_of(env, "tric") for _ in range(3)]
    a = lats[k].copy()
    i = env.choice("row", 3)
    j = (i + 1) % 3
    if kind == "sheared":
        t = env.real("t", -1, 1)
        env.assume((t > 0.01) | (t < -0.01))
        a[i] = a[i] + t * a[j]
    elif kind == "transposed":
        a = a.T.copy()
    elif kind == "rows exchanged":
        a[[i, j]] = a[[j, i]]
    elif kind == "row reversed":
        a[i] = -a[i]
    elif kind == "rotated":
        r = env.rot("th", "xyz"[i])
        env.assume((r[j, j] < 0.999) | (r[j, j] < 0))
        a = a @ r.T
    elif kind == "same cell, other vectors":
        a[i] = a[i] + a[j] * env.pick("cells", [1, -1, 2])
    else:
        for q in range(3):
            lats[q] = env.array([[4, 0, 0], [0, 4, 0], [0, 0, 4]])
        a = lats[k].copy()
        a[i, j] = env.real("t", 0.001, 4)
        if env.flag("both ways"):
            a[j, i] = a[i, j]
    lats[k] = a
    pol = pols(env, 3, 0.1)
    calcs = [(lats[q], g, env.array(POS[q : q + 2]), pol[q]) for q in range(3)]
    ds, e = env.try_(entry(env, fmt, generic), calcs)
    env.true("other lattice refused", isinstance(e, bad), detail=repr(e))


def elements(env, fmt, generic):
    """Other elements, another order of elements or another number of atoms are refused."""
    bad = env.get("ramannoodle.exceptions.IncompatibleStructureException")
    base = env.pick("base", [[("Ti", 1), ("O", 2)], [("H", 2)], [("O", 1), ("Zr", 1), ("O", 1)]])
    other = env.pick("other", [[("Ti", 1), ("O", 2)], [("O", 2), ("Ti", 1)], [("Zr", 1), ("O", 2)], [("H", 2)], [("H", 3)], [("H", 1)], [("O", 1), ("Zr", 1), ("O", 1)], [("Ti", 2), ("O", 1)], [("Ti", 1), ("O", 3)]])
    k = env.choice("file", 3)
    gs = [base] * 3
    gs[k] = other
    lat = lattice_of(env, "tric")
    pol = pols(env, 3, 0.1)
    calcs = [(lat, gs[q], env.arr(f"p{q}", (len(numbers_of(gs[q])), 3), 0, 1), pol[q]) for q in range(3)]
    ds, e = env.try_(entry(env, fmt, generic), calcs)
    if numbers_of(base) == numbers_of(other):
        env.true("same elements accepted", e is None, detail=repr(e))
    else:
        env.true("other elements refused", isinstance(e, bad), detail=repr(e))


def arguments(env, fmt):
    """No files, or a wrong number of polarizabilities."""
    lat = lattice_of(env, "tric")
    if fmt != "pymatgen":
        m = env.imp("ramannoodle.io.vasp." + ("outcar" if fmt == "outcar" else "vasprun"))
        env.raises("no files refused", ValueError, m.read_polarizability_dataset, [])
        env.raises("missing file", FileNotFoundError, m.read_polarizability_dataset, [env.tmp() / "missing"])
        return
    pm = env.imp("ramannoodle.io.pymatgen")
    n, k = 1 + env.choice("structures", 3), 1 + env.choice("polarizabilities", 3)
    st = [env.pm_structure(lat, [1, 1], env.arr(f"p{i}", (2, 3), 0, 1)) for i in range(n)]
    pol = env.array(pols(env, k))
    if n != k:
        env.raises("wrong number refused", ValueError, pm.construct_polarizability_dataset, st, pol)
    else:
        env.eq("length", len(pm.construct_polarizability_dataset(st, pol)), n)


def many(env, fmt, generic, n):
    """Many files; one of them free, or one with another lattice or other elements."""
    bad = env.get("ramannoodle.exceptions.IncompatibleStructureException")
    g = G["b"]
    lats = [lattice_of(env, "tric") for _ in range(n)]
    groups = [g] * n
    pos = filled(env, (n, 2, 3), 0, 1, step=29)
    pol = filled_tensors(env, n)
    k = env.pick("file", [0, n // 2, n - 1])
    pos[k, 1, 2] = env.real("x", 0, 1)
    pol[k] = pol[k] + env.symten("e", None, -0.25, 0.25)
    kind = env.pick("kind", ["alike", "lattice", "elements"])
    if kind == "lattice":
        lats[k][1, 0] = lats[k][1, 0] + env.real("off", 0.001, 2)
    if kind == "elements":
        groups[k] = [("O", 2)]
    calcs = [(lats[i], groups[i], pos[i], pol[i]) for i in range(n)]
    ds, e = env.try_(entry(env, fmt, generic), calcs)
    if kind != "alike":
        env.true("refused", isinstance(e, bad), detail=repr(e))
        return
    env.true("accepted", e is None, detail=repr(e))
    env.eq("length", len(ds), n)
    env.close("positions", ds.positions, pos, TP)
    env.close("polarizabilities", ds.polarizabilities, pol, TP)


def units(tier):
    us = []
    for fmt in ("outcar", "vasprun.xml", "pymatgen"):
        for gen in (False, True) if fmt != "pymatgen" else (False,):
            nm = f"{fmt}{'-generic' if gen else ''}"
            for n, g, form in ((2, "a", "path"), (3, "b", "str"), (4, "c", "path")):
                us.append(Unit(f"samples-{nm}-{n}", samples, dict(fmt=fmt, generic=gen, groups=g, n=n, form=form), f"{n} samples in every order, all positions in the cell, polarizability components within 0.25 of fixed ones"))
            if fmt != "pymatgen":
                for form in ("one", "one-str"):
                    us.append(Unit(f"samples-{nm}-{form}", samples, dict(fmt=fmt, generic=gen, groups="a", n=2, form=form), "a single file"))
            us.append(Unit(f"lattices-{nm}", lattices, dict(fmt=fmt, generic=gen), "three files, one lattice component off by up to 3 (more than 0.001 or less than 0.000004)", max_paths=400))
            us.append(Unit(f"shapes-{nm}", shapes, dict(fmt=fmt, generic=gen), f"three files, one lattice {', '.join(KINDS[:-1])} or cubic with other off-diagonals", max_paths=400))
            us.append(Unit(f"drift-{nm}", drift, dict(fmt=fmt, generic=gen), "four or six files of a 40 angstrom cell, one length changing by 0.00036 to 0.00039 from file to file"))
            us.append(Unit(f"elements-{nm}", elements, dict(fmt=fmt, generic=gen), "three files, 27 pairs of compositions, all positions in the cell"))
        us.append(Unit(f"near-{fmt}", near, dict(fmt=fmt), "two samples that differ by up to 0.00002 in one coordinate, one tensor component or both"))
        us.append(Unit(f"repeated-{fmt}", repeated, dict(fmt=fmt), "two calculations given three times"))
        us.append(Unit(f"arguments-{fmt}", arguments, dict(fmt=fmt), "all numbers of structures and polarizabilities up to 3"))
        us.append(Unit(f"many-{fmt}", many, dict(fmt=fmt, generic=False, n=13 if tier == "quick" else 40), "thirteen (thorough forty) calculations, one of them free", budget=120))
    return us
