"""I08: structure objects from pymatgen give the same structures as files."""
from checks.common import *
from checks.files import NUM
from checks.i07 import arguments, drift, elements, lattices, near, samples, shapes

TP = 1e-6
NUMS = [[22, 8, 8], [8, 22, 8], [1, 1, 94]]
SYM = {22: "Ti", 8: "O", 1: "H", 94: "Pu"}


def latt(env, kind):
    if kind == "tri":
        a, b, c = env.real("la", 3, 9), env.real("lb", 3, 9), env.real("lc", -9, -3)
        return env.array([[a, 0, 0], [1, b, 0], [-1, env.c(1, 2), c]])
    if kind == "all":
        return env.array([[env.real(f"l{i}{j}", 2, 9) for j in range(3)] for i in range(3)])
    return lattice_of(env, kind)


def pieces(env, nums, lattice):
    """Lattice, numbers and positions of a structure (the cell must be regular for real objects)."""
    pm = env.imp("ramannoodle.io.pymatgen")
    lat = latt(env, lattice)
    if lattice == "all":
        d = det3(lat)
        env.assume((d > 20) | (d < -20))
    pos = env.arr("p", (len(nums), 3), -1, 2)
    st = env.pm_structure(lat, nums, pos)
    l, n, p = pm.get_structure(st)
    env.close("lattice", l, lat, TP)
    env.eq("numbers", list(n), nums)
    env.close("positions", p, pos, TP)
    env.close("positions alone", pm.get_positions(st), pos, TP)


def reference(env, nums, lattice):
    pm = env.imp("ramannoodle.io.pymatgen")
    lat = latt(env, lattice)
    pos = env.array(POS[: len(nums)])
    pos[1] = env.arr("p", (3,), 0.01, 0.99)
    r = pm.construct_ref_structure(env.pm_structure(lat, nums, pos))
    env.close("lattice", r.lattice, lat, TP)
    env.eq("numbers", list(r.atomic_numbers), nums)
    env.close("positions", r.positions, pos, TP)
    rs = env.get("ramannoodle.structure._reference.ReferenceStructure")
    s = rs(nums, lat, pos)
    env.close("Cartesian displacement as for a structure of the same data", r.get_cart_displacement(pos - 0.1), s.get_cart_displacement(pos - 0.1), TP)


def trajectory(env, steps, form):
    """Fractional positions in order, whichever form the object stores them in."""
    np = env.np
    pm = env.imp("ramannoodle.io.pymatgen")
    n = 2
    lat = env.array(LATTICES["tric"])
    frac = env.array([[[(1 + 2 * a + i + 3 * s % 5) / 16 for i in range(3)] for a in range(n)] for s in range(steps)])
    for s in range(steps):
        j, k = env.choice(f"atom{s}", 2), env.choice(f"comp{s}", 3) if s < 2 else 0
        frac[s, j, k] = env.real(f"x{s}", 0.03, 0.97)
    dt = env.real("dt", 0.05, 20)
    keep = frac.copy()
    if form == "positions":
        tr = env.pm_trajectory(["Ti", "O"], frac, lat, constant_lattice=True, time_step=7)
    else:
        base = env.array([[0.5, 0.25, 0.125], [0.0625, 0.75, 0.375]])
        steps_ = [frac[0] - base] + [frac[s] - frac[s - 1] for s in range(1, steps)]
        tr = env.pm_trajectory(["Ti", "O"], env.array(steps_), lat, constant_lattice=True, coords_are_displacement=True, base_positions=base)
    stored = tr.coords.copy()
    t = pm.construct_trajectory(tr, dt)
    env.eq("length", len(t), steps)
    env.close("timestep", t.timestep, dt, TP)
    env.close("positions", t.positions_ts, keep, TP)
    env.close("object not modified", tr.coords, stored, TP)
    env.eq("form not modified", bool(tr.coords_are_displacement), form != "positions")


def wrapped(env, form):
    np = env.np
    pm = env.imp("ramannoodle.io.pymatgen")
    lat = env.array(LATTICES["tric"])
    frac = env.array([[[0.25, 0.5, 0.125], [0.375, 0.75, 0.25]]] * 2)
    s, j, k = env.choice("step", 2), env.choice("atom", 2), env.choice("comp", 3)
    x = env.real("x", -1.9, 2.9)
    frac[s, j, k] = x
    if form == "positions":
        tr = env.pm_trajectory(["Ti", "O"], frac, lat, constant_lattice=True)
    else:
        base = env.array([[0.25, 0.5, 0.125], [0.375, 0.75, 0.25]])
        tr = env.pm_trajectory(["Ti", "O"], env.array([frac[0] - base, frac[1] - frac[0]]), lat, constant_lattice=True, coords_are_displacement=True, base_positions=base)
    p = pm.construct_trajectory(tr, 1.0).positions_ts
    env.true("inside the cell", (p >= 0) & (p <= 1))
    d = p - frac
    env.close("whole cells apart", d - np.rint(d), env.zero(d), TP)


def refused(env):
    """Changing lattices, non-positive timesteps and other objects are refused."""
    pm = env.imp("ramannoodle.io.pymatgen")
    frac = env.arr("p", (2, 2, 3), 0.1, 0.9)
    lat = env.array(LATTICES["tric"])
    lats = env.array([LATTICES["tric"], LATTICES["ortho"]])
    dt = env.real("dt", -5, 5)
    env.raises("changing lattice refused", ValueError, pm.construct_trajectory, env.pm_trajectory(["Ti", "O"], frac, lats, constant_lattice=False), 1.0)
    t, e = env.try_(pm.construct_trajectory, env.pm_trajectory(["Ti", "O"], frac, lat, constant_lattice=True), dt)
    if e is None:
        env.true("positive timestep", dt > 0)
    else:
        env.true("refused", isinstance(e, ValueError), detail=repr(e))
        env.true("non-positive timestep", dt <= 0)
    for fn in (pm.construct_ref_structure, pm.get_structure, pm.get_positions):
        env.raises("other objects refused", TypeError, fn, frac)
    env.raises("other objects refused", TypeError, pm.construct_trajectory, frac, 1.0)


def agree(env, fmt):
    """The same calculation read from a file gives the same reference structure."""
    from checks.files import outcar, poscar, vasprun, write

    pm, gen = env.imp("ramannoodle.io.pymatgen"), env.imp("ramannoodle.io.generic")
    g = [("Ti", 1), ("O", 2)]
    lat = lattice_of(env, "tric")
    pos = env.array(POS[:3])
    pos[1] = env.arr("p", (3,), 0.01, 0.99)
    text = {"outcar": outcar, "vasprun.xml": vasprun}.get(fmt)
    path = write(env.tmp() / "F", text(env, g, lat, pos, pdec=12) if text else poscar(env, g, lat, pos, dec=12))
    a = gen.read_ref_structure(path, fmt)
    b = pm.construct_ref_structure(env.pm_structure(lat, [22, 8, 8], pos))
    env.close("lattice", a.lattice, b.lattice, TP)
    env.eq("numbers", list(a.atomic_numbers), list(b.atomic_numbers))
    env.close("positions", a.positions, b.positions, TP)


def long(env, form, steps):
    """Long trajectories: displacements add up."""
    np = env.np
    pm = env.imp("ramannoodle.io.pymatgen")
    lat = env.array(LATTICES["left"])
    frac = filled(env, (steps, 3, 3), 0.02, 0.98, step=29)
    k = env.pick("configuration", [0, steps // 2, steps - 1])
    frac[k, k % 3, 1] = env.real("x", 0.03, 0.97)
    if form == "positions":
        tr = env.pm_trajectory(["Ti", "O", "O"], frac, lat, constant_lattice=True, time_step=7)
    else:
        base = env.array(POS[:3])
        tr = env.pm_trajectory(["Ti", "O", "O"], env.array([frac[0] - base] + [frac[s] - frac[s - 1] for s in range(1, steps)]), lat, constant_lattice=True, coords_are_displacement=True, base_positions=base)
    t = pm.construct_trajectory(tr, 1.5)
    env.eq("length", len(t), steps)
    env.close("positions", t.positions_ts, frac, TP)


def units(tier):
    us = []
    for i, n in enumerate(NUMS):
        us.append(Unit(f"pieces-{i}", pieces, dict(nums=n, lattice=["tric", "tri", "left"][i]), "coordinates in [-1,2]"))
    us.append(Unit("pieces-lattice", pieces, dict(nums=NUMS[0], lattice="all"), "coordinates in [-1,2], lattice components in [2,9]"))
    for i, lat in enumerate(("tric", "left", "ortho")):
        us.append(Unit(f"reference-{lat}", reference, dict(nums=NUMS[i], lattice=lat), "one atom anywhere in the cell", stub_symmetry=True))
    for form in ("positions", "displacements"):
        for s in (1, 2, 4) if tier == "quick" else (1, 2, 4, 7):
            us.append(Unit(f"trajectory-{form}-{s}", trajectory, dict(steps=s, form=form), f"{s} configurations, one coordinate of each anywhere in the cell"))
        us.append(Unit(f"wrapped-{form}", wrapped, dict(form=form), "one coordinate in [-1.9,2.9]"))
    us.append(Unit("refused", refused, {}, "timesteps in [-5,5]"))
    for f in ("poscar", "outcar", "vasprun.xml"):
        us.append(Unit(f"agree-{f}", agree, dict(fmt=f), "one atom anywhere in the cell", stub_symmetry=True))
    for n, g in ((2, "a"), (3, "b")):
        us.append(Unit(f"dataset-samples-{n}", samples, dict(fmt="pymatgen", generic=False, groups=g, n=n, form="path"), f"{n} samples in every order, all positions in the cell, polarizability components within 0.25 of fixed ones"))
    us.append(Unit("dataset-near", near, dict(fmt="pymatgen"), "two samples that differ by up to 0.00002 in one coordinate, one tensor component or both"))
    us.append(Unit("dataset-lattices", lattices, dict(fmt="pymatgen", generic=False), "three structures, one lattice component off by up to 3 (more than 0.001 or less than 0.000004)", max_paths=400))
    us.append(Unit("dataset-shapes", shapes, dict(fmt="pymatgen", generic=False), "three structures, one lattice sheared, transposed, rotated, with rows exchanged or reversed, of the same lattice points, or cubic with other off-diagonals", max_paths=400))
    us.append(Unit("dataset-drift", drift, dict(fmt="pymatgen", generic=False), "four or six structures of a 40 angstrom cell, one length changing by 0.00036 to 0.00039 from one to the next"))
    us.append(Unit("dataset-elements", elements, dict(fmt="pymatgen", generic=False), "three structures, 27 pairs of compositions, all positions in the cell"))
    us.append(Unit("dataset-arguments", arguments, dict(fmt="pymatgen"), "all numbers of structures and polarizabilities up to 3"))
    for form in ("positions", "displacements"):
        us.append(Unit(f"long-{form}", long, dict(form=form, steps=30 if tier == "quick" else 120), "thirty (thorough 120) configurations of three atoms, one free coordinate"))
    return us + layouts(us, "pieces-0", "trajectory-positions-4", "dataset-near")
