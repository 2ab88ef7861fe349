"""I03: POSCAR and XDATCAR files mean what the format says."""
from checks.common import *
from checks.files import *

TP = 1e-5
GROUPS = [
    [("Ti", 1), ("O", 2)],
    [("O", 1), ("Ti", 1), ("O", 1)],
    [("Sr", 2), ("Cl", 1)],
    [("H", 3)],
]


def latt(env, kind):
    if kind == "all":
        return env.array([[env.real(f"l{i}{j}", 2, 9) for j in range(3)] for i in range(3)])
    if kind == "tri":  # triangular, invertible
        a, b, c = env.real("la", 3, 9), env.real("lb", 3, 9), env.real("lc", -9, -3)
        return env.array([[a, 0, 0], [1, b, 0], [-1, env.c(1, 2), c]])
    return lattice_of(env, kind)


def readers(env, path, np):
    """(entry point, lattice, numbers, positions) of every function that reads such a file."""
    pc, xd, gen = (env.imp("ramannoodle.io." + m) for m in ("vasp.poscar", "vasp.xdatcar", "generic"))
    l, n, p = pc.read_structure(path)
    yield "structure", l, n, p
    yield "positions", None, None, pc.read_positions(str(path))
    yield "generic poscar", None, None, gen.read_positions(path, "poscar")
    yield "generic xdatcar", None, None, gen.read_positions(path, "xdatcar")
    ts = xd.read_positions_ts(path)
    env.eq("one configuration", len(ts), 1)
    yield "series", None, None, ts[0]


def ref_readers(env, path):
    pc, gen = env.imp("ramannoodle.io.vasp.poscar"), env.imp("ramannoodle.io.generic")
    for name, r in (("reference", pc.read_ref_structure(path)), ("generic reference", gen.read_ref_structure(str(path), "poscar")), ("generic reference xdatcar", gen.read_ref_structure(path, "xdatcar"))):
        yield name, r.lattice, r.atomic_numbers, r.positions


def check(env, path, lat, nums, pos, ref=False, series=True):
    for name, l, n, p in ref_readers(env, path) if ref else readers(env, path, env.np):
        if l is not None:
            env.close(f"{name} lattice", l, lat, TP)
            env.eq(f"{name} numbers", list(n), nums)
        env.close(f"{name} positions", p, pos, TP)


def scaled(env, groups, lattice, mode, sign, selective=None, comment="", label="title"):
    """Positive scale factors multiply, negative ones give the volume; Cartesian coordinates are scaled as well."""
    nums = numbers_of(groups)
    raw = latt(env, lattice)
    s = env.real("scale", 0.3, 4)
    if sign > 0:
        st = env.text(s, 9)
    elif sign < 0:
        d = det3(raw)
        d = -d if lattice == "left" or lattice == "tri" else d
        st = "-" + env.text(d * s * s * s, 12)
    else:
        s, st = env.c(1), env.pick("unit", ["1.0", " 1", "1.00000000000000   ", "1e0", "0.1E+1"])
    x = env.arr("p", (len(nums), 3), -1, 2)
    path = write(env.tmp() / "F", poscar(env, groups, raw, x, mode=mode, scale_text=st, selective=selective, comment=comment, label=label, dec=12))
    lat = raw * s
    pos = x
    if mode.strip()[0] in "cC":
        pos = x @ inv3(env, raw)
    check(env, path, lat, nums, pos)


def reference(env, lattice, mode, sign):
    """Reference structures read from such files."""
    g = GROUPS[1]
    nums = numbers_of(g)
    raw = latt(env, lattice)
    s = env.real("scale", 0.5, 4)
    st = env.text(s, 9)
    if sign < 0:
        st = "-" + env.text(abs(4 * 5 * 6) * s * s * s, 12)
    frac = env.array(POS[:3])
    k = env.choice("component", 3)
    frac[1, k] = env.real("x", 0.01, 0.99)
    x = frac @ raw if mode[0] in "cC" else frac
    path = write(env.tmp() / "F", poscar(env, g, raw, x, mode=mode, scale_text=st, dec=12))
    check(env, path, raw * s, nums, frac, ref=True)


def counts(env):
    """Numbers of atoms follow the element line."""
    syms = [env.pick(f"s{i}", ["Ti", "O", "H"]) for i in range(3)]
    ns = [1 + env.choice(f"n{i}", 2) for i in range(3)]
    g = list(zip(syms, ns))
    nums = numbers_of(g)
    x = env.arr("p", (len(nums), 3), 0, 1)
    lat = lattice_of(env, "tric")
    path = write(env.tmp() / "F", poscar(env, g, lat, x, dec=12))
    check(env, path, lat, nums, x)


def elements(env, names):
    """Every chemical symbol means its atomic number."""
    from_table = env.pick("element", names)
    pc = env.imp("ramannoodle.io.vasp.poscar")
    lat = lattice_of(env, "cubic")
    x = env.arr("p", (2, 3), 0, 1)
    path = write(env.tmp() / "F", poscar(env, [(from_table[0], 1), ("H", 1)], lat, x, dec=12))
    l, n, p = pc.read_structure(path)
    env.eq("numbers", list(n), [from_table[1], 1])
    env.close("positions", p, x, TP)


def trailing(env, tail, ending):
    """Text after the data and line endings do not matter."""
    g = GROUPS[0]
    nums = numbers_of(g)
    lat = lattice_of(env, "tric")
    x = env.arr("p", (3, 3), -1, 2)
    t = poscar(env, g, lat, x, trailer=tail, dec=12).replace("\n", ending)
    path = env.tmp() / "F"
    path.write_bytes(t.encode())
    pc, gen = env.imp("ramannoodle.io.vasp.poscar"), env.imp("ramannoodle.io.generic")
    l, n, p = pc.read_structure(path)
    env.close("lattice", l, lat, TP)
    env.eq("numbers", list(n), nums)
    env.close("positions", p, x, TP)
    env.close("positions only", pc.read_positions(path), x, TP)
    env.close("positions by format", gen.read_positions(path, "poscar"), x, TP)


def series(env, groups, steps, mode, sign, tail=""):
    """Configurations in file order."""
    np = env.np
    xd = env.imp("ramannoodle.io.vasp.xdatcar")
    pc = env.imp("ramannoodle.io.vasp.poscar")
    nums = numbers_of(groups)
    raw = latt(env, "left")
    s = env.real("scale", 0.3, 4)
    cart = mode[0] in "cC"
    x = env.arr("p", (steps, len(nums), 3), -1, 2)
    st = s
    path = write(env.tmp() / "F", xdatcar(env, groups, raw, x, scale=st, mode=mode, trailer=tail, dec=12))
    want = x @ inv3(env, raw) if cart else x
    env.close("series", xd.read_positions_ts(str(path)), want, TP)
    l, n, p = pc.read_structure(path)
    env.close("lattice", l, raw * s, TP)
    env.eq("numbers", list(n), nums)
    env.close("first configuration", p, want[0], TP)


def wrapped(env, steps):
    """Trajectories hold the wrapped coordinates and the given timestep."""
    np = env.np
    xd = env.imp("ramannoodle.io.vasp.xdatcar")
    x = env.array([[[0.25, 0.5, 0.75]] * 2] * steps)
    for i in range(steps):
        j, k = env.choice(f"atom{i}", 2), env.choice(f"comp{i}", 3)
        x[i, j, k] = env.real(f"x{i}", -1.9, 1.9)
    dt = env.real("dt", 0.05, 9)
    path = write(env.tmp() / "F", xdatcar(env, [("O", 2)], lattice_of(env, "tric"), x, dec=12))
    t = xd.read_trajectory(path, dt)
    env.eq("length", len(t), steps)
    env.close("timestep", t.timestep, dt)
    p = t.positions_ts
    env.true("inside the cell", (p >= 0) & (p <= 1))
    d = p - x
    env.close("whole cells apart", d - np.rint(d), env.zero(d), TP)


TAILS = ["\n", "\n  0.1 0.2 0.3\n  0.4 0.5 0.6\n", "CONTCAR velocities\n 0.1 0.2\n", " \n\n \n0\n"]
MODES = ["Direct", "direct", "D", "d comment", "Cartesian", "cart", "C", "c"]


def large(env, groups, mode, selective, steps):
    """Many atoms of several elements, and long series."""
    nums = numbers_of(groups)
    n = len(nums)
    raw = latt(env, "tric")
    s = env.real("scale", 0.5, 4)
    total = 3 * n * max(steps, 1)
    free = env.pick("places", [[0, total // 2, total - 1], [3, total // 3, total - 3 * n // 2]])
    shape = (n, 3) if steps == 0 else (steps, n, 3)
    x = filled(env, shape, -1, 2, step=29, free=free, name="p")
    path = env.tmp() / "F"
    if steps == 0:
        write(path, poscar(env, groups, raw, x, mode=mode, scale_text=env.text(s, 9), selective=selective, dec=12))
        check(env, path, raw * s, nums, x @ inv3(env, raw) if mode[0] in "cC" else x)
    else:
        write(path, xdatcar(env, groups, raw, x, scale=s, mode=mode, dec=12))
        xd, pc = env.imp("ramannoodle.io.vasp.xdatcar"), env.imp("ramannoodle.io.vasp.poscar")
        env.close("configurations", xd.read_positions_ts(path), x, TP)
        l, z, p = pc.read_structure(path)
        env.close("lattice", l, raw * s, TP)
        env.eq("numbers", list(z), nums)


def units(tier):
    us = []
    A = "scale factor in [0.3,4], three atoms with coordinates in [-1,2]"
    for i, m in enumerate(MODES):
        for lat in ("tric", "tri") if i in (0, 4) else (("left",) if i % 2 else ("tric",)):
            us.append(Unit(f"scale-{m.replace(' ', '_')}-{i}-{lat}", scaled, dict(groups=GROUPS[i % 4], lattice=lat, mode=m, sign=1), A))
    us.append(Unit("scale-all-direct", scaled, dict(groups=GROUPS[0], lattice="all", mode="Direct", sign=1), A + ", lattice components in [2,9]"))
    for lat in ("tric", "left", "ortho", "tri"):
        for m in ("Direct", "Cartesian"):
            us.append(Unit(f"volume-{lat}-{m}", scaled, dict(groups=GROUPS[1], lattice=lat, mode=m, sign=-1), A.replace("scale factor", "cube root of the volume ratio")))
    us.append(Unit("unit-scale", scaled, dict(groups=GROUPS[2], lattice="tri", mode="Direct", sign=0), "five spellings of 1"))
    us.append(Unit("unit-scale-cart", scaled, dict(groups=GROUPS[2], lattice="tri", mode="Cartesian", sign=0), "five spellings of 1"))
    for i, sel in enumerate(["Selective dynamics", "selective", "S", "s"]):
        for m in ("Direct", "cartesian"):
            us.append(Unit(f"selective-{i}-{m}", scaled, dict(groups=GROUPS[0], lattice="tric", mode=m, sign=1, selective=sel), A))
    for i, c in enumerate(["  ! comment", "  Ti1 0.5 0.5", " 7 8 9 10", "\t# x"]):
        us.append(Unit(f"comment-{i}", scaled, dict(groups=GROUPS[0], lattice="tric", mode="Cartesian" if i % 2 else "Direct", sign=1, comment=c), A))
    for i, c in enumerate(["", "Direct", "1.0", "Selective dynamics", "  Ti O", "\u00e9"]):
        us.append(Unit(f"label-{i}", scaled, dict(groups=GROUPS[0], lattice="tric", mode="Direct", sign=1, label=c), A))
    for lat in ("tric", "ortho"):
        for m in ("Direct", "Cartesian"):
            for s in (1, -1):
                us.append(Unit(f"reference-{lat}-{m}-{s}", reference, dict(lattice=lat, mode=m, sign=s), "one coordinate in [0.01,0.99], scale factor in [0.5,4]", stub_symmetry=True))
    us.append(Unit("counts", counts, {}, "all element lines of three entries of three elements with one or two atoms each", max_paths=300))
    table = ["H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu".split()][0]
    NUM.update({s: i + 1 for i, s in enumerate(table)})
    us.append(Unit("elements", elements, dict(names=[(s, i + 1) for i, s in enumerate(table)]), "all elements up to plutonium", max_paths=200))
    for i, t in enumerate(TAILS):
        for j, e in enumerate(["\n", "\r\n"]):
            us.append(Unit(f"tail-{i}-{j}", trailing, dict(tail=t, ending=e), "three atoms with coordinates in [-1,2]"))
    for i, (g, s, m) in enumerate([(0, 1, "Direct configuration="), (1, 2, "Direct configuration="), (3, 3, "direct "), (2, 2, "Cartesian configuration="), (0, 11, "Direct configuration=")]):
        us.append(Unit(f"series-{i}", series, dict(groups=GROUPS[g], steps=s, mode=m, sign=1), f"{s} configurations, scale factor in [0.3,4]"))
    us.append(Unit("series-tail", series, dict(groups=GROUPS[0], steps=2, mode="Direct configuration=", sign=1, tail="\n"), "two configurations and an empty line"))
    us.append(Unit("trajectory-2", wrapped, dict(steps=2), "two configurations, one coordinate each in [-1.9,1.9]"))
    big = [("Ti", 12), ("O", 24), ("Sr", 1), ("H", 3), ("Zr", 2), ("Xe", 10), ("C", 1)]
    for i, (g, m, sel, st) in enumerate([(big, "Direct", None, 0), (big, "Cartesian", "Selective", 0), ([("O", 104), ("Ti", 7)], "Direct", "selective dynamics", 0), (big[:2], "Direct configuration=", None, 12), ([("O", 2)], "Direct configuration=", None, 110 if tier == "quick" else 1010)]):
        us.append(Unit(f"large-{i}", large, dict(groups=g, mode=m, selective=sel, steps=st), "37 to 111 atoms, or up to 110 (thorough 1010) configurations; three free coordinates", budget=150))
    return us
