"""S02: displaced structures."""
from checks.common import *


def displaced(env, lattice, n, which, ast):
    rs = env.imp("ramannoodle.structure._reference")
    d = env.imp("ramannoodle.structure._displace")
    np = env.np
    lat = lattice_of(env, lattice)
    pos = env.array(POS[:n])
    ref = rs.ReferenceStructure([22] * n, lat, pos)
    amps = env.array([env.real("a0", -0.3, 0.3), env.real("a1", -0.3, 0.3)])
    scale = env.real("scale", 0.01, 20)
    if ast:
        v = env.array(DIRS[which])
        v = v * scale
        out = d.get_ast_displaced_positions(ref, 1, v, amps)
        disp = [[env.c(0)] * 3 for _ in range(n)]
        unit = unit_of(env, DIRS[which])
        disp[1] = list(unit)
        disp = env.array(disp)
    else:
        raw = [DIRS[(which + i) % len(DIRS)] for i in range(n)]
        v = env.array(raw) * scale
        out = d.get_displaced_positions(ref, v, amps)
        disp = unit_of(env, raw)
    env.eq("one structure per amplitude", len(out), 2)
    for k in range(2):
        o = out[k]
        env.true("inside the cell", (o >= 0) & (o <= 1 + 1e-9))
        got = env.array(o) - env.array(POS[:n])
        want = disp @ inv3(env, lat) * amps[k]
        diff = got - want
        env.close("whole cells apart", diff - np.rint(diff), env.zero(diff))
    env.close("reference unchanged", ref.positions, POS[:n])


def magnitude(env, size, ast):
    """Amplitudes of any size, directions of any length; each structure on its own."""
    rs = env.imp("ramannoodle.structure._reference")
    d = env.imp("ramannoodle.structure._displace")
    np = env.np
    lat = lattice_of(env, "tric")
    ref = rs.ReferenceStructure([22, 22], lat, env.array(POS[:2]))
    lo, hi = {"tiny": (0.000001, 0.001), "large": (0.5, 3), "huge": (3, 40)}[size]
    x = env.real("x", lo, hi) * (1 if env.flag("positive") else -1)
    amps = [x, env.c(1, 10), env.c(0)]
    amps = [amps[i] for i in env.pick("order", [[0, 1, 2], [2, 1, 0], [1, 0, 2]])]
    long = env.pick("length", [env.c(1, 10**6), env.c(1, 1000), env.c(1), env.c(10**6)])
    raw = [[0, 0, 0], DIRS[2]] if ast else [DIRS[1], DIRS[2]]
    if ast:
        out = d.get_ast_displaced_positions(ref, 1, env.array(DIRS[2]) * long, env.array(amps))
    else:
        out = d.get_displaced_positions(ref, env.array(raw) * long, env.array(amps))
    step = unit_of(env, raw) @ inv3(env, lat)
    env.eq("one structure per amplitude", len(out), 3)
    for k in range(3):
        env.true("inside the cell", (out[k] >= 0) & (out[k] <= 1 + 1e-9))
        diff = env.array(out[k]) - env.array(POS[:2]) - step * amps[k]
        unit = 1 / x if size == "tiny" and amps[k] is x else 1
        diff = diff - np.rint(diff)
        env.close("moved by the amplitude", diff * unit, env.zero(diff), 1e-5)


def whole(env, ast):
    """Whole-number arrays mean the same as the numbers they hold."""
    rs = env.imp("ramannoodle.structure._reference")
    d = env.imp("ramannoodle.structure._displace")
    np = env.np
    which = env.pick("whole", ["positions", "lattice", "direction", "amplitudes", "all"])
    lat = [[4, 0, 0], [1, 5, 0], [-1, 2, 6]]
    pos = [[0, 0, 0], [1, 0, 0]] if which in ("positions", "all") else [[0, 0, 0], POS[1]]
    raw = [[0, 0, 0], DIRS[1]] if ast else DIRS[:2]
    amps = [1, -2] if which in ("amplitudes", "all") else [env.real("a0", -0.3, 0.3), env.real("a1", -0.3, 0.3)]
    half = 1 if which in ("direction", "all") else env.c(1, 2)
    given = lambda name, x: env.ints(x) if which in (name, "all") else env.array(x)
    ref = rs.ReferenceStructure([22, 8], given("lattice", lat), given("positions", pos))
    if ast:
        out = d.get_ast_displaced_positions(ref, 1, given("direction", DIRS[1]) * half, given("amplitudes", amps))
    else:
        out = d.get_displaced_positions(ref, given("direction", raw) * half, given("amplitudes", amps))
    step = unit_of(env, raw) @ inv3(env, env.array(lat))
    env.eq("one structure per amplitude", len(out), 2)
    for k in range(2):
        diff = env.array(out[k]) - env.array(pos) - step * amps[k]
        env.close(f"whole {which}", diff - np.rint(diff), env.zero(diff))


def written(env, lattice, ast):
    """One file per amplitude, in the order of the names given."""
    rs = env.imp("ramannoodle.structure._reference")
    d = env.imp("ramannoodle.structure._displace")
    pc = env.imp("ramannoodle.io.vasp.poscar")
    np = env.np
    lat = lattice_of(env, lattice)
    ref = rs.ReferenceStructure([22, 8], lat, env.array(POS[:2]))
    amps = env.array([env.real("a0", -0.3, -0.05), env.real("a1", 0.02, 0.1), env.real("a2", 0.15, 0.3)])
    tmp = env.tmp()
    order = env.perm("order", 3)
    paths = [tmp / f"F{i}" for i in order]
    if env.flag("strings"):
        paths = [str(p) for p in paths]
    raw = [[0, 0, 0], DIRS[1]] if ast else DIRS[:2]
    if ast:
        d.write_ast_displaced_structures(ref, 1, env.array(DIRS[1]) * 3, amps, paths, "poscar")
    else:
        d.write_displaced_structures(ref, env.array(raw) * 3, amps, paths, "poscar")
    step = unit_of(env, raw) @ inv3(env, lat)
    for k in range(3):
        l, z, p = pc.read_structure(paths[k])
        env.close("lattice", l, lat, 1e-7)
        env.eq("numbers", list(z), [22, 8])
        diff = p - env.array(POS[:2]) - step * amps[k]
        env.close("whole cells apart", diff - np.rint(diff), env.zero(diff), 1e-7)


def many(env, n, count, ast):
    """Larger cells and more amplitudes."""
    rs = env.imp("ramannoodle.structure._reference")
    d = env.imp("ramannoodle.structure._displace")
    np = env.np
    pos = [[(k + 0.5) / n, (3 * k + 1) % n / n, (5 * k + 2) % n / n] for k in range(n)]
    pos = env.array([[round(x * 64) / 64 for x in p] for p in pos])
    lat = lattice_of(env, "tric")
    ref = rs.ReferenceStructure([22] * n, lat, pos)
    amps = [env.c((7 * k) % count - count // 2, 40) for k in range(count)]
    amps[env.pick("which", [0, count // 2, count - 1])] = env.real("a", -0.3, 0.3)
    amps = env.array(amps)
    raw = [[(k % 5) - 2, (k % 3) - 1, 1 + k % 2] for k in range(n)]
    if ast:
        a = env.pick("atom", [0, n // 2, n - 1])
        raw = [DIRS[1] if k == a else [0, 0, 0] for k in range(n)]
        out = d.get_ast_displaced_positions(ref, a, env.array(DIRS[1]), amps)
    else:
        out = d.get_displaced_positions(ref, env.array(raw), amps)
    env.eq("one structure per amplitude", len(out), count)
    step = unit_of(env, raw) @ inv3(env, lat)
    for k in range(count):
        o = env.array(out[k])
        env.true("inside the cell", (o >= 0) & (o <= 1 + 1e-9))
        diff = o - pos - step * amps[k]
        env.close("whole cells apart", diff - np.rint(diff), env.zero(diff))
    env.close("reference unchanged", ref.positions, pos)


def units(tier):
    us = []
    for lat in ("cubic", "tric", "long", "flat", "big"):
        for w in range(2):
            for ast in (True, False):
                us.append(Unit(f"{lat}-{w}-{'ast' if ast else 'all'}", displaced, dict(lattice=lat, n=2, which=w, ast=ast), "two atoms, two amplitudes in [-0.3,0.3], direction magnitude in [0.01,20]", stub_symmetry=True))
    for size, (lo, hi) in {"tiny": (0.000001, 0.001), "large": (0.5, 3), "huge": (3, 40)}.items():
        for ast in (True, False):
            us.append(Unit(f"magnitude-{size}-{'ast' if ast else 'all'}", magnitude, dict(size=size, ast=ast), f"amplitudes of {lo} to {hi} angstrom next to others, direction lengths 0.000001 to 1000000", stub_symmetry=True))
    for ast in (True, False):
        us.append(Unit(f"whole-{'ast' if ast else 'all'}", whole, dict(ast=ast), "two atoms, integer arrays for one or all of the arguments", stub_symmetry=True))
    for lat, ast in (("tric", False), ("tric", True)):
        us.append(Unit(f"written-{'ast' if ast else 'all'}", written, dict(lattice=lat, ast=ast), "three amplitudes, file names in every order", stub_symmetry=True))
    for ast in (True, False):
        us.append(Unit(f"many-{'ast' if ast else 'all'}", many, dict(n=9, count=13, ast=ast), "nine atoms, thirteen amplitudes, one of them free", stub_symmetry=True))
    return us + layouts(us, "tric-1-ast", "tric-1-all", "many-all", "magnitude-tiny-ast")
