"""I01: written structures and trajectories read back unchanged."""
from checks.common import *
from checks.files import *

GROUPS = [
    [("Ti", 1), ("O", 2)],
    [("O", 2)],
    [("Xe", 1), ("H", 1), ("Zr", 1)],
    [("Sr", 1), ("Ti", 1), ("O", 1)],
    [("H", 3)],
]
LABELS = [None, "", "two\nlines", "1.0\n 2.0", "Direct", "tab\there 'quoted' \"both\"", "back\\slash \r carriage", "\u00e9\u4e2d\U0001f600", "  ", "a\x85b\u2028c\x0bd\x0ce\x1cf", "% # ! {} {0}"]
TP = 1e-9
ANY = "all lattices with one component in [-2000,2000] and the others of given sign and number of digits"


def latt(env, kind):
    if kind == "any":  # one component of any sign and size, the others of fixed sign and number of digits
        k = env.choice("component", 9)
        lo = [[10, -9, 2], [2, 10, -9], [-9, 2, -99]]
        hi = [[99, -2, 9], [9, 99, -2], [-2, 9, -10]]
        return env.array([[env.real(f"l{i}{j}", -2000, 2000) if 3 * i + j == k else env.real(f"l{i}{j}", lo[i][j], hi[i][j]) for j in range(3)] for i in range(3)])
    return lattice_of(env, kind)


def cell_pos(env, name, shape):
    return env.arr(name, shape, 0, 1)


def structure(env, groups, kind, label, entry, check):
    np = env.np
    pc = env.imp("ramannoodle.io.vasp.poscar")
    gen = env.imp("ramannoodle.io.generic")
    nums = numbers_of(groups)
    lat = latt(env, kind)
    if "reference" in check:  # one atom anywhere
        pos = env.array(POS[: len(nums)])
        pos[1] = cell_pos(env, "p", (3,))
    else:
        pos = cell_pos(env, "p", (len(nums), 3))
    lat0, pos0, nums0 = lat.copy(), pos.copy(), list(nums)
    path = env.tmp() / "POSCAR"
    if entry == "generic":
        gen.write_structure(lat, nums, pos, path, env.pick("format", ["poscar", "xdatcar"]))
    elif label is None:
        pc.write_structure(lat, nums, pos, str(path))
    else:
        pc.write_structure(lat, nums, pos, path, label=label)
    env.close("lattice not modified", lat, lat0)
    env.close("positions not modified", pos, pos0)
    env.eq("numbers not modified", nums, nums0)
    with open(path, encoding="utf-8", newline="") as f:
        text = f.read()
    env.true("one line per entry", text.count("\n") == 8 + len(nums), detail=f"{text.count(chr(10))} lines")
    if check == "structure":
        l, n, p = pc.read_structure(path)
        env.close("lattice", l, lat0, TP)
        env.eq("numbers", list(n), nums0)
        env.close("positions", p, pos0, TP)
    elif check == "positions":
        env.close("positions", pc.read_positions(path), pos0, TP)
        env.close("positions by format", gen.read_positions(path, "poscar"), pos0, TP)
        env.close("positions by format xdatcar", gen.read_positions(str(path), "xdatcar"), pos0, TP)
    else:
        r = pc.read_ref_structure(path) if check == "reference" else gen.read_ref_structure(path, "poscar")
        env.close("lattice", r.lattice, lat0, TP)
        env.eq("numbers", list(r.atomic_numbers), nums0)
        d = r.positions - pos0
        env.close("positions up to whole cells", d - np.rint(d), env.zero(d), TP)


def trajectory(env, groups, kind, label, entry, steps):
    np = env.np
    xd = env.imp("ramannoodle.io.vasp.xdatcar")
    gen = env.imp("ramannoodle.io.generic")
    nums = numbers_of(groups)
    lat = latt(env, kind)
    pos = cell_pos(env, "p", (steps, len(nums), 3))
    lat0, pos0, nums0 = lat.copy(), pos.copy(), list(nums)
    path = env.tmp() / "XDATCAR"
    if entry == "generic":
        gen.write_trajectory(lat, nums, pos, str(path), "xdatcar")
    elif label is None:
        xd.write_trajectory(lat, nums, pos, path)
    else:
        xd.write_trajectory(lat, nums, pos, path, label=label)
    env.close("lattice not modified", lat, lat0)
    env.close("positions not modified", pos, pos0)
    p = xd.read_positions_ts(path)
    env.close("configurations", p, pos0, TP)
    pc = env.imp("ramannoodle.io.vasp.poscar")
    l, n, p = pc.read_structure(path)
    env.close("lattice", l, lat0, TP)
    env.eq("numbers", list(n), nums0)
    env.close("first configuration", p, pos0[0], TP)


def whole(env):
    """Whole-number lattices and coordinates mean the same as the numbers they hold."""
    pc = env.imp("ramannoodle.io.vasp.poscar")
    xd = env.imp("ramannoodle.io.vasp.xdatcar")
    lat, pos, series = [[14, 0, 0], [-1, 5, 0], [0, 100, -6]], [[0, 0, 0], [0, 1, 0]], [[[0, 0, 1], [0, 1, 0]], [[1, 0, 0], [0, 0, 0]]]
    which = env.pick("whole", ["lattice", "positions", "both"])
    free = latt(env, "any") if which == "positions" else env.array(lat)
    l = free if which == "positions" else env.ints(lat)
    p = cell_pos(env, "p", (2, 3)) if which == "lattice" else env.ints(pos)
    ts = cell_pos(env, "q", (2, 2, 3)) if which == "lattice" else env.ints(series)
    path = env.tmp() / "F"
    pc.write_structure(l, [22, 8], p, path)
    a, n, b = pc.read_structure(path)
    env.close("lattice", a, free, TP)
    env.eq("numbers", list(n), [22, 8])
    env.close("positions", b, p, TP)
    xd.write_trajectory(l, [22, 8], ts, path, overwrite=True)
    env.close("configurations", xd.read_positions_ts(path), ts, TP)
    env.close("lattice of a trajectory", pc.read_structure(path)[0], free, TP)


def wrapped(env, groups, steps):
    """The trajectory object read back holds the written configurations (inside the cell)."""
    np = env.np
    xd = env.imp("ramannoodle.io.vasp.xdatcar")
    nums = numbers_of(groups)
    pos = env.arr("p", (steps, len(nums), 3), env.c(1, 10**6) if env.symbolic else 1e-6, env.c(999999, 10**6) if env.symbolic else 0.999999)
    path = env.tmp() / "XDATCAR"
    xd.write_trajectory(lattice_of(env, "tric"), nums, pos, path)
    dt = env.real("dt", 0.1, 5)
    t = xd.read_trajectory(str(path), dt)
    env.eq("length", len(t), steps)
    env.close("timestep", t.timestep, dt)
    env.close("positions", t.positions_ts, pos, TP)


def order(env, n, what):
    """Any sequence of elements: read back in order or refused, never reordered."""
    pc = env.imp("ramannoodle.io.vasp.poscar")
    xd = env.imp("ramannoodle.io.vasp.xdatcar")
    nums = [env.pick(f"z{i}", [22, 8, 1]) for i in range(n)]
    grouped = all(nums[i] == nums[i - 1] or nums[i] not in nums[:i] for i in range(1, n))
    lat = lattice_of(env, "tric")
    path = env.tmp() / "F"
    if what == "structure":
        pos = cell_pos(env, "p", (n, 3))
        r, e = env.try_(pc.write_structure, lat, list(nums), pos, path)
    else:
        pos = cell_pos(env, "p", (1, n, 3))
        r, e = env.try_(xd.write_trajectory, lat, list(nums), pos, path)
    if not grouped:
        env.true("ungrouped elements refused", isinstance(e, ValueError), detail=f"{nums}: {e!r}")
        env.true("nothing written", not path.exists())
        return
    env.true("grouped elements accepted", e is None, detail=f"{nums}: {e!r}")
    l, z, p = pc.read_structure(path)
    env.eq("numbers", list(z), nums)
    env.close("positions", p, pos if what == "structure" else pos[0], TP)


def large(env, groups, steps):
    """Many atoms (counts of several digits) and elements; free positions at three places."""
    pc = env.imp("ramannoodle.io.vasp.poscar")
    xd = env.imp("ramannoodle.io.vasp.xdatcar")
    nums = numbers_of(groups)
    n = len(nums)
    lat = latt(env, "tric")
    total = 3 * n * max(steps, 1)
    free = env.pick("places", [[0, total // 2, total - 1], [3, total // 3, total - 3 * n // 2]])
    shape = (n, 3) if steps == 0 else (steps, n, 3)
    pos = filled(env, shape, 0, 1, step=29, free=free, name="p", span=(0.0001, 0.9999))
    path = env.tmp() / "F"
    if steps == 0:
        pc.write_structure(lat, nums, pos, path)
        l, z, p = pc.read_structure(path)
        env.close("positions", p, pos, TP)
        env.close("positions only", pc.read_positions(path), pos, TP)
    else:
        xd.write_trajectory(lat, nums, pos, path)
        env.close("configurations", xd.read_positions_ts(path), pos, TP)
        t = xd.read_trajectory(path, 2.0)
        env.close("trajectory", t.positions_ts, pos, TP)
        l, z, _ = pc.read_structure(path)
    env.close("lattice", l, lat, TP)
    env.eq("numbers", list(z), nums)


def units(tier):
    us = [Unit("whole", whole, {}, "two atoms, two configurations, integer arrays for one or both of the arguments", budget=90)]
    for i, g in enumerate(GROUPS):
        us.append(Unit(f"structure-{i}", structure, dict(groups=g, kind="any", label=None, entry="poscar", check="structure"), ANY + ", all positions in the cell"))
    for i, lab in enumerate(LABELS[1:]):
        us.append(Unit(f"label-{i}", structure, dict(groups=GROUPS[0], kind="tric", label=lab, entry="poscar", check="structure"), "all positions in the cell, one label"))
        us.append(Unit(f"trajectory-label-{i}", trajectory, dict(groups=GROUPS[1], kind="tric", label=lab, entry="xdatcar", steps=2), "all positions in the cell, one label"))
    for chk in ("positions", "reference", "generic-reference"):
        us.append(Unit(f"reader-{chk}", structure, dict(groups=GROUPS[3], kind="tric", label=None, entry="poscar", check=chk), "all positions in the cell", stub_symmetry=True))
    us.append(Unit("generic-writer", structure, dict(groups=GROUPS[2], kind="left", label=None, entry="generic", check="structure"), "all positions in the cell"))
    for i, s in enumerate((1, 2, 3, 12) if tier == "quick" else (1, 2, 3, 12, 101)):
        us.append(Unit(f"trajectory-{s}", trajectory, dict(groups=GROUPS[i % 4 if s < 10 else 4], kind="left", label=None, entry="xdatcar", steps=s), f"{s} configurations, all positions in the cell", budget=100))
    us.append(Unit("trajectory-any-lattice", trajectory, dict(groups=GROUPS[1], kind="any", label=None, entry="xdatcar", steps=1), ANY))
    us.append(Unit("generic-trajectory", trajectory, dict(groups=GROUPS[0], kind="tric", label=None, entry="generic", steps=2), "all positions in the cell"))
    us.append(Unit("trajectory-object", wrapped, dict(groups=GROUPS[0], steps=2), "two configurations strictly inside the cell, timestep in [0.1,5]"))
    for n in (3, 4):
        us.append(Unit(f"order-{n}", order, dict(n=n, what="structure"), f"every sequence of {n} atoms of three elements"))
    us.append(Unit("trajectory-order-4", order, dict(n=4, what="trajectory"), "every sequence of 4 atoms of three elements"))
    big = [("Ti", 12), ("O", 24), ("Sr", 1), ("H", 3), ("Zr", 2), ("Xe", 10), ("C", 1)]
    us.append(Unit("large-structure", large, dict(groups=big, steps=0), "53 atoms of seven elements, three free coordinates", budget=100))
    us.append(Unit("large-hundred", large, dict(groups=[("O", 104), ("Ti", 7)], steps=0), "111 atoms, three free coordinates", budget=100))
    us.append(Unit("large-trajectory", large, dict(groups=big[:3], steps=12 if tier == "quick" else 60), "twelve (thorough sixty) configurations of 37 atoms", budget=100))
    us.append(Unit("large-long", large, dict(groups=[("O", 2)], steps=130 if tier == "quick" else 1020), "130 (thorough 1020) configurations of two atoms", budget=100))
    return us + layouts(us, "structure-0", "trajectory-3", "reader-reference", "large-trajectory")
