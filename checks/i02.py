"""I02: existing files are never overwritten or damaged unless asked."""
import os

from checks.common import *
from checks.files import *

OLD = [b"old content\nwithout newline at the end", b"", b"x" * 5000 + b"\r\n\x00"]
NUMS = [22, 8, 8]


def writers(env):
    pc, xd, gen = (env.imp("ramannoodle.io." + m) for m in ("vasp.poscar", "vasp.xdatcar", "generic"))
    return {
        "poscar": lambda l, n, p, f, **k: pc.write_structure(l, n, p, f, **k),
        "xdatcar": lambda l, n, p, f, **k: xd.write_trajectory(l, n, stack(env, p), f, **k),
        "generic": lambda l, n, p, f, **k: gen.write_structure(l, n, p, f, "poscar", **k),
        "generic-x": lambda l, n, p, f, **k: gen.write_structure(l, n, p, f, "xdatcar", **k),
        "generic-t": lambda l, n, p, f, **k: gen.write_trajectory(l, n, stack(env, p), f, "xdatcar", **k),
    }


def stack(env, p):
    try:
        return p.reshape((1,) + tuple(p.shape))
    except AttributeError:
        return [p]


def target(env, kind):
    """A path, and the bytes of the file that is there (None: nothing)."""
    d = env.tmp()
    path = d / "F"
    if kind == "absent":
        return d, path, None
    old = OLD[env.choice("old", len(OLD))]
    if kind == "file":
        path.write_bytes(old)
    else:  # a link to a file
        (d / "G").write_bytes(old)
        path.symlink_to(d / "G")
    return d, path, old


def listing(d):
    return sorted(os.listdir(d))


def existing(env, writer, kind):
    """Valid input: all combinations of target, permission and way of giving the path."""
    w = writers(env)[writer]
    lat = lattice_of(env, "tric")
    pos = env.arr("p", (3, 3), 0, 1)
    d, path, old = target(env, kind)
    before = listing(d)
    over = env.pick("permission", [None, False, True])
    arg = env.pick("path", [str(path), path])
    kw = {} if over is None else {"overwrite": over}
    r, e = env.try_(w, lat, list(NUMS), pos, arg, **kw)
    if kind == "absent" or over:
        env.true("written", e is None, detail=repr(e))
        text = path.read_bytes().decode()
        clean = env.tmp() / "F"
        w(lat, list(NUMS), pos, clean)
        env.eq("contains exactly the new content", text, clean.read_bytes().decode())
        env.eq("nothing else appears", listing(d), before if old is not None else ["F"])
    else:
        env.true("refused", isinstance(e, FileExistsError), detail=repr(e))
        env.true("unchanged", path.read_bytes() == old)
        env.eq("nothing else appears", listing(d), before)


def twice(env, first, second):
    """A second, shorter structure replaces the first only with permission."""
    a, b = writers(env)[first], writers(env)[second]
    lat = lattice_of(env, "tric")
    pos = env.arr("p", (3, 3), 0, 1)
    path = env.tmp() / "F"
    a(lat, list(NUMS), pos, path)
    one = path.read_bytes()
    over = env.flag("permission")
    r, e = env.try_(b, lattice_of(env, "ortho"), [8], pos[2:], path, overwrite=over)
    if over:
        pc = env.imp("ramannoodle.io.vasp.poscar")
        l, n, p = pc.read_structure(path)
        env.close("lattice", l, LATTICES["ortho"])
        env.eq("numbers", list(n), [8])
        env.close("positions", p, pos[2:], 1e-9)
        env.eq("only the new content", len(path.read_text().splitlines()), 9 if second in ("poscar", "generic", "generic-x") else 9)
    else:
        env.true("refused", isinstance(e, FileExistsError), detail=repr(e))
        env.true("unchanged", path.read_bytes() == one)


def outside(env, writer, kind):
    """One coordinate anywhere: refused before the file is touched unless inside the cell."""
    w = writers(env)[writer]
    lat = lattice_of(env, "tric")
    pos = env.array(POS[:3])
    i, j = env.choice("atom", 3), env.choice("component", 3)
    x = env.real("x", -1.5, 2.5)
    pos[i, j] = x
    d, path, old = target(env, kind)
    before = listing(d)
    r, e = env.try_(w, lat, list(NUMS), pos, path, overwrite=True)
    if e is None:
        env.true("accepted inside the cell only", (x >= 0) & (x <= 1))
        env.true("written", path.exists())
    else:
        env.true("refused as invalid", isinstance(e, ValueError), detail=repr(e))
        env.true("refused outside the cell only", (x < 0) | (x > 1))
        if old is not None:
            env.true("unchanged", path.read_bytes() == old)
        env.eq("nothing else appears", listing(d), before)


def late(env, steps, spots=None):
    """Invalid coordinates in any configuration of a trajectory are found before the file is opened."""
    w = env.imp("ramannoodle.io.vasp.xdatcar").write_trajectory
    pos = env.array([POS[:3]] * steps)
    s, i, j = env.pick("step", spots or list(range(steps))), env.choice("atom", 3), env.choice("component", 3)
    x = env.real("x", -1.5, 2.5)
    pos[s, i, j] = x
    d, path, old = target(env, "file")
    before = listing(d)
    over = env.flag("permission")
    r, e = env.try_(w, lattice_of(env, "tric"), list(NUMS), pos, path, overwrite=over)
    if e is None:
        env.true("permission needed", over)
        env.true("accepted inside the cell only", (x >= 0) & (x <= 1))
    else:
        env.true("unchanged", path.read_bytes() == old)
        if over:
            env.true("refused outside the cell only", (x < 0) | (x > 1))
        env.eq("nothing else appears", listing(d), before)


def large(env, writer, n):
    """Many atoms: one coordinate of any of several atoms outside the cell."""
    w = writers(env)[writer]
    nums = [22] * (n // 3) + [8] * (n - n // 3)
    pos = filled(env, (n, 3), 0, 1)
    i, j = env.pick("atom", [0, 9, 10, 64, n - 1] if n > 64 else [0, 9, n - 1]), env.choice("component", 3)
    x = env.real("x", -1.5, 2.5)
    pos[i, j] = x
    d, path, old = target(env, "file")
    before = listing(d)
    over = env.flag("permission")
    r, e = env.try_(w, lattice_of(env, "tric"), nums, pos, path, overwrite=over)
    env.eq("nothing else appears", listing(d), before)
    if e is None:
        env.true("permission needed", over)
        env.true("accepted inside the cell only", (x >= 0) & (x <= 1))
        env.true("written", path.read_bytes() != old)
    else:
        env.true("unchanged", path.read_bytes() == old)
        if over:
            env.true("refused outside the cell only", (x < 0) | (x > 1))


def bad(env, writer, kind):
    """Wrong shapes, unknown and ungrouped elements, wrong types."""
    np = env.np
    w = writers(env)[writer]
    lat = lattice_of(env, "tric")
    pos = env.arr("p", (3, 3), 0, 1)
    nums = list(NUMS)
    cases = {
        "ungrouped": (lat, [8, 22, 8], pos),
        "ungrouped end": (lat, [8, 22, 8, 22], np.concatenate([pos, pos[:1]])),
        "unknown": (lat, [22, 8, 200], pos),
        "zero": (lat, [0, 8, 8], pos),
        "negative": (lat, [22, -8, -8], pos),
        "too few atoms": (lat, nums, pos[:2]),
        "too many atoms": (lat, [22, 8], pos),
        "two components": (lat, nums, pos[:, :2]),
        "flat": (lat, nums, pos.reshape(9)),
        "lattice 2x3": (lat[:2], nums, pos),
        "lattice 3x2": (lat[:, :2], nums, pos),
        "lattice flat": (lat.reshape(9), nums, pos),
        "numbers tuple": (lat, tuple(nums), pos),
        "numbers array": (lat, np.array(nums), pos),
        "symbols": (lat, ["Ti", "O", "O"], pos),
        "lattice list": ([[4, 0, 0], [0, 4, 0], [0, 0, 4]], nums, pos),
        "positions list": (lat, nums, POS[:3]),
        "none": (None, nums, pos),
    }
    name = env.pick("case", list(cases))
    d, path, old = target(env, kind)
    before = listing(d)
    over = env.flag("permission")
    r, e = env.try_(w, *cases[name], path, overwrite=over)
    env.true(f"{name} refused", isinstance(e, (ValueError, TypeError)), detail=repr(e))
    if old is not None:
        env.true("unchanged", path.read_bytes() == old)
    env.eq("nothing appears", listing(d), before)


def series(env, ast, mode):
    """Helpers that write series of displaced structures."""
    rs = env.imp("ramannoodle.structure._reference")
    ds = env.imp("ramannoodle.structure._displace")
    nums = [22, 8, 22] if mode == "ungrouped" else [22, 22, 8]
    pos = env.array(POS[:3])
    ref = rs.ReferenceStructure(nums, lattice_of(env, "tric"), pos)
    amps = env.array([env.real("a0", -0.2, -0.1), env.real("a1", 0.1, 0.2), env.real("a2", 0.25, 0.3)])
    d = env.tmp()
    paths = [d / f"F{i}" for i in range(3)]
    olds = {}
    for i, p in enumerate(paths):
        if env.flag(f"exists{i}"):
            p.write_bytes(b"old %d" % i)
            olds[i] = b"old %d" % i
    over = env.pick("permission", [None, False, True])
    kw = {} if over is None else {"overwrite": over}
    v = env.array([1, 2, -2] if ast else [DIRS[1], DIRS[2], DIRS[3]])
    fmt, files = "poscar", list(paths)
    if mode == "format":
        fmt = "outcar"
    elif mode == "count":
        files = env.pick("count", [files[:2], files + [d / "F3"]])
    elif mode == "shape":
        v = env.array([1, 2] if ast else [DIRS[1], DIRS[2]])
    if ast:
        r, e = env.try_(ds.write_ast_displaced_structures, ref, 1, v, amps, files, fmt, **kw)
    else:
        r, e = env.try_(ds.write_displaced_structures, ref, v, amps, files, fmt, **kw)
    if mode != "valid":
        env.true("refused", isinstance(e, (ValueError, TypeError)), detail=repr(e))
        for i, p in enumerate(paths):
            env.true("nothing created or changed", p.read_bytes() == olds[i] if i in olds else not p.exists())
        env.true("nothing else created", len(listing(d)) == len(olds))
        return
    if over or not olds:
        env.true("written", e is None, detail=repr(e))
        want = ds.get_ast_displaced_positions(ref, 1, v, amps) if ast else ds.get_displaced_positions(ref, v, amps)
        pc = env.imp("ramannoodle.io.vasp.poscar")
        for p, w in zip(paths, want):
            l, n, q = pc.read_structure(p)
            env.close("lattice", l, LATTICES["tric"], 1e-9)
            env.eq("numbers", list(n), nums)
            env.close("positions", q, w, 1e-9)
    else:
        env.true("refused", isinstance(e, FileExistsError), detail=repr(e))
        for i, p in enumerate(paths):
            if i in olds:
                env.true("unchanged", p.read_bytes() == olds[i])
    env.true("nothing else created", set(listing(d)) <= {"F0", "F1", "F2"})


def units(tier):
    us = []
    for w in ("poscar", "xdatcar", "generic", "generic-x", "generic-t"):
        for k in ("absent", "file", "link"):
            us.append(Unit(f"existing-{w}-{k}", existing, dict(writer=w, kind=k), "all positions in the cell, three old contents, every permission"))
        us.append(Unit(f"outside-{w}", outside, dict(writer=w, kind="file"), "any coordinate of any atom in [-1.5,2.5]"))
        us.append(Unit(f"outside-{w}-absent", outside, dict(writer=w, kind="absent"), "any coordinate of any atom in [-1.5,2.5]"))
        us.append(Unit(f"bad-{w}", bad, dict(writer=w, kind="file"), "18 kinds of invalid input, all positions in the cell"))
        us.append(Unit(f"bad-{w}-absent", bad, dict(writer=w, kind="absent"), "18 kinds of invalid input, all positions in the cell"))
    for a, b in (("poscar", "poscar"), ("xdatcar", "poscar"), ("poscar", "xdatcar"), ("generic-t", "generic")):
        us.append(Unit(f"twice-{a}-{b}", twice, dict(first=a, second=b), "all positions in the cell"))
    us.append(Unit("late-3", late, dict(steps=3), "any coordinate of any of three configurations in [-1.5,2.5]", max_paths=900))
    us.append(Unit("large-late-120", late, dict(steps=120, spots=[0, 9, 10, 99, 119]), "any coordinate of five of 120 configurations in [-1.5,2.5]", max_paths=900, budget=120))
    for w in ("poscar", "xdatcar"):
        us.append(Unit(f"large-{w}-70", large, dict(writer=w, n=70), "70 atoms, any coordinate of five of them in [-1.5,2.5]", budget=120))
    for ast in (True, False):
        for m in ("valid", "format", "count", "shape", "ungrouped"):
            us.append(Unit(f"series-{'ast' if ast else 'all'}-{m}", series, dict(ast=ast, mode=m), "three amplitudes, every combination of existing files", stub_symmetry=True))
    return us
