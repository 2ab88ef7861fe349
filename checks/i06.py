"""I06: truncated or malformed files are rejected, never silently misread."""
import re

from checks.common import *
from checks.files import *

TP = 1e-5
DATA = re.compile(r"^\s*-?[\d.]+(\s+-?[\d.]+)*\s*$")
NUMBER = re.compile(r"(?<![\w.+-])-?\d+(?:\.\d+)?(?![\w.])")


def reading(env, fmt):
    m = {"outcar": "vasp.outcar", "vasprun.xml": "vasp.vasprun", "poscar": "vasp.poscar", "xdatcar": "vasp.xdatcar"}[fmt]
    return env.imp("ramannoodle.io." + m), env.imp("ramannoodle.io.generic")


def prefix(env, label, got, want, bounds):
    """A series cut between configurations is a shorter series."""
    n = len(got)
    env.true(f"{label} length", n in bounds, detail=f"{n} configurations")
    env.close(label, got, want[:n], TP)


def outcome(env, label, fn, compare):
    """Rejected as an invalid file, or read correctly."""
    bad = env.get("ramannoodle.exceptions.InvalidFileException")
    r, e = env.try_(fn)
    if e is not None:
        env.true(f"{label}: rejected as invalid", isinstance(e, bad), detail=f"{type(e).__name__}: {e}"[:200])
        return False
    compare(r)
    return True


def mutate(env, text, kind, lines_ok=None):
    """All ways to damage a text once. Returns (text, index of the first damaged line)."""
    lines = text.split("\n")[:-1]
    if kind == "cut":  # after any line
        k = env.choice("line", len(lines))
        return "\n".join(lines[:k]) + ("\n" if k and env.flag("newline") else ""), k
    if kind == "cut-entry":  # inside a line, between two entries
        spots = [(i, m.start()) for i, l in enumerate(lines) for m in re.finditer(r"\S+", l)]
        i, c = spots[env.choice("spot", len(spots))]
        return "\n".join(lines[:i] + [lines[i][:c]]), i
    if kind in ("short", "corrupt", "stars", "joined"):
        spots = [(i, m.start(), m.end()) for i, l in enumerate(lines) for m in NUMBER.finditer(l) if lines_ok is None or lines_ok(l)]
        i, a, b = spots[env.choice("spot", len(spots))]
        if kind == "short":
            lines[i] = lines[i][:a]
        else:
            lines[i] = lines[i][:a] + {"corrupt": "xx", "stars": "************", "joined": lines[i][a:b] + ".5.5"}[kind] + lines[i][b:]
        return "\n".join(lines) + "\n", i
    rows = [i for i, l in enumerate(lines) if (lines_ok or DATA.match)(l)]
    i = rows[env.choice("row", len(rows))]
    if kind == "lost":
        del lines[i]
    elif kind == "blank":
        lines[i] = ""
    return "\n".join(lines) + "\n", i


def fixture(env, groups, lattice="tric", simple=False):
    nums = numbers_of(groups)
    n = len(nums)
    lat = lattice_of(env, lattice)
    if simple:  # one coordinate of any value
        pos = env.array(POS[:n])
        pos[n - 1, 1] = env.real("p", 0.55, 0.95)
        return nums, n, lat, pos
    return nums, n, lat, env.arr("p", (n, 3), 0, 1)


def poscar_like(env, groups, mode, selective, kind, reader):
    pc, gen = reading(env, "poscar")
    nums, n, lat, pos = fixture(env, groups, simple=reader == "reference")
    x = pos @ lat if mode[0] in "cC" else pos
    t, at = mutate(env, poscar(env, groups, lat, x, mode=mode, selective=selective, dec=12), kind, (lambda l: True) if kind in ("lost", "blank") else None)
    path = write(env.tmp() / "F", t)

    def full(r):
        l, z, p = r
        env.close("lattice", l, lat, TP)
        env.eq("numbers", list(z), nums)
        env.close("positions", p, pos, TP)

    if reader == "structure":
        outcome(env, "structure", lambda: pc.read_structure(path), full)
    elif reader == "positions":
        outcome(env, "positions", lambda: pc.read_positions(path), lambda p: env.close("positions", p, pos, TP))
        outcome(env, "positions by format", lambda: gen.read_positions(path, "poscar"), lambda p: env.close("positions", p, pos, TP))
    else:
        outcome(env, "reference", lambda: pc.read_ref_structure(path), lambda r: full((r.lattice, r.atomic_numbers, r.positions)))


def series(env, groups, steps, kind):
    xd, gen = reading(env, "xdatcar")
    nums, n, lat, _ = fixture(env, groups)
    x = env.arr("p", (steps, n, 3), 0, 1)
    head = 7
    full = xdatcar(env, groups, lat, x, dec=12)
    t, at = mutate(env, full, kind, (lambda l: True) if kind in ("lost", "blank") else None)
    path = write(env.tmp() / "F", t)
    # complete configurations before the damage
    done = max(0, (at - head) // (n + 1)) if at >= head else 0
    if kind.startswith("cut"):
        # cutting between configurations cannot be seen
        ok = [done] if done and (at - head) % (n + 1) == 0 else []
        if at == head + steps * (n + 1):
            ok = [steps]
    elif kind == "blank" and at == head + (steps - 1) * (n + 1) and False:
        ok = []
    else:
        ok = [steps]
    outcome(env, "series", lambda: xd.read_positions_ts(path), lambda r: prefix(env, "series", r, x, ok))


def outcar_static(env, groups, kind, reader, style="vrhfin"):
    oc, gen = reading(env, "outcar")
    nums, n, lat, pos = fixture(env, groups, simple=reader == "reference")
    pol = env.arr("e", (3, 3), 1, 9)
    ok = None
    if kind == "short":
        ok = lambda l: DATA.match(l) or "ions per type" in l
    t, at = mutate(env, outcar(env, groups, lat, pos, polarizability=pol, pdec=12, style=style), kind, ok)
    path = write(env.tmp() / "OUTCAR", t)
    P = lambda p: env.close("positions", p, pos, TP)

    def both(r):
        P(r[0])
        env.close("polarizability", r[1], pol, TP)

    def full(r):
        l, z, p, e = r
        env.close("lattice", l, lat, TP)
        env.eq("numbers", list(z), nums)
        both((p, e))

    if reader == "structure":
        outcome(env, "structure", lambda: oc.read_structure_and_polarizability(path), full)
    elif reader == "positions":
        outcome(env, "positions", lambda: oc.read_positions(path), P)
        outcome(env, "positions and polarizability", lambda: gen.read_positions_and_polarizability(path, "outcar"), both)
    else:
        outcome(env, "reference", lambda: oc.read_ref_structure(path), lambda r: full((r.lattice, r.atomic_numbers, r.positions, pol)))


def outcar_phonons(env, groups, kind):
    oc, gen = reading(env, "outcar")
    nums, n, lat, pos = fixture(env, groups)
    w = [env.real(f"w{i}", 1, 2000) for i in range(3 * n)]
    vec = env.arr("v", (3 * n, n, 3), -1, 1)
    imag = [i % 2 == 1 for i in range(3 * n)]
    d = env.tmp()
    clean = write(d / "C", outcar(env, groups, lat, pos, phonons=[(w[i], imag[i], vec[i]) for i in range(3 * n)], pdec=12, decoys=False))
    text = open(clean).read()
    start = text.index("ions per type")
    start = text.rindex("\n", 0, start) + 1
    skip = text[:start].count("\n")
    t, at = mutate(env, text[start:], kind, (lambda l: DATA.match(l) or "cm-1" in l or ("ions per type" in l and kind in ("short", "corrupt"))) if kind not in ("cut", "cut-entry") else None)
    path = write(d / "OUTCAR", text[:start] + t)
    want = oc.read_phonons(clean)

    def full(ph):
        env.close("wavenumbers", ph.wavenumbers, want.wavenumbers, TP)
        env.close("positions", ph.ref_positions, want.ref_positions, TP)
        env.close("displacements", ph.displacements, want.displacements, TP)

    outcome(env, "phonons", lambda: oc.read_phonons(path), full)


def outcar_md(env, groups, steps, kind):
    oc, gen = reading(env, "outcar")
    nums, n, lat, pos = fixture(env, groups, "ortho")
    frac = env.array([[[(1 + 2 * a + i) / 64 for i in range(3)] for a in range(n)] for _ in range(steps)])
    for i in range(steps):
        frac[i, i % n, i % 3] = env.real(f"x{i}", 0.05, 0.95)
    dt = env.real("dt", 0.1, 20)
    full = outcar(env, groups, lat, env.array(POS[:n]), timestep=dt, steps=[("ai", f @ lat) for f in frac], decoys=False, more=False)
    t, at = mutate(env, full, kind, (lambda l: DATA.match(l) or "time-step" in l or "ions per type" in l) if kind not in ("cut", "cut-entry") else None)
    path = write(env.tmp() / "OUTCAR", t)
    lines = full.split("\n")
    ends = [i + 1 + n for i, l in enumerate(lines) if "TOTAL-FORCE" in l]

    def compare(r):
        ok = [steps]
        if kind.startswith("cut"):
            ok = [k for k in range(1, steps + 1) if ends[k - 1] < at + (1 if kind == "cut-entry" else 0) and (k == steps or at <= ends[k] - n + 1)]
            if kind == "cut-entry" and any(at == e for e in ends):
                # the forces at the end of the last row are not needed
                ok = [1 + ends.index(at)]
        prefix(env, "series", r.positions_ts, frac, ok)
        env.close("timestep", r.timestep, dt, TP)

    outcome(env, "trajectory", lambda: oc.read_trajectory(path), compare)


def is_v(l):
    return "<v>" in l or "<rc>" in l or "<v name" in l or "<i name" in l


def vasprun_file(env, groups, kind, reader):
    vr, gen = reading(env, "vasprun.xml")
    nums, n, lat, pos = fixture(env, groups, simple=reader == "reference")
    kw = {}
    if reader == "phonons":
        ev = [env.c(-(i + 1)) for i in range(3 * n)]
        vec = env.arr("v", (3 * n, n, 3), -1, 1)
        kw["phonons"] = list(zip(ev, vec))
    elif reader == "trajectory":
        steps = env.array([[[(1 + 2 * a + i) / 64 for i in range(3)] for a in range(n)] for _ in range(2)])
        for i in range(2):
            steps[i, i % n, i % 3] = env.real(f"x{i}", 0.05, 0.95)
        kw["steps"] = [("step", s) for s in steps]
        kw["timestep"] = env.c(2)
    else:
        kw["polarizability"] = pol = env.arr("e", (3, 3), 1, 9)
    text = vasprun(env, groups, lat, pos, pdec=12, decoys=False, **kw)
    d = env.tmp()
    clean = write(d / "C", text)
    k = kind
    if kind == "empty":  # a row without text
        lines = text.split("\n")
        rows = [i for i, l in enumerate(lines) if "<v>" in l]
        i = rows[env.choice("row", len(rows))]
        lines[i] = re.sub(r"<v>.*</v>", "<v></v>", lines[i])
        t = "\n".join(lines)
    elif kind == "fewer":  # a row with fewer numbers
        lines = text.split("\n")
        rows = [i for i, l in enumerate(lines) if "<v" in l and "</v>" in l]
        i = rows[env.choice("row", len(rows))]
        head, body = re.match(r"(\s*<v[^>]*>)(.*)</v>", lines[i]).groups()
        items = body.split()
        keep = env.choice("keep", min(len(items), 4))
        lines[i] = head + " ".join(items[: len(items) - 1 - keep]) + "</v>"
        t = "\n".join(lines)
    elif kind == "symbol":  # an unknown element
        t = text.replace("<rc><c>" + f"{groups[0][0]:<2s}", "<rc><c>" + env.pick("symbol", ["Xx", "  ", "1 ", "r "]), 1)
    else:
        t, at = mutate(env, text, kind, is_v)
    path = write(d / "vasprun.xml", t)
    P = lambda p: env.close("positions", p, pos, TP)

    def both(r):
        P(r[0])
        env.close("polarizability", r[1], pol, TP)

    def full(r):
        l, z, p, e = r
        env.close("lattice", l, lat, TP)
        env.eq("numbers", list(z), nums)
        both((p, e))

    if reader == "structure":
        outcome(env, "structure", lambda: vr.read_structure_and_polarizability(path), full)
    elif reader == "positions":
        outcome(env, "positions", lambda: vr.read_positions(path), P)
        outcome(env, "positions and polarizability", lambda: gen.read_positions_and_polarizability(path, "vasprun.xml"), both)
    elif reader == "reference":
        outcome(env, "reference", lambda: vr.read_ref_structure(path), lambda r: full((r.lattice, r.atomic_numbers, r.positions, pol)))
    elif reader == "phonons":
        want = vr.read_phonons(clean)

        def same(ph):
            env.close("wavenumbers", ph.wavenumbers, want.wavenumbers, TP)
            env.close("positions", ph.ref_positions, want.ref_positions, TP)
            env.close("displacements", ph.displacements, want.displacements, TP)

        outcome(env, "phonons", lambda: vr.read_phonons(path), same)
    else:

        def traj(r):
            env.close("series", r.positions_ts, steps, TP)
            env.close("timestep", r.timestep, env.c(2), TP)

        outcome(env, "trajectory", lambda: vr.read_trajectory(path), traj)


def counts(env, fmt):
    """Any numbers of atoms, negative ones included."""
    g = [("Ti", env.choice("n0", 5) - 2), ("O", env.choice("n1", 5) - 2), ("H", 2)]
    lat = lattice_of(env, "tric")
    good = all(n >= 0 for _, n in g)
    pos = env.arr("p", (sum(max(n, 0) for _, n in g), 3), 0, 1)
    d = env.tmp()
    if fmt == "outcar":
        m, gen = reading(env, "outcar")
        path = write(d / "F", outcar(env, g, lat, pos, pdec=12, decoys=False))
        fn = lambda: m.read_positions(path)
    elif fmt == "poscar":
        m, gen = reading(env, "poscar")
        path = write(d / "F", poscar(env, g, lat, pos, dec=12))
        fn = lambda: m.read_positions(path)
    else:
        m, gen = reading(env, "xdatcar")
        path = write(d / "F", xdatcar(env, g, lat, [pos], dec=12))
        fn = lambda: m.read_positions_ts(path)[0]

    def compare(p):
        env.true("negative numbers refused", good, detail=str(g))
        env.close("positions", p, pos, TP)

    outcome(env, "counts", fn, compare)


G1 = [("Ti", 1), ("O", 2)]
G2 = [("H", 2)]


def units(tier):
    us = []
    A = "all positions in the cell, every place in the file"
    for kind in ("cut", "cut-entry", "short", "corrupt", "stars", "joined", "lost", "blank"):
        for i, (mode, sel) in enumerate([("Direct", None), ("Cartesian", None), ("Direct", "Selective dynamics")]):
            for r in ("structure", "positions") if i == 0 else ("structure",):
                us.append(Unit(f"poscar-{i}-{kind}-{r}", poscar_like, dict(groups=G1, mode=mode, selective=sel, kind=kind, reader=r), A))
        us.append(Unit(f"poscar-{kind}-reference", poscar_like, dict(groups=G1, mode="Direct", selective=None, kind=kind, reader="reference"), A, stub_symmetry=True))
        us.append(Unit(f"xdatcar-{kind}", series, dict(groups=G1, steps=3, kind=kind), A))
        for r in ("structure", "positions"):
            us.append(Unit(f"outcar-{kind}-{r}", outcar_static, dict(groups=G1, kind=kind, reader=r), A))
        us.append(Unit(f"outcar-{kind}-reference", outcar_static, dict(groups=G2, kind=kind, reader="reference"), A, stub_symmetry=True))
        us.append(Unit(f"outcar-{kind}-phonons", outcar_phonons, dict(groups=G2, kind=kind), A))
        us.append(Unit(f"outcar-{kind}-trajectory", outcar_md, dict(groups=G2, steps=2, kind=kind), A))
    for kind in ("cut", "cut-entry", "short", "corrupt", "stars", "joined", "lost", "empty", "fewer", "symbol"):
        for r in ("structure", "positions", "phonons", "trajectory", "reference"):
            us.append(Unit(f"vasprun-{kind}-{r}", vasprun_file, dict(groups=G1 if r not in ("phonons", "reference") else G2, kind=kind, reader=r), A, stub_symmetry=r == "reference"))
    for f in ("outcar", "poscar", "xdatcar"):
        us.append(Unit(f"counts-{f}", counts, dict(fmt=f), "all pairs of numbers of atoms from -2 to 2"))
    for u in us:
        u.max_paths = 1500
        u.budget = 100
    return us
