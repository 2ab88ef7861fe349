"""I04: OUTCAR readers put every number in its place with the right unit."""
from checks.common import *
from checks.files import *
from checks.masses import MASSES

TP = 1e-5
GROUPS = [
    [("Ti", 1), ("O", 2)],
    [("Sr", 1), ("Ti", 1), ("O", 1)],
    [("H", 2)],
    [("O", 1), ("Zr", 1), ("O", 1)],
]
STYLES = ["vrhfin", "list", "plain", "gap"]


def latt(env, kind):
    if kind == "all":
        return env.array([[env.real(f"l{i}{j}", 2, 9) for j in range(3)] for i in range(3)])
    if kind == "tri":
        a, b, c = env.real("la", 3, 9), env.real("lb", 3, 9), env.real("lc", -9, -3)
        return env.array([[a, 0, 0], [1, b, 0], [-1, env.c(1, 2), c]])
    return lattice_of(env, kind)


def mods(env):
    return env.imp("ramannoodle.io.vasp.outcar"), env.imp("ramannoodle.io.generic")


def static(env, groups, lattice, style, suffix, reader, more=True):
    oc, gen = mods(env)
    nums = numbers_of(groups)
    lat = latt(env, lattice)
    pos = env.arr("p", (len(nums), 3), -1, 2)
    pol = env.arr("e", (3, 3), -20, 90)
    path = write(env.tmp() / "OUTCAR", outcar(env, groups, lat, pos, polarizability=pol, style=style, suffix=suffix, pdec=12, more=more))
    if reader == "structure":
        for f in (lambda: oc.read_structure_and_polarizability(path), lambda: gen.read_structure_and_polarizability(str(path), "outcar")):
            l, n, p, e = f()
            env.close("lattice", l, lat, TP)
            env.eq("numbers", list(n), nums)
            env.close("positions", p, pos, TP)
            env.close("polarizability", e, pol, TP)
    else:
        env.close("positions", oc.read_positions(str(path)), pos, TP)
        env.close("positions by format", gen.read_positions(path, "outcar"), pos, TP)
        for p, e in (oc.read_positions_and_polarizability(path), gen.read_positions_and_polarizability(path, "outcar")):
            env.close("positions", p, pos, TP)
            env.close("polarizability", e, pol, TP)


def reference(env, groups, lattice):
    oc, gen = mods(env)
    nums = numbers_of(groups)
    lat = latt(env, lattice)
    pos = env.array(POS[: len(nums)])
    pos[1] = env.arr("p", (3,), 0.01, 0.99)
    path = write(env.tmp() / "OUTCAR", outcar(env, groups, lat, pos, pdec=12, style=env.pick("style", STYLES)))
    for r in (oc.read_ref_structure(path), gen.read_ref_structure(str(path), "outcar")):
        env.close("lattice", r.lattice, lat, TP)
        env.eq("numbers", list(r.atomic_numbers), nums)
        env.close("positions", r.positions, pos, TP)


def phonons(env, groups, lattice, imag, entry, extra=None):
    np = env.np
    oc, gen = mods(env)
    weights = env.get("ramannoodle.constants.ATOMIC_WEIGHTS")
    syms = expand(groups)
    n = len(syms)
    lat = latt(env, lattice)
    pos = env.arr("p", (n, 3), -1, 2)
    w = [env.real(f"w{i}", 0, 2000) for i in range(3 * n)]
    flags = imag if imag is not None else [env.flag(f"imag{i}") if i in (0, 3 * n - 1) else bool(i % 2) for i in range(3 * n)]
    vec = env.arr("v", (3 * n, n, 3), -1, 1)
    path = write(env.tmp() / "OUTCAR", outcar(env, groups, lat, pos, phonons=[(w[i], flags[i], vec[i]) for i in range(3 * n)], polarizability=extra, pdec=12))
    ph = gen.read_phonons(str(path), "outcar") if entry == "generic" else oc.read_phonons(path)
    env.close("wavenumbers", ph.wavenumbers, [-w[i] if flags[i] else w[i] for i in range(3 * n)], TP)
    env.close("reference positions", ph.ref_positions, pos, TP)
    inv = inv3(env, lat)
    want = env.array([(vec[i] @ inv) / env.array([[env.sqrt(env.c(weights[s]))] for s in syms]) for i in range(3 * n)])
    env.close("displacements", ph.displacements, want, TP)


def masses(env):
    """Atomic masses and numbers are those of the periodic table."""
    c = env.imp("ramannoodle.constants")
    for s, (z, m) in MASSES.items():
        if s in c.ATOMIC_NUMBERS:
            env.eq("atomic number", c.ATOMIC_NUMBERS[s], z)
            env.eq("symbol", c.ATOM_SYMBOLS[z], s)
        if s in c.ATOMIC_WEIGHTS:
            env.true("mass", abs(c.ATOMIC_WEIGHTS[s] / m - 1) < (0.002 if z < 84 else 0.06), detail=f"{s}: {c.ATOMIC_WEIGHTS[s]} instead of {m}")
    env.true("elements known", all(s in c.ATOMIC_NUMBERS and s in c.ATOMIC_WEIGHTS for s, (z, _) in MASSES.items() if z <= 94))


def one_element(env, names):
    """Numbers and displacements for every element."""
    oc, gen = mods(env)
    s, (z, m) = env.pick("element", names)
    lat = lattice_of(env, "tric")
    suffix = env.pick("suffix", ["", "_sv", "_pv_GW"])
    vec = env.arr("v", (3, 1, 3), -1, 1)
    w = [env.real(f"w{i}", 0, 2000) for i in range(3)]
    pos = env.arr("p", (1, 3), 0, 1)
    pol = env.arr("e", (3, 3), -9, 9)
    path = write(env.tmp() / "OUTCAR", outcar(env, [(s, 1)], lat, pos, phonons=[(w[i], i == 1, vec[i]) for i in range(3)], polarizability=pol, suffix=suffix, pdec=12))
    l, n, p, e = oc.read_structure_and_polarizability(path)
    env.eq("numbers", list(n), [z])
    ph = oc.read_phonons(path)
    env.close("displacements", ph.displacements * env.sqrt(env.c(env.get("ramannoodle.constants.ATOMIC_WEIGHTS")[s])), vec @ inv3(env, lat), TP)


def md(env, groups, lattice, steps, entry, kinds=None, decoys=True):
    """Order of the file, without ab-initio duplicates of machine-learned steps, any mixture of steps."""
    np = env.np
    oc, gen = mods(env)
    nums = numbers_of(groups)
    n = len(nums)
    lat = lattice_of(env, lattice)
    ks = kinds or [env.pick(f"kind{i}", ["ml", "ai"]) for i in range(steps)]
    # one symbolic coordinate per step (fractional), the rest of the step fixed
    frac = env.array([[[env.c(1 + 2 * a + i, 64) if env.symbolic else (1 + 2 * a + i) / 64 for i in range(3)] for a in range(n)] for _ in range(steps)])
    for i in range(steps):
        frac[i, i % n, i % 3] = env.real(f"x{i}", 0.05, 0.95)
    dt = env.real("dt", 0.1, 20)
    cart = frac @ lat
    path = write(env.tmp() / "OUTCAR", outcar(env, groups, lat, env.array(POS[:n]), timestep=dt, steps=[(ks[i], cart[i]) for i in range(steps)], style=STYLES[steps % 4], decoys=decoys))
    want = [i for i in range(steps) if not (ks[i] == "ai" and i > 0 and ks[i - 1] == "ml")]
    t = gen.read_trajectory(str(path), "outcar") if entry == "generic" else oc.read_trajectory(path)
    env.eq("length", len(t), len(want))
    env.close("timestep", t.timestep, dt, TP)
    env.close("configurations", t.positions_ts, env.array([frac[i] for i in want]), TP)


def wrapped(env, lattice):
    """Coordinates outside the cell are wrapped, in any cell."""
    np = env.np
    oc, gen = mods(env)
    lat = lattice_of(env, lattice)
    j, k = env.choice("atom", 2), env.choice("comp", 3)
    frac = env.array([[0.25, 0.5, 0.125], [0.375, 0.75, 0.25]])
    frac[j, k] = env.real("x", -1.9, 2.9)
    path = write(env.tmp() / "OUTCAR", outcar(env, [("H", 2)], lat, env.array(POS[:2]), timestep=env.c(1), steps=[("ai", frac @ lat)]))
    p = oc.read_trajectory(path).positions_ts
    env.true("inside the cell", (p >= 0) & (p <= 1))
    d = p[0] - frac
    env.close("whole cells apart", d - np.rint(d), env.zero(d), TP)


def magnitude(env, lattice, imag):
    """Very small and very large numbers side by side."""
    oc, gen = mods(env)
    weights = env.get("ramannoodle.constants.ATOMIC_WEIGHTS")
    lat = lattice_of(env, lattice)
    pos = env.array(POS[:2])
    pol = env.array([[2, 0, 0], [0, 3, 0], [0, 0, 5]])
    vec = env.array([[[env.c((5 * m + 3 * a + 7 * k) % 9 - 4, 10) for k in range(3)] for a in range(2)] for m in range(6)])
    big = env.real("big", 100, 5000) * (1 if env.flag("positive") else -1)
    small = env.real("small", 0.0001, 0.01) * (1 if env.flag("small positive") else -1)
    tiny = env.real("tiny", 0.0001, 0.01)
    k = env.choice("place", 3)
    pol[k, k], pol[k, (k + 1) % 3], pol[(k + 2) % 3, k] = big, small, -small
    m = env.pick("mode", [0, 3, 5])
    vec[m, k % 2, k] = tiny
    vec[m, 1 - k % 2] = env.array([0, 0, 0]) + tiny
    d = env.tmp()
    inv = inv3(env, lat)
    want = env.array([(vec[i] @ inv) / env.array([[env.sqrt(env.c(weights["H"]))]] * 2) for i in range(6)])
    low, high = env.real("low", 0.001, 0.5), env.real("high", 2000, 9000)
    w = [env.c(300 + 7 * i) for i in range(6)]
    w[m], w[(m + 1) % 6] = low, high
    path = write(d / "OUTCAR", outcar(env, [("H", 2)], lat, pos, phonons=[(w[i], imag, vec[i]) for i in range(6)], polarizability=pol, pdec=12))
    e = oc.read_structure_and_polarizability(path)[3]
    ph = oc.read_phonons(path)
    sign = -1 if imag else 1
    for i in range(6):
        env.close("wavenumber", ph.wavenumbers[i] / w[i], env.c(sign), TP)
    check_magnitude(env, e, pol, ph, want, k, m, inv)


def check_magnitude(env, e, pol, ph, want, k, m, inv):
    for i in range(3):
        for j in range(3):
            env.close("polarizability", (e[i, j] - pol[i, j]) * 1000, env.c(0), TP * 10 if (i, j) != (k, k) else TP * 100)
    size = 1000 / abs(inv[0, 0])
    for i in range(6):
        env.close("displacements", (ph.displacements[i] - want[i]) * (size if i == m else 1 / abs(inv[0, 0])), env.zero(want[i]), TP * 10)


def units(tier):
    us = []
    A = "positions in [-1,2], dielectric tensor in [-20,90]"
    for i, g in enumerate(GROUPS):
        for st in STYLES:
            for r in ("structure", "positions"):
                us.append(Unit(f"static-{i}-{st}-{r}", static, dict(groups=g, lattice="tric", style=st, suffix=["_sv", "", "_pv", "_h_GW"][i], reader=r, more=bool(i % 2)), A))
    us.append(Unit("static-lattice", static, dict(groups=GROUPS[0], lattice="all", style="vrhfin", suffix="_sv", reader="structure"), A + ", lattice components in [2,9]"))
    us.append(Unit("static-large", static, dict(groups=[("Li", 7), ("Zr", 4), ("O", 9)], lattice="tric", style="vrhfin", suffix="_sv", reader="structure"), "20 atoms, " + A))
    for lat in ("tric", "left"):
        us.append(Unit(f"reference-{lat}", reference, dict(groups=GROUPS[1], lattice=lat), "one atom anywhere in the cell", stub_symmetry=True))
    B = "wavenumbers in [0,2000], eigenvector components in [-1,1], every choice of imaginary modes at both ends"
    for i, (g, lat) in enumerate([(2, "tri"), (0, "tric"), (1, "left"), (3, "ortho")]):
        us.append(Unit(f"phonons-{i}", phonons, dict(groups=GROUPS[g], lattice=lat, imag=None, entry="outcar" if i % 2 else "generic", extra=[[7.0, 1, 2], [1, 8, 3], [2, 3, 9]] if i == 1 else None), B))
    us.append(Unit("phonons-real", phonons, dict(groups=GROUPS[2], lattice="tric", imag=[False] * 6, entry="outcar"), B))
    us.append(Unit("phonons-imaginary", phonons, dict(groups=GROUPS[2], lattice="tric", imag=[True] * 6, entry="outcar"), B))
    us.append(Unit("phonons-11-modes", phonons, dict(groups=[("H", 4)], lattice="ortho", imag=[False] * 9 + [True] * 3, entry="outcar"), "12 modes"))
    us.append(Unit("constants", masses, {}, "all elements"))
    us.append(Unit("elements", one_element, dict(names=[(s, v) for s, v in MASSES.items() if v[0] <= 94]), "all elements up to plutonium, three potential suffixes", max_paths=400))
    n = 5 if tier == "quick" else 7
    for k in range(1, n + 1):
        us.append(Unit(f"md-{k}", md, dict(groups=GROUPS[k % 4], lattice=["tric", "left"][k % 2], steps=k, entry="outcar" if k % 2 else "generic", decoys=k != 2), f"every sequence of {k} ab-initio or machine-learned steps, one coordinate of each step anywhere in the cell", max_paths=200))
    us.append(Unit("md-14-ai", md, dict(groups=GROUPS[0], lattice="tric", steps=14, entry="outcar", kinds=["ai"] * 14), "14 ab-initio steps"))
    us.append(Unit("md-14-mixed", md, dict(groups=GROUPS[0], lattice="tric", steps=14, entry="outcar", kinds=["ml", "ai"] * 4 + ["ml", "ml", "ai", "ai", "ai", "ml"]), "14 steps"))
    for lat, imag in (("tric", False), ("left", True), ("big", False), ("ortho", False)):
        us.append(Unit(f"magnitude-{lat}", magnitude, dict(lattice=lat, imag=imag), "dielectric components from 0.0001 to 5000, wavenumbers from 0.001 to 9000, eigenvector components from 0.0001", budget=60))
    for lat in ("tric", "left"):
        us.append(Unit(f"wrapped-{lat}", wrapped, dict(lattice=lat), "one coordinate in [-1.9,2.9]"))
    return us
