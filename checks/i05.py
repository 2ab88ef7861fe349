"""I05: vasprun.xml readers agree with the file and with the OUTCAR readers."""
from checks.common import *
from checks.files import *
from checks.i04 import check_magnitude
from checks.masses import MASSES

TP = 1e-5
THZ = (299792458, 10**10)  # inverse centimetres times this are THz
GROUPS = [
    [("Ti", 1), ("O", 2)],
    [("Sr", 1), ("Ti", 1), ("O", 1)],
    [("H", 2)],
    [("O", 1), ("Zr", 1), ("O", 1)],
]


def latt(env, kind):
    if kind == "all":
        return env.array([[env.real(f"l{i}{j}", 2, 9) for j in range(3)] for i in range(3)])
    if kind == "tri":
        a, b, c = env.real("la", 3, 9), env.real("lb", 3, 9), env.real("lc", -9, -3)
        return env.array([[a, 0, 0], [1, b, 0], [-1, env.c(1, 2), c]])
    return lattice_of(env, kind)


def mods(env):
    return env.imp("ramannoodle.io.vasp.vasprun"), env.imp("ramannoodle.io.generic"), env.imp("ramannoodle.io.vasp.outcar")


def static(env, groups, lattice, decoys=True):
    """Structure and polarizability through every entry point, and through the OUTCAR of the same calculation."""
    vr, gen, oc = mods(env)
    nums = numbers_of(groups)
    lat = latt(env, lattice)
    pos = env.arr("p", (len(nums), 3), -1, 2)
    pol = env.arr("e", (3, 3), -20, 90)
    d = env.tmp()
    path = write(d / "vasprun.xml", vasprun(env, groups, lat, pos, polarizability=pol, pdec=12, decoys=decoys))
    opath = write(d / "OUTCAR", outcar(env, groups, lat, pos, polarizability=pol, pdec=12))
    for f in (
        lambda: vr.read_structure_and_polarizability(path),
        lambda: gen.read_structure_and_polarizability(str(path), "vasprun.xml"),
        lambda: oc.read_structure_and_polarizability(opath),
        lambda: gen.read_structure_and_polarizability(opath, "outcar"),
    ):
        l, n, p, e = f()
        env.close("lattice", l, lat, TP)
        env.eq("numbers", list(n), nums)
        env.close("positions", p, pos, TP)
        env.close("polarizability", e, pol, TP)
    for p, e in (vr.read_positions_and_polarizability(str(path)), gen.read_positions_and_polarizability(path, "vasprun.xml"), oc.read_positions_and_polarizability(opath)):
        env.close("positions", p, pos, TP)
        env.close("polarizability", e, pol, TP)
    for p in (vr.read_positions(path), gen.read_positions(str(path), "vasprun.xml"), oc.read_positions(opath)):
        env.close("positions", p, pos, TP)


def reference(env, groups, lattice):
    vr, gen, oc = mods(env)
    nums = numbers_of(groups)
    lat = latt(env, lattice)
    pos = env.array(POS[: len(nums)])
    pos[1] = env.arr("p", (3,), 0.01, 0.99)
    path = write(env.tmp() / "vasprun.xml", vasprun(env, groups, lat, pos, pdec=12))
    for r in (vr.read_ref_structure(path), gen.read_ref_structure(str(path), "vasprun.xml")):
        env.close("lattice", r.lattice, lat, TP)
        env.eq("numbers", list(r.atomic_numbers), nums)
        env.close("positions", r.positions, pos, TP)


def phonons(env, groups, lattice, entry, kinds=None):
    """Wavenumbers, displacements and positions, equal to those of the OUTCAR."""
    vr, gen, oc = mods(env)
    weights = env.get("ramannoodle.constants.ATOMIC_WEIGHTS")
    syms = expand(groups)
    n = len(syms)
    lat = latt(env, lattice)
    pos = env.arr("p", (n, 3), -1, 2)
    f = [env.real(f"f{i}", 0.5, 60) for i in range(3 * n)]  # THz
    imag = kinds or [env.flag(f"imag{i}") if i in (0, 3 * n - 1) else bool(i % 2) for i in range(3 * n)]
    vec = env.arr("v", (3 * n, n, 3), -1, 1)
    d = env.tmp()
    path = write(d / "vasprun.xml", vasprun(env, groups, lat, pos, phonons=[(f[i] * f[i] if imag[i] else -f[i] * f[i], vec[i]) for i in range(3 * n)], pdec=12))
    ph = gen.read_phonons(str(path), "vasprun.xml") if entry == "generic" else vr.read_phonons(path)
    w = [f[i] * THZ[1] / THZ[0] for i in range(3 * n)]
    env.close("wavenumbers", ph.wavenumbers, [-w[i] if imag[i] else w[i] for i in range(3 * n)], 1e-4)
    env.close("reference positions", ph.ref_positions, pos, TP)
    inv = inv3(env, lat)
    want = env.array([(vec[i] @ inv) / env.array([[env.sqrt(env.c(weights[s]))] for s in syms]) for i in range(3 * n)])
    env.close("displacements", ph.displacements, want, TP)
    opath = write(d / "OUTCAR", outcar(env, groups, lat, pos, phonons=[(w[i], imag[i], vec[i]) for i in range(3 * n)], pdec=12))
    po = oc.read_phonons(opath)
    env.close("wavenumbers as in the OUTCAR", ph.wavenumbers, po.wavenumbers, 1e-4)
    env.close("displacements as in the OUTCAR", ph.displacements, po.displacements, TP)
    env.close("positions as in the OUTCAR", ph.ref_positions, po.ref_positions, TP)


def any_sign(env):
    """One eigenvalue of any sign and size."""
    vr, gen, oc = mods(env)
    lat = lattice_of(env, "tric")
    e = env.real("e", -9, 9)
    env.assume((e < -1e-3) | (e > 1e-3))
    k = env.choice("mode", 3)
    ev = [env.c(-4), env.c(-9), env.c(1)]
    ev[k] = e
    path = write(env.tmp() / "vasprun.xml", vasprun(env, [("H", 1)], lat, env.array(POS[:1]), phonons=[(x, env.array([[1, 2, 3]])) for x in ev]))
    w = vr.read_phonons(path).wavenumbers
    t = w[k] * THZ[0] / THZ[1]
    env.true("sign", (t < 0) == (e > 0) if not env.symbolic else ((t < 0) & (e > 0)) | ((t > 0) & (e < 0)))
    env.close("square", t * t, abs(e), 1e-4)
    base = [env.c(2), env.c(3), env.c(-1)]
    for i in range(3):
        if i != k:
            env.close("other modes", w[i] * THZ[0] / THZ[1], base[i], TP)


def md(env, groups, lattice, steps, entry):
    """Configurations in the order of the file."""
    vr, gen, oc = mods(env)
    n = len(numbers_of(groups))
    frac = env.array([[[env.c(1 + 2 * a + i, 64) if env.symbolic else (1 + 2 * a + i) / 64 for i in range(3)] for a in range(n)] for _ in range(steps)])
    for i in range(steps):
        frac[i, i % n, i % 3] = env.real(f"x{i}", 0.05, 0.95)
    dt = env.real("dt", 0.1, 20)
    lat = lattice_of(env, lattice)
    d = env.tmp()
    path = write(d / "vasprun.xml", vasprun(env, groups, lat, env.array(POS[:n]), timestep=dt, steps=[("step", f) for f in frac], pdec=12))
    t = gen.read_trajectory(str(path), "vasprun.xml") if entry == "generic" else vr.read_trajectory(path)
    env.eq("length", len(t), steps)
    env.close("timestep", t.timestep, dt, TP)
    env.close("configurations", t.positions_ts, frac, TP)
    cart = frac @ lat
    o = oc.read_trajectory(write(d / "OUTCAR", outcar(env, groups, lat, env.array(POS[:n]), timestep=dt, steps=[("ai", c) for c in cart])))
    env.eq("length as in the OUTCAR", len(o), steps)
    env.close("timestep as in the OUTCAR", o.timestep, t.timestep, TP)
    env.close("configurations as in the OUTCAR", o.positions_ts, t.positions_ts, TP)


def wrapped(env):
    np = env.np
    vr, gen, oc = mods(env)
    j, k = env.choice("atom", 2), env.choice("comp", 3)
    frac = env.array([[0.25, 0.5, 0.125], [0.375, 0.75, 0.25]])
    frac[j, k] = env.real("x", -1.9, 2.9)
    path = write(env.tmp() / "vasprun.xml", vasprun(env, [("H", 2)], lattice_of(env, "tric"), env.array(POS[:2]), steps=[("step", frac)], pdec=12))
    p = vr.read_trajectory(path).positions_ts
    env.true("inside the cell", (p >= 0) & (p <= 1))
    d = p[0] - frac
    env.close("whole cells apart", d - np.rint(d), env.zero(d), TP)


def one_element(env, names):
    vr, gen, oc = mods(env)
    s, (z, m) = env.pick("element", names)
    lat = lattice_of(env, "tric")
    vec = env.arr("v", (3, 1, 3), -1, 1)
    pol = env.arr("e", (3, 3), -9, 9)
    path = write(env.tmp() / "vasprun.xml", vasprun(env, [(s, 1)], lat, env.array(POS[:1]), phonons=[(env.c(-1), v) for v in vec], polarizability=pol))
    env.eq("numbers", list(vr.read_structure_and_polarizability(path)[1]), [z])
    ph = vr.read_phonons(path)
    env.close("displacements", ph.displacements * env.sqrt(env.c(env.get("ramannoodle.constants.ATOMIC_WEIGHTS")[s])), vec @ inv3(env, lat), TP)


def magnitude(env, lattice, imag):
    """Very small and very large numbers side by side."""
    vr, gen, oc = mods(env)
    weights = env.get("ramannoodle.constants.ATOMIC_WEIGHTS")
    lat = lattice_of(env, lattice)
    pos = env.array(POS[:2])
    pol = env.array([[2, 0, 0], [0, 3, 0], [0, 0, 5]])
    vec = env.array([[[env.c((5 * m + 3 * a + 7 * k) % 9 - 4, 10) for k in range(3)] for a in range(2)] for m in range(6)])
    big = env.real("big", 100, 5000) * (1 if env.flag("positive") else -1)
    small = env.real("small", 0.0001, 0.01) * (1 if env.flag("small positive") else -1)
    tiny = env.real("tiny", 0.0001, 0.01)
    k = env.choice("place", 3)
    pol[k, k], pol[k, (k + 1) % 3], pol[(k + 2) % 3, k] = big, small, -small
    m = env.pick("mode", [0, 3, 5])
    vec[m, k % 2, k] = tiny
    vec[m, 1 - k % 2] = env.array([0, 0, 0]) + tiny
    d = env.tmp()
    inv = inv3(env, lat)
    want = env.array([(vec[i] @ inv) / env.array([[env.sqrt(env.c(weights["H"]))]] * 2) for i in range(6)])
    f = [env.c(3 + i) for i in range(6)]
    f[m], f[(m + 1) % 6] = env.real("low", 0.02, 0.5), env.real("high", 60, 300)
    path = write(d / "vasprun.xml", vasprun(env, [("H", 2)], lat, pos, phonons=[((1 if imag else -1) * f[i] * f[i], vec[i]) for i in range(6)], polarizability=pol, pdec=12))
    e = vr.read_structure_and_polarizability(path)[3]
    ph = vr.read_phonons(path)
    for i in range(6):
        env.close("wavenumber", ph.wavenumbers[i] / (f[i] * THZ[1] / THZ[0]), env.c(-1 if imag else 1), 1e-4)
    check_magnitude(env, e, pol, ph, want, k, m, inv)


def units(tier):
    us = []
    A = "positions in [-1,2], dielectric tensor in [-20,90]"
    for i, g in enumerate(GROUPS):
        us.append(Unit(f"static-{i}", static, dict(groups=g, lattice="tric", decoys=i != 1), A))
    us.append(Unit("static-lattice", static, dict(groups=GROUPS[0], lattice="all"), A + ", lattice components in [2,9]"))
    us.append(Unit("static-large", static, dict(groups=[("Li", 7), ("Zr", 4), ("O", 9)], lattice="tric"), "20 atoms, " + A))
    for lat in ("tric", "left"):
        us.append(Unit(f"reference-{lat}", reference, dict(groups=GROUPS[1], lattice=lat), "one atom anywhere in the cell", stub_symmetry=True))
    B = "frequencies in [0.5,60] THz, eigenvector components in [-1,1], every choice of imaginary modes at both ends"
    for i, (g, lat) in enumerate([(2, "tri"), (0, "tric"), (1, "left"), (3, "ortho")]):
        us.append(Unit(f"phonons-{i}", phonons, dict(groups=GROUPS[g], lattice=lat, entry="vasprun" if i % 2 else "generic"), B))
    us.append(Unit("phonons-real", phonons, dict(groups=GROUPS[2], lattice="tric", entry="vasprun", kinds=[False] * 6), B))
    us.append(Unit("phonons-imaginary", phonons, dict(groups=GROUPS[2], lattice="tric", entry="vasprun", kinds=[True] * 6), B))
    us.append(Unit("phonons-any-sign", any_sign, {}, "one eigenvalue of size in [0.001,9]"))
    us.append(Unit("elements", one_element, dict(names=[(s, v) for s, v in MASSES.items() if v[0] <= 94]), "all elements up to plutonium", max_paths=400))
    for k in (1, 2, 3, 5, 12):
        us.append(Unit(f"md-{k}", md, dict(groups=GROUPS[k % 4], lattice=["tric", "left"][k % 2], steps=k, entry="vasprun" if k % 2 else "generic"), f"{k} steps, one coordinate of each anywhere in the cell"))
    for lat, imag in (("tric", False), ("left", True), ("big", False), ("flat", False)):
        us.append(Unit(f"magnitude-{lat}", magnitude, dict(lattice=lat, imag=imag), "dielectric components from 0.0001 to 5000, frequencies from 0.02 to 300 THz, eigenvector components from 0.0001", budget=60))
    us.append(Unit("wrapped", wrapped, {}, "one coordinate in [-1.9,2.9]"))
    return us
