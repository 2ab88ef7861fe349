"""D01: phonon Raman tensors are directional derivatives of the polarizability."""
from checks.crystals import Crystal
from checks.models import *


class Quadratic:
    """A polarizability model with a constant, a linear and a quadratic part in the displacement."""

    def __init__(self, env, ref, p0, lin, quad=None):
        self.env, self.ref, self.p0, self.lin, self.quad = env, env.array(ref), p0, lin, quad
        self.calls = []

    def calc_polarizabilities(self, batch):
        out = []
        for pos in batch:
            d = pos - self.ref
            p = self.p0
            for i in range(len(self.ref)):
                for k in range(3):
                    p = p + self.lin[i][k] * d[i, k]
                    if self.quad is not None:
                        p = p + self.quad[i][k] * d[i, k] * d[i, (k + 1) % 3]
            out.append(p)
        return self.env.array(out)


def constant(env):
    """The common factor between Raman tensor and derivative."""
    ph = env.get("ramannoodle.dynamics._phonon.Phonons")
    one, z = env.array([[1, 0, 0], [0, 0, 0], [0, 0, 0]]), env.array([[0, 0, 0]] * 3)
    pos = [[0.5, 0.5, 0.5]]
    m = Quadratic(env, pos, z, [[one, z, z]])
    t = ph(env.array(pos), env.array([100]), env.array([[[1, 0, 0]]])).get_raman_spectrum(m).raman_tensors
    k = t[0, 0, 0]
    env.true("positive factor", k > 0)
    return k


def maps(env, n, name):
    return [[env.symten(f"{name}{i}{k}") for k in range(3)] for i in range(n)]


def apply(lin, d):
    out = None
    for i in range(len(lin)):
        for k in range(3):
            x = lin[i][k] * d[i, k]
            out = x if out is None else out + x
    return out


def any_model(env, m, n):
    """Any quadratic model, reference positions away from its centre."""
    ph = env.get("ramannoodle.dynamics._phonon.Phonons")
    kappa = constant(env)
    ref = env.arr("ref", (n, 3), 0.1, 0.9)
    centre = POS[:n]
    p0 = env.symten("p")
    lin, quad = maps(env, n, "A"), maps(env, n, "Q")
    model = Quadratic(env, centre, p0, lin, quad)
    wn = env.arr("w", (m,), -300, 3000)
    disp = env.arr("d", (m, n, 3), -2, 2)
    spec = ph(ref, wn, disp).get_raman_spectrum(model)
    env.eq("shape", tuple(spec.raman_tensors.shape), (m, 3, 3))
    env.close("wavenumbers", spec.phonon_wavenumbers, wn)
    off = ref - env.array(centre)
    for q in range(m):
        want = apply(lin, disp[q])
        for i in range(n):
            for k in range(3):
                l = (k + 1) % 3
                want = want + quad[i][k] * (disp[q][i, k] * off[i, l] + off[i, k] * disp[q][i, l])
        env.close(f"tensor {q}", spec.raman_tensors[q], want * kappa, 1e-5)


SIZES = {"tiny": (0.0001, 0.01), "ordinary": (0.5, 2), "big": (100, 450), "huge": (1000, 100000)}


def whole(env):
    """Whole-number positions, displacements and wavenumbers mean the same as the numbers they hold."""
    ph = env.get("ramannoodle.dynamics._phonon.Phonons")
    kappa = constant(env)
    pos, disp, wn = [[0, 0, 0], [0, 1, 0]], [[[1, 0, 2], [0, -3, 0]], [[0, 0, 1], [1, 1, 0]]], [100, 250]
    which = env.pick("whole", ["positions", "displacements", "wavenumbers", "all"])
    given = lambda name, x: env.ints(x) if which in (name, "all") else env.array(x)
    d = env.ints(disp) if which in ("displacements", "all") else env.arr("d", (2, 2, 3), -2, 2)
    lin = maps(env, 2, "A")
    model = Quadratic(env, pos, env.symten("p"), lin)
    phonons = ph(given("positions", pos), given("wavenumbers", wn), d)
    spec = phonons.get_raman_spectrum(model)
    for k in range(2):
        env.close(f"tensor, whole {which}", spec.raman_tensors[k], apply(lin, d[k]) * kappa, 1e-5)
    env.close("wavenumbers", spec.phonon_wavenumbers, wn)
    env.close("displacements", phonons.displacements, d)


def magnitude(env, size, n):
    """Phonons of very different displacements: one and the same constant, each on its own."""
    ph = env.get("ramannoodle.dynamics._phonon.Phonons")
    kappa = constant(env)
    p0 = env.symten("p")
    lin = maps(env, n, "A")
    model = Quadratic(env, POS[:n], p0, lin)
    lo, hi = SIZES[size]
    x = env.real("x", lo, hi) * (1 if env.flag("positive") else -1)
    small = [[env.c((3 * a + 5 * k) % 7 - 3, 10) for k in range(3)] for a in range(n)]
    at_ = env.choice("atom", n)
    big = [[x * env.c((2 * a + 3 * k) % 5 - 2, 4) for k in range(3)] for a in range(n)]
    big[at_][1] = x
    disp = [small, big, [[-c for c in r] for r in small]]
    order = env.pick("order", [[0, 1, 2], [1, 0, 2], [1, 2]])
    spec = ph(env.array(POS[:n]), env.array([100 + 7 * i for i in range(len(order))]), env.array([disp[i] for i in order])).get_raman_spectrum(model)
    for q, i in enumerate(order):
        want = apply(lin, env.array(disp[i])) * kappa
        unit = 1 / x if i == 1 else 1
        env.close(f"tensor {i}", spec.raman_tensors[q] * unit, want * unit, 1e-5)


def interpolation(env, lattice, kind, m, order):
    """Interpolation models with linear or quadratic degrees of freedom."""
    interp, artm = model_classes(env)
    ph = env.get("ramannoodle.dynamics._phonon.Phonons")
    kappa = constant(env)
    n = 2
    ref = ref_structure(env, lattice, n)
    p0 = env.symten("ref")
    us, raw = basis(env, kind, n)
    model = interp(ref, p0)
    h = env.c(1, 10)
    lin = []
    for k in range(4):
        a = env.symten(f"A{k}")
        if order == 2:
            b = env.symten(f"B{k}")
            model.add_dof(raw[k], env.array([-h, h]), env.array([p0 - a * h + b * h * h, p0 + a * h + b * h * h]), 2)
        else:
            model.add_dof(raw[k], env.array([-h, h]), env.array([p0 - a * h, p0 + a * h]), 1)
        lin.append(a)
    inv = inv3(env, lattice_of(env, lattice))
    comp = [[env.real(f"c{q}{k}", -20, 20) for k in range(4)] for q in range(m)]
    disp = []
    for q in range(m):
        d = None
        for k in range(4):
            x = (us[k] @ inv) * comp[q][k]
            d = x if d is None else d + x
        disp.append(d)
    wn = env.arr("w", (m,), 10, 3000)
    cell = env.array([[0, 1, 0], [-1, 0, 2]])
    spec = ph(env.array(POS[:n]) + cell, wn, env.array(disp)).get_raman_spectrum(model)
    for q in range(m):
        want = None
        for k in range(4):
            x = lin[k] * comp[q][k]
            want = x if want is None else want + x
        env.close(f"tensor {q}", spec.raman_tensors[q], want * kappa, 1e-5)
    flipped = ph(env.array(POS[:n]), wn, env.array([-d for d in disp])).get_raman_spectrum(model).raman_tensors
    env.close("sign", flipped, -spec.raman_tensors)
    s = env.real("s", -3, 3) if kind == "atom" else env.c(-5, 2)
    scaled = ph(env.array(POS[:n]), wn, env.array([d * s for d in disp])).get_raman_spectrum(model).raman_tensors
    env.close("scale", scaled, spec.raman_tensors * s, 1e-5)
    masked = model.get_masked_model([0, 1, 2, 3])
    none = ph(env.array(POS[:n]), wn, env.array(disp)).get_raman_spectrum(masked)
    env.close("constant model", none.raman_tensors, env.zero(spec.raman_tensors))
    order_ = env.perm("shuffle", m)
    sh = ph(env.array(POS[:n]), env.array([wn[i] for i in order_]), env.array([disp[i] for i in order_])).get_raman_spectrum(model)
    env.close("order of phonons", sh.raman_tensors, env.array([spec.raman_tensors[i] for i in order_]))
    env.close("order of wavenumbers", sh.phonon_wavenumbers, env.array([wn[i] for i in order_]))


def two_routes(env, lattice, kind):
    """Phonon coordinates or atomic coordinates: the same spectrum."""
    interp, artm = model_classes(env)
    ph = env.get("ramannoodle.dynamics._phonon.Phonons")
    n = 2
    ref = ref_structure(env, lattice, n)
    p0 = env.symten("ref")
    lin = maps(env, n, "A")  # derivative with respect to Cartesian displacements
    h = env.c(1, 10)
    amps = env.array([-h, h])
    atomic = artm(ref, p0)
    axes = {"atom": [[1, 0, 0], [0, 1, 0], [0, 0, 1]], "turned": [[2, 1, 2], [-2, 2, 1], [1, 2, -2]]}
    for i in range(n):
        for e in axes["turned" if (kind == "turned" and i == 0) else "atom"]:
            u = unit_of(env, e)
            m = lin[i][0] * u[0] + lin[i][1] * u[1] + lin[i][2] * u[2]
            atomic.add_art(i, env.array(e), amps, env.array([p0 - m * h, p0 + m * h]))
    modes = [[[1, 0, 0], [1, 0, 0]], [[1, 0, 0], [-1, 0, 0]], [[0, 3, 0], [0, 0, 4]], [[0, 4, 0], [0, 0, -3]], [[0, 0, 1], [0, 2, 0]], [[0, 0, 2], [0, -1, 0]]]
    phon = interp(ref, p0)
    inv = inv3(env, lattice_of(env, lattice))
    for d in modes:
        u = unit_of(env, d)
        m = apply(lin, u)
        phon.add_dof(env.array(d), amps, env.array([p0 - m * h, p0 + m * h]), 1)
    disp = env.arr("d", (2, n, 3), -2, 2)
    wn = env.arr("w", (2,), 10, 3000)
    p = ph(env.array(POS[:n]), wn, disp)
    a, b = p.get_raman_spectrum(atomic), p.get_raman_spectrum(phon)
    env.close("Raman tensors", a.raman_tensors, b.raman_tensors, 1e-5)
    want = env.array([apply(lin, x @ lattice_of(env, lattice)) for x in disp]) * constant(env)
    env.close("derivative", a.raman_tensors, want, 1e-4)
    if kind == "intensity":
        wa, ia = a.measure()
        wb, ib = b.measure()
        env.close("intensities", ia, ib, 1e-4)
        env.close("wavenumbers", wa, wn)


def crystal(env, name):
    """The same in a symmetric crystal, where few coordinates are given and the rest follow."""
    cr = Crystal(name, False)
    interp, artm = model_classes(env)
    ph = env.get("ramannoodle.dynamics._phonon.Phonons")
    ref = cr.structure(env)
    p0 = cr.invariant(env, env.symten("ref"))
    lin = cr.linear(env, "A")
    h = env.c(1, 10)
    atomic = artm(ref, p0)
    done = []
    for i in range(cr.n):
        for k in range(3):
            u = [[0, 0, 0] for _ in range(cr.n)]
            u[i][k] = 1
            import numpy as rnp

            v = rnp.array(u, float)
            if any(abs((v * w).sum()) > 1e-6 for w in done):
                continue
            done += cr.orbit(v)
            m = lin[i][k]
            amps, pols = ([h], [p0 + m * h]) if cr.reverses(v) else ([-h, h], [p0 - m * h, p0 + m * h])
            atomic.add_art(i, env.array(u[i]), env.array(amps), env.array(pols))
    disp = env.arr("d", (1, cr.n, 3), -2, 2)
    spec = ph(env.array(cr.positions.tolist()), env.array([500]), disp).get_raman_spectrum(atomic)
    want = apply(lin, disp[0] @ env.array(cr.lattice.tolist())) * constant(env)
    env.close("derivative", spec.raman_tensors[0], want, 1e-4)


def large(env, m, n):
    """Many phonons and atoms: each tensor depends on its own displacement only."""
    ph = env.get("ramannoodle.dynamics._phonon.Phonons")
    kappa = constant(env)
    free = env.pick("phonons", [[0, m - 1], [m // 2]])
    ref = filled(env, (n, 3), 0.05, 0.95, step=29)
    p0 = env.symten("p")
    lin, flat = [], filled_tensors(env, 3 * n, [0, 3 * n - 1], name="A")
    for i in range(n):
        lin.append([flat[3 * i + k] for k in range(3)])
    model = Quadratic(env, ref, p0, lin)
    wn = filled(env, (m,), -300, 3000, free=free, name="w")
    disp = filled(env, (m, n, 3), -1, 1, step=23)
    for q in free:
        disp[q, q % n, 0] = env.real(f"d{q}", -2, 2)
        disp[q, n - 1, 2] = env.real(f"e{q}", -2, 2)
    spec = ph(ref, wn, disp).get_raman_spectrum(model)
    env.eq("shape", tuple(spec.raman_tensors.shape), (m, 3, 3))
    env.close("wavenumbers", spec.phonon_wavenumbers, wn)
    for q in range(m):
        env.close(f"tensor {q}", spec.raman_tensors[q], apply(lin, disp[q]) * kappa, 1e-5)


def units(tier):
    deep = tier != "quick"
    us = []
    us.append(Unit("whole", whole, {}, "two phonons of two atoms, integer arrays for one or all of the arguments, every linear model", budget=60))
    for m, n in ((1, 1), (2, 2), (3, 1)) + (((4, 2), (2, 4)) if deep else ()):
        us.append(Unit(f"any-{m}x{n}", any_model, dict(m=m, n=n), f"{m} phonons, {n} atoms, every quadratic model", stub_symmetry=True, budget=90))
    for size, (lo, hi) in SIZES.items():
        for n in (1, 3):
            us.append(Unit(f"magnitude-{size}-{n}", magnitude, dict(size=size, n=n), f"two ordinary phonons and one with displacements of {lo} to {hi}, {n} atoms, every linear model", budget=100))
    for lat in ("tric", "left", "cubic") if deep else ("tric",):
        for kind in ("atom", "mode", "skew", "big") if deep else ("atom", "big"):
            for order in (1, 2):
                us.append(Unit(f"interp-{lat}-{kind}-{order}", interpolation, dict(lattice=lat, kind=kind, order=order, m=3 if deep or order == 1 and kind == "atom" else 2), "two or three phonons, four degrees of freedom", stub_symmetry=True, budget=300))
        for kind in ("atom", "turned", "intensity"):
            us.append(Unit(f"routes-{lat}-{kind}", two_routes, dict(lattice=lat, kind=kind), "two atoms, all displacements", stub_symmetry=True, budget=120))
    for c in ("triclinic-P-1", "ortho-Pmmm", "tetra-P4/mmm", "cubic-CsCl", "cubic-ReO3") + (("tetra-perovskite", "cubic-perovskite", "rutile", "ortho-P212121", "monoclinic-P2/m") if deep else ()):
        us.append(Unit(f"crystal-{c.replace('/', '')}", crystal, dict(name=c), "all displacements; symmetric data", budget=150))
    for m, n in ((36, 12), (120, 2), (64, 1), (257, 1)) if not deep else ((36, 12), (120, 2), (64, 1), (257, 1), (300, 4), (501, 1)):
        us.append(Unit(f"large-{m}x{n}", large, dict(m=m, n=n), f"{m} phonons of {n} atoms, one or two of them free in two coordinates", stub_symmetry=True, budget=150))
    return us + layouts(us, "any-2x2", "interp-tric-atom-1", "large-36x12", "crystal-tetra-P4mmm")
