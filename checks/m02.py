"""M02: degrees of freedom act independently and only through displacement."""
from checks.models import *


def build(env, lattice, kind, orders, prefix="p", model_no=0):
    interp, _ = model_classes(env)
    ref = ref_structure(env, lattice)
    p0 = env.symten("ref")
    units_, raw = basis(env, kind)
    model = interp(ref, p0)
    for k, order in enumerate(orders):
        amps = {1: [-15, 20], 2: [-20, 10, 25], 3: [-20, -10, 10, 25]}[order]
        pols = env.symten(f"{prefix}{k}", len(amps))
        model.add_dof(raw[k], env.array([env.c(a, 100) for a in amps]), pols, order, order == 1)
    return model, p0, units_


def additive(env, lattice, kind, orders):
    model, p0, us = build(env, lattice, kind, orders)
    n = len(orders)
    amps = [env.real(f"t{k}", -0.18, 0.24) for k in range(n)]
    extra = env.real("x", -0.2, 0.2)
    alone = [at(env, lattice, 2, [(amps[k], us[k])]) for k in range(n)]
    both = at(env, lattice, 2, [(amps[k], us[k]) for k in range(n)])
    ortho = at(env, lattice, 2, [(amps[k], us[k]) for k in range(n)] + [(extra, us[3])])
    none = at(env, lattice, 2, [(extra, us[3])])
    out = model.calc_polarizabilities(env.array([both, ortho, none, at(env, lattice, 2, [])] + alone))
    base = out[3]
    total = base
    for k in range(n):
        total = total + (out[4 + k] - base)
    env.close("sum of the changes", out[0], total)
    env.close("orthogonal displacement has no influence", out[1], out[0])
    env.close("only orthogonal displacement", out[2], base)
    if all(o == 1 for o in orders):
        env.close("reference", base, p0)


def shifts(env, lattice, kind, orders):
    """Whole cells, batch composition and order of the batch do not matter."""
    model, p0, us = build(env, lattice, kind, orders)
    amps = [env.real(f"t{k}", -0.2, 0.24) for k in range(2)]
    a = at(env, lattice, 2, [(amps[0], us[0]), (amps[1], us[1])])
    b = at(env, lattice, 2, [(amps[1], us[0])])
    k = env.array([[env.intvar(f"k{i}_{j}", -3, 3) for j in range(3)] for i in range(2)])
    one = model.calc_polarizabilities(env.array([a]))
    two = model.calc_polarizabilities(env.array([b]))
    perm = env.perm("order", 3)
    confs = [a, b, a + k]
    want = [one[0], two[0], one[0]]
    out = model.calc_polarizabilities(env.array([confs[i] for i in perm]))
    env.eq("one tensor per configuration", tuple(out.shape), (3, 3, 3))
    for pos, i in enumerate(perm):
        env.close(f"configuration {i}", out[pos], want[i])


def batch_input(env, lattice):
    """The batch passed in is not modified; symmetric data give symmetric predictions."""
    model, p0, us = build(env, lattice, "mode", [1, 2])
    t = [env.real(f"t{k}", -0.2, 0.24) for k in range(2)]
    b = env.array([at(env, lattice, 2, [(t[0], us[0])]), at(env, lattice, 2, [(t[1], us[1])])])
    keep = b.copy()
    first = model.calc_polarizabilities(b)
    env.close("input unchanged", b, keep)
    again = model.calc_polarizabilities(b)
    env.close("same answer twice", again, first)
    for k in range(2):
        env.close("symmetric", first[k], first[k].T)


def far(env, kind):
    """Displacements beyond the supplied amplitudes follow the outer line, dof by dof."""
    interp, artm = model_classes(env)
    ref = ref_structure(env, "ortho")
    p0 = env.symten("ref")
    d = env.symten("d", 2)
    model = artm(ref, p0)
    h = env.c(1, 10)
    model.add_art(0, env.array([1, 0, 0]), env.array([-h, h]), env.array([p0 - d[0] * h, p0 + d[0] * h]))
    model.add_art(1, env.array([0, 2, 0]), env.array([-h, h]), env.array([p0 - d[1] * h, p0 + d[1] * h]))
    t = env.real("t", -1.9, 1.9)
    s = env.real("s", -2.4, 2.4)
    z = [0, 0, 0]
    ux, uy = env.array([[1, 0, 0], z]), env.array([z, [0, 1, 0]])
    out = eval_one(env, model, at(env, "ortho", 2, [(t, ux), (s, uy)]))
    env.close("linear response", out, p0 + d[0] * t + d[1] * s)


def scales(env, lattice, kind, size):
    """However small or large a displacement or a response is: it counts, next to ordinary ones."""
    interp, _ = model_classes(env)
    ref = ref_structure(env, lattice)
    p0 = env.symten("ref")
    us, raw = basis(env, kind)
    lin = [env.symten(f"A{k}", None, -3, 3) for k in range(3)]
    weak = env.choice("weak response", 4)  # one response is weaker or stronger than the others by orders of magnitude
    factor = env.c(1)
    if weak < 3:
        factor = env.c(1, 10**6) if env.flag("weaker") else env.c(10**6)
        lin[weak] = lin[weak] * factor
    model = interp(ref, p0)
    h = env.c(1, 10)
    for k in range(3):
        model.add_dof(raw[k], env.array([-h, h]), env.array([p0 - lin[k] * h, p0 + lin[k] * h]), 1)
    lo, hi = {"tiny": (10**-6, 10**-4), "small": (10**-4, 10**-2), "ordinary": (0.05, 0.3)}[size]
    x = env.real("x", lo, hi) * (1 if env.flag("positive") else -1)
    which = env.choice("dof", 3)
    other = (which + 1) % 3
    a = at(env, lattice, 2, [(x, us[which])])
    both = at(env, lattice, 2, [(x, us[which]), (env.c(3, 20), us[other])])
    alone = at(env, lattice, 2, [(env.c(3, 20), us[other])])
    out = model.calc_polarizabilities(env.array([a, both, alone, at(env, lattice, 2, [])]))
    env.close("reference", out[3], p0)
    big = max(1, 1 if weak == 3 else factor)
    unit = 1 / x
    env.close("change on its own", (out[0] - p0) * unit / big, lin[which] / big, 1e-5)
    if big == 1:
        env.close("change next to another", (out[1] - out[2]) * unit, lin[which], 1e-5)
    env.close("the other", (out[2] - p0) / big, lin[other] * env.c(3, 20) / big, 1e-5)
    if weak == which and factor < 1 and size != "tiny":
        env.close("weak response", (out[0] - p0) * unit / factor, lin[which] / factor, 1e-4)
    if weak == other and factor < 1:
        env.close("weak response of the other", (out[2] - p0) / factor, lin[other] * env.c(3, 20) / factor, 1e-5)


def large(env, atoms, count, art):
    """Many degrees of freedom and a long batch: each configuration gets the sum of its own displacements."""
    interp, artm = model_classes(env)
    rs = env.imp("ramannoodle.structure._reference")
    pos = [[(2 * k + 1) / 32, (3 * k + 1) % 16 / 16, (5 * k + 2) % 16 / 16] for k in range(atoms)]
    lat = lattice_of(env, "tric")
    ref = rs.ReferenceStructure([22 if k % 3 else 8 for k in range(atoms)], lat, env.array(pos))
    p0 = env.symten("ref")
    h = env.c(1, 10)
    amps = env.array([-h, h])
    n = 3 * atoms
    free = env.pick("free", [[0, n - 1], [n // 2], [n // 3]])
    lin = filled_tensors(env, n, free, name="A")
    model = (artm if art else interp)(ref, p0)
    for k in [(5 * j + 2) % n for j in range(n)] if n % 5 else [(7 * j + 2) % n for j in range(n)]:
        a, e = divmod(k, 3)
        d = [[0, 0, 0] for _ in range(atoms)]
        d[a][e] = 1
        pols = env.array([p0 - lin[k] * h, p0 + lin[k] * h])
        if art:
            model.add_art(a, env.array(d[a]), amps, pols)
        else:
            model.add_dof(env.array(d), amps, pols, 1)
    spots = env.pick("configurations", [[0, count - 1], [count // 2, count // 3]])
    inv = inv3(env, lat)
    confs, moves = [], []
    for c in range(count):
        m = [[env.c((5 * c + 3 * a + 7 * k) % 11 - 5, 60) for k in range(3)] for a in range(atoms)]
        if c in spots:
            m[c % atoms][c % 3] = env.real(f"x{c}", -0.3, 0.3)
        moves.append(m)
        cells = [[(c + a) % 3 - 1, 0, (c * a) % 2] for a in range(atoms)]
        confs.append(env.array(pos) + env.array(m) @ inv + env.array(cells))
    out = model.calc_polarizabilities(env.array(confs))
    env.eq("shape", tuple(out.shape), (count, 3, 3))
    for c in range(count):
        want = p0
        for k in range(n):
            want = want + lin[k] * moves[c][k // 3][k % 3]
        env.close(f"configuration {c}", out[c], want)


def units(tier):
    us = []
    q = tier == "quick"
    for lattice in ("tric",) if q else ("tric", "left", "cubic"):
        for kind in ("atom", "skew", "mode", "big"):
            for orders in ([1, 1], [1, 2], [2, 3], [1, 1, 1]) if not q else ([1, 1], [1, 2, 1]) if kind in ("atom", "mode") else ([1, 1, 1], [3, 1]):
                us.append(
                    Unit(f"add-{lattice}-{kind}-{''.join(map(str, orders))}", additive, dict(lattice=lattice, kind=kind, orders=orders), "two to three degrees of freedom of mixed order, every amplitude, every tensor", stub_symmetry=True, budget=100)
                )
            us.append(Unit(f"shift-{lattice}-{kind}", shifts, dict(lattice=lattice, kind=kind, orders=[1, 2]), "whole-cell shifts in [-3,3] of every coordinate, every order of a batch of three", stub_symmetry=True, budget=100))
    for lattice, kind in (("long", "mode"), ("flat", "atom"), ("big", "mode")):
        us.append(Unit(f"add-{lattice}-{kind}", additive, dict(lattice=lattice, kind=kind, orders=[1, 2]), "cells of unusual shape, every amplitude, every tensor", stub_symmetry=True, budget=100))
        us.append(Unit(f"shift-{lattice}-{kind}", shifts, dict(lattice=lattice, kind=kind, orders=[1, 2]), "cells of unusual shape, whole-cell shifts in [-3,3]", stub_symmetry=True, budget=100))
    us.append(Unit("input", batch_input, dict(lattice="tric"), "batch of two", stub_symmetry=True))
    us.append(Unit("far", far, dict(kind="atom"), "amplitudes up to half a cell", stub_symmetry=True))
    for lattice, kind, size in (("tric", "mode", "tiny"), ("tric", "atom", "small"), ("left", "skew", "ordinary"), ("long", "skew", "tiny")):
        us.append(Unit(f"scales-{size}-{lattice}-{kind}", scales, dict(lattice=lattice, kind=kind, size=size), "displacements down to 1e-6 angstrom, responses weaker or stronger by 1e6, every direction of three", stub_symmetry=True, budget=60))
    for atoms, count in ((5, 30), (2, 120), (12, 6), (1, 257), (1, 501), (1, 512), (1, 530)) if q else ((5, 30), (2, 120), (16, 12), (1, 257), (1, 512), (1, 1001), (1, 1025), (1, 1100)):
        us.append(Unit(f"large-{atoms}-{count}", large, dict(atoms=atoms, count=count, art=atoms == 5), f"{atoms} atoms with all degrees of freedom, {count} configurations, two of them free in one coordinate, one or two tensors free", stub_symmetry=True, budget=200))
    return us + layouts(us, "add-tric-skew-111", "add-tric-atom-11", "input", "large-5-30")
