"""M01: models reproduce the polarizabilities they were given."""
from checks.models import *


def amplitudes(env, spec):
    """Amplitudes with definite order, as numbers or symbols."""
    out = []
    for i, s in enumerate(spec):
        out.append(env.real(f"amp{i}", s - 0.02, s + 0.02) if i % 2 == 0 or len(spec) < 3 else env.c(int(round(s * 1000)), 1000))
    return out


SPECS = {1: [-0.1, 0.1], 2: [-0.2, 0.1, 0.2], 3: [-0.2, -0.1, 0.1, 0.2]}


def reproduce(env, lattice, kind, which, order, with_ref, reverse, others):
    interp, _ = model_classes(env)
    np = env.np
    ref = ref_structure(env, lattice)
    p0 = env.symten("ref")
    units_, raw = basis(env, kind)
    u, v = units_[which], raw[which]
    spec = SPECS[order] if not (with_ref and order > 1) else SPECS[order][: order]
    if order == 1 and not with_ref:
        spec = [-0.1, 0.1]
    amps = amplitudes(env, spec)
    pols = env.symten("pol", len(amps))
    scale = env.real("scale", 0.01, 40)
    idx = list(range(len(amps)))
    if reverse:
        idx = idx[::-1] if len(idx) < 3 else idx[1:] + idx[:1]
    model = interp(ref, p0)
    other = [k for k in range(4) if k != which][:2] if others else []
    q = env.symten("oth", 2)
    if other:
        model.add_dof(raw[other[0]], env.array([-0.1, 0.15]), env.array([q[0], q[1]]), 1)
    model.add_dof(v * scale, env.array([amps[i] for i in idx]), env.array([pols[i] for i in idx]), order, with_ref)
    if other:
        model.add_dof(raw[other[1]], env.array([0.2]), env.array([q[1]]), 1)
    confs = [at(env, lattice, 2, [(a, u)]) for a in amps]
    if with_ref or order == 1:
        confs.append(at(env, lattice, 2, []))
    out = model.calc_polarizabilities(env.array(confs))
    for i in range(len(amps)):
        env.close(f"polarizability at amplitude {i}", out[i], pols[i])
    if with_ref:
        env.close("reference polarizability", out[-1], p0)
    env.eq("number of degrees of freedom", len(model.cart_basis_vectors), 1 + len(other))
    env.close("reference kept", model.ref_polarizability, p0)


def between(env, lattice, kind, which, with_ref):
    """First order: straight lines between neighbouring points."""
    interp, _ = model_classes(env)
    ref = ref_structure(env, lattice)
    p0 = env.symten("ref")
    units_, raw = basis(env, kind)
    u, v = units_[which], raw[which]
    amps = [env.real("amp0", -0.25, -0.15), env.real("amp1", 0.15, 0.25)]
    pols = env.symten("pol", 2)
    model = interp(ref, p0)
    model.add_dof(v, env.array(amps), pols, 1, with_ref)
    t = env.real("t", 0, 1)
    if with_ref:
        a = amps[1] * t
        want = p0 + (pols[1] - p0) * t
        b = amps[0] * t
        want_b = p0 + (pols[0] - p0) * t
    else:
        a = amps[0] + (amps[1] - amps[0]) * t
        want = pols[0] + (pols[1] - pols[0]) * t
        b, want_b = amps[0], pols[0]
    out = model.calc_polarizabilities(env.array([at(env, lattice, 2, [(a, u)]), at(env, lattice, 2, [(b, u)])]))
    env.close("on the line", out[0], want)
    env.close("on the other line", out[1], want_b)


def near(env, where, order, with_ref):
    """Points however close to the reference or to each other."""
    interp, _ = model_classes(env)
    ref = ref_structure(env, "tric")
    p0 = env.symten("ref")
    units_, raw = basis(env, "skew")
    x = env.real("x", 0.0001, 0.002) * (1 if env.flag("positive") else -1)
    amps = {"reference": [env.c(-1, 10), env.c(15, 100), x], "point": [env.c(-1, 10), env.c(15, 100), env.c(15, 100) + x], "far": [env.c(-14, 10), env.c(13, 10), x * 100]}[where]
    pols = env.symten("pol", 3)
    idx = env.pick("order of points", [[0, 1, 2], [2, 1, 0], [1, 2, 0]])
    model = interp(ref, p0)
    model.add_dof(raw[1], env.array([amps[i] for i in idx]), env.array([pols[i] for i in idx]), order, with_ref)
    out = model.calc_polarizabilities(env.array([at(env, "tric", 2, [(a, units_[1])]) for a in amps] + [at(env, "tric", 2, [])]))
    for i in range(3):
        env.close(f"point {i}", out[i], pols[i], 1e-5)
    if with_ref:
        env.close("reference", out[3], p0, 1e-5)


def polynomial(env, kind, which, order):
    """order+1 points: the interpolation is the polynomial through them."""
    interp, _ = model_classes(env)
    ref = ref_structure(env, "tric")
    p0 = env.symten("ref")
    units_, raw = basis(env, kind)
    amps = [env.c(x, 100) for x in {2: [-20, 10, 25], 3: [-20, -10, 10, 25], 4: [-20, -10, 10, 16, 25], 5: [-25, -20, -10, 10, 16, 25], 7: [-25, -20, -15, -10, 10, 16, 22, 25]}[order]]
    pols = env.symten("pol", len(amps))
    model = interp(ref, p0)
    model.add_dof(raw[which], env.array(amps), pols, order, False)
    t = env.real("t", -0.19, 0.24)
    out = eval_one(env, model, at(env, "tric", 2, [(t, units_[which])]))
    env.close("polynomial", out, lagrange(env, amps, [pols[i] for i in range(len(amps))], t))


def many_points(env, kind, which, order, n):
    """More points than needed: still reproduced, whatever their order."""
    interp, _ = model_classes(env)
    ref = ref_structure(env, "tric")
    p0 = env.symten("ref")
    units_, raw = basis(env, kind)
    vals = [-30, -22, -9, 8, 17, 31][:n]
    amps = [env.c(x, 100) for x in vals]
    pols = env.symten("pol", n)
    shift = env.choice("rotate", n)
    idx = [(i * (n - 1) + shift) % n for i in range(n)]
    model = interp(ref, p0)
    model.add_dof(raw[which], env.array([amps[i] for i in idx]), env.array([pols[i] for i in idx]), order, True)
    out = model.calc_polarizabilities(env.array([at(env, "tric", 2, [(a, units_[which])]) for a in amps] + [at(env, "tric", 2, [])]))
    for i in range(n):
        env.close(f"point {i}", out[i], pols[i])
    env.close("reference", out[n], p0)


def art(env, lattice, atom, which, reverse):
    """Atomic Raman tensors: both supplied points are reproduced, for any length of the direction."""
    _, artm = model_classes(env)
    ref = ref_structure(env, lattice)
    p0 = env.symten("ref")
    d = [[1, 0, 0], [2, 1, 2], [-3, 0, 4], [0, -1, 0]][which]
    dirs = unit_of(env, d)
    z = [env.c(0)] * 3
    u = env.array([list(dirs) if k == atom else z for k in range(2)])
    amps = [env.real("amp0", -0.3, -0.05), env.real("amp1", 0.05, 0.3)]
    pols = env.symten("pol", 2)
    scale = env.real("scale", 0.01, 40)
    idx = [1, 0] if reverse else [0, 1]
    model = artm(ref, p0)
    model.add_art(atom, env.array(d) * scale, env.array([amps[i] for i in idx]), env.array([pols[i] for i in idx]))
    t = env.real("t", 0, 1)
    a = amps[0] + (amps[1] - amps[0]) * t
    out = model.calc_polarizabilities(env.array([at(env, lattice, 2, [(x, u)]) for x in (amps[0], amps[1], a)]))
    env.close("first", out[0], pols[0])
    env.close("second", out[1], pols[1])
    env.close("line", out[2], pols[0] + (pols[1] - pols[0]) * t)
    env.eq("one dof", len(model.cart_basis_vectors), 1)


def whole(env, kind):
    """Whole-number arrays mean the same as the numbers they hold."""
    interp, artm = model_classes(env)
    rs = env.imp("ramannoodle.structure._reference")
    which = env.pick("whole", ["lattice", "displacement", "amplitudes", "tensors", "reference tensor", "all"])
    whole_ = lambda name: which in (name, "all")
    given = lambda name, x: env.ints(x) if whole_(name) else env.array(x)
    lat = [[14, 0, 0], [1, 15, 0], [-1, 2, 16]]
    pos = POS[:2]
    p0 = env.ints([[4, 1, 0], [1, 5, -1], [0, -1, 6]]) if whole_("reference tensor") else env.symten("ref")
    pols = env.ints([[[3, 1, 0], [1, 2, 0], [0, 0, 7]], [[5, 0, 1], [0, 9, 0], [1, 0, 8]]]) if whole_("tensors") else env.symten("pol", 2)
    amps = [-1, 2] if whole_("amplitudes") else [env.real("amp0", -0.3, -0.05), env.real("amp1", 0.05, 0.3)]
    d = [[0, 0, 0], [2, 1, 2]] if kind == "art" else [[3, 0, 4], [0, 12, 0]]
    ref = rs.ReferenceStructure([22, 8], given("lattice", lat), env.array(pos))
    if kind == "art":
        model = artm(ref, p0)
        model.add_art(1, given("displacement", d[1]), given("amplitudes", amps), pols)
    else:
        model = interp(ref, p0)
        model.add_dof(given("displacement", d), given("amplitudes", amps), pols, 1, kind == "reference")
    t = env.real("t", 0, 1) / 2
    start = pols[0] if kind != "reference" else p0
    low = amps[0] if kind != "reference" else 0
    x = low + (amps[1] - low) * t
    step = unit_of(env, d) @ inv3(env, env.array(lat))
    out = model.calc_polarizabilities(env.array([env.array(pos) + step * a for a in (amps[0], amps[1], x)]))
    env.close(f"first, whole {which}", out[0], pols[0])
    env.close(f"second, whole {which}", out[1], pols[1])
    env.close(f"line, whole {which}", out[2], env.array(start) + (env.array(pols[1]) - env.array(start)) * t)
    if kind == "reference":
        env.close(f"reference, whole {which}", model.calc_polarizabilities(env.array([pos]))[0], p0)


def whole_positions(env, kind):
    """One atom at a whole-number place: every point and its mirror image."""
    interp, artm = model_classes(env)
    rs = env.imp("ramannoodle.structure._reference")
    lat = [[14, 0, 0], [1, 15, 0], [-1, 2, 16]]
    ref = rs.ReferenceStructure([22], env.ints(lat), env.ints([env.pick("place", [[0, 0, 0], [0, 1, 0]])]))
    p0, pol = env.symten("ref"), env.symten("pol")
    amps = env.ints([1]) if env.flag("whole amplitude") else env.array([env.real("amp", 0.05, 0.3)])
    d = [2, 1, 2]
    if kind == "art":
        model = artm(ref, p0)
        model.add_art(0, env.ints(d), amps, env.array([pol]))
    else:
        model = interp(ref, p0)
        model.add_dof(env.ints([d]), amps, env.array([pol]), 1)
    t = env.real("t", 0, 1) / 2
    step = unit_of(env, [d]) @ inv3(env, env.array(lat)) * amps[0]
    at_ = [env.array(ref.positions) + step * x for x in (1, -1, t, -t)]
    out = model.calc_polarizabilities(env.array(at_))
    env.close("point", out[0], pol)
    env.close("mirror image", out[1], pol)
    # an atomic Raman tensor has no point at the reference
    start = pol if kind == "art" else p0
    env.close("line", out[2], start + (pol - start) * t)
    env.close("line of the mirror image", out[3], start + (pol - start) * t)
    env.close("reference", model.calc_polarizabilities(env.ints([[[0, 0, 0]], [[0, 1, 0]]]))[1], start)


def any_direction(env, lattice, plane):
    """Direction with a free angle."""
    interp, _ = model_classes(env)
    ref = ref_structure(env, lattice)
    p0 = env.symten("ref")
    c, s = env.unit("th")
    z = env.c(0)
    u = env.array([[c, s, z], [z, z, z]]) if plane == "xy" else env.array([[z, z, z], [z, s, -c]])
    amps = [env.real("amp0", -0.3, -0.05), env.real("amp1", 0.05, 0.3)]
    pols = env.symten("pol", 2)
    model = interp(ref, p0)
    model.add_dof(u * env.c(7), env.array(amps), pols, 1, True)
    out = model.calc_polarizabilities(env.array([at(env, lattice, 2, [(a, u)]) for a in amps] + [at(env, lattice, 2, [])]))
    env.close("first", out[0], pols[0])
    env.close("second", out[1], pols[1])
    env.close("reference", out[2], p0)


def large(env, order, n, atoms):
    """Many supplied points on a mode of a larger cell; two of the tensors and one amplitude free."""
    interp, _ = model_classes(env)
    np = env.np
    rs = env.imp("ramannoodle.structure._reference")
    pos = [[(2 * k + 1) / 32, (3 * k + 1) % 16 / 16, (5 * k + 2) % 16 / 16] for k in range(atoms)]
    lat = lattice_of(env, "tric")
    ref = rs.ReferenceStructure([22 if k % 3 else 8 for k in range(atoms)], lat, env.array(pos))
    p0 = env.symten("ref")
    raw = env.array([[(k % 5) - 2, (k % 3) - 1, 1 + k % 2] for k in range(atoms)])
    u = unit_of(env, raw)
    free = env.pick("free", [[0, n - 1], [n // 2]])
    vals = [env.c(2 * k - n, 20) if k != n // 3 else env.c(2 * k - n, 20) + env.c(1, 60) for k in range(n)]
    if n % 2 == 0:
        vals = [v + env.c(1, 50) for v in vals]
    pols = filled_tensors(env, n, free, name="p")
    back = [(7 * k + 3) % n for k in range(n)] if n % 7 else list(range(n))[::-1]
    model = interp(ref, p0)
    model.add_dof(raw, env.array([vals[k] for k in back]), env.array([pols[k] for k in back]), order, True)
    inv = inv3(env, lat)
    confs = [env.array(pos) + (u @ inv) * a for a in vals] + [env.array(pos)]
    out = model.calc_polarizabilities(env.array(confs))
    for k in range(n):
        env.close(f"point {k}", out[k], pols[k])
    env.close("reference", out[n], p0)
    if order == 1:
        k = free[0] - (1 if free[0] == n - 1 else 0)
        full, where = vals + [env.c(0)], list(pols) + [p0]
        seq = sorted(range(n + 1), key=lambda i: float(full[i] if not env.symbolic else full[i].const_value()))
        at_ = seq.index(k)
        a, b = (seq[at_], seq[at_ + 1]) if at_ < n else (seq[at_ - 1], seq[at_])
        t = env.real("t", 0, 1)
        x = full[a] + (full[b] - full[a]) * t
        got = eval_one(env, model, env.array(pos) + (u @ inv) * x)
        env.close("between", got, where[a] + (where[b] - where[a]) * t)


def units(tier):
    us = []
    thorough = tier != "quick"
    n = 0
    for lattice in ("cubic", "tric", "left") if thorough else ("ortho", "tric"):
        for kind in ("atom", "skew", "mode", "big"):
            for order in (1, 2, 3):
                for with_ref in (True, False):
                    for reverse in (False, True):
                        n += 1
                        if not thorough and n % 3 != 0:
                            continue
                        which = n % 4
                        others = bool((n // 2) % 2)
                        us.append(
                            Unit(
                                f"rep-{lattice}-{kind}{which}-k{order}-{'ref' if with_ref else 'noref'}-{int(reverse)}{int(others)}", reproduce,
                                dict(lattice=lattice, kind=kind, which=which, order=order, with_ref=with_ref, reverse=reverse, others=others),
                                "two atoms, all tensors, amplitudes and direction lengths in [0.01,40] symbolic, up to two other degrees of freedom", stub_symmetry=True, budget=60,
                            )
                        )  # fmt: skip
    for kind in ("atom", "mode", "big") if thorough else ("skew", "big"):
        for with_ref in (True, False):
            us.append(Unit(f"between-{kind}-{int(with_ref)}", between, dict(lattice="tric", kind=kind, which=2, with_ref=with_ref), "any point of the segments", stub_symmetry=True))
        for order in (2, 3, 4, 5, 7) if thorough or kind == "skew" else (2, 3):
            us.append(Unit(f"poly-{kind}-{order}", polynomial, dict(kind=kind, which=1, order=order), "any amplitude between the outer points", stub_symmetry=True))
    for order in (1, 2, 3, 4, 5):
        us.append(Unit(f"many-{order}", many_points, dict(kind="skew", which=0, order=order, n=6 if order > 4 else 5 if thorough or order > 3 else 4), "every cyclic order of the points, all tensors", stub_symmetry=True))
    for atom in (0, 1):
        for which in range(4 if thorough else 3):
            for lattice in ("tric", "left", "long", "flat", "big") if thorough else ("tric",) if which else ("tric", "long", "flat", "big"):
                us.append(Unit(f"art-{lattice}-{atom}-{which}", art, dict(lattice=lattice, atom=atom, which=which, reverse=bool(which % 2)), "amplitudes, tensors and direction length symbolic", stub_symmetry=True))
    for kind in ("art", "points", "reference"):
        us.append(Unit(f"whole-{kind}", whole, dict(kind=kind), "two atoms, integer arrays for one or all of the arguments", stub_symmetry=True, budget=90))
    for kind in ("art", "reference"):
        us.append(Unit(f"whole-positions-{kind}", whole_positions, dict(kind=kind), "one atom at an integer array position, integer lattice and direction", budget=90))
    for plane in ("xy", "yz"):
        us.append(Unit(f"angle-{plane}", any_direction, dict(lattice="cubic", plane=plane), "direction with a free angle", stub_symmetry=True, budget=90))
    for order, n in ((1, 14), (2, 9), (3, 8), (4, 8), (5, 9)) + (((1, 40), (2, 20), (3, 15)) if thorough else ()):
        us.append(Unit(f"large-{order}-{n}", large, dict(order=order, n=n, atoms=9), f"nine atoms, {n} points, every tensor of one or two points", stub_symmetry=True, budget=120))
    for where in ("reference", "point", "far"):
        for order, with_ref in ((1, True), (1, False), (2, False), (3, True)):
            us.append(Unit(f"near-{where}-{order}{'' if with_ref else '-noref'}", near, dict(where=where, order=order, with_ref=with_ref), "a point 0.0001 to 0.002 angstrom from the reference or from another point (or points above 1.3 angstrom)", stub_symmetry=True, budget=60))
    return us + layouts(us, "rep-tric-skew2-k2-ref-11", "between-skew-0", "poly-skew-4", "many-3", "art-tric-1-0", "large-1-14")
