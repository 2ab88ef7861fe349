"""M04: invalid degrees of freedom are refused, and refusing changes nothing."""
import warnings

import numpy as rnp

from checks.crystals import Crystal
from checks.models import *


def sizes(env, label, model, n):
    env.eq(label + ": basis vectors", len(model.cart_basis_vectors), n)
    env.eq(label + ": interpolations", len(model.interpolations), n)
    env.eq(label + ": mask", tuple(model.mask.shape), (n,))


def sequence(env, kind, length, art):
    """Every sequence of operations from a menu of valid and invalid ones."""
    interp, artm = model_classes(env)
    bad = invalid_dof(env)
    user = env.get("ramannoodle.exceptions.UserError")
    ref = ref_structure(env, "tric")
    p0 = env.symten("ref")
    us, raw = basis(env, kind)
    pols = [env.symten(f"p{k}", 2) for k in range(2)]
    one = env.symten("one")
    model = (artm if art else interp)(ref, p0)
    twin = (artm if art else interp)(ref, p0)
    h = env.c(1, 10)
    have = []
    h2 = env.array([-h, h])

    def valid(k):
        def go(m):
            if art:
                i = 0 if k < 2 else 1
                m.add_art(i, raw[k][i], h2, pols[k])
            else:
                m.add_dof(raw[k], h2, pols[k], 1 + k, k == 1)

        return go

    ob = [raw[0] + raw[2] * 2 if not art else raw[0] + raw[1], raw[1] - raw[3] if not art else raw[1] + raw[0]]

    def add(m, d, amps, p, order=1, with_ref=True):
        if art:
            i = 0 if rnp.any([float(x) if not env.symbolic else float(x.const_value() or 0) for x in list(d[0])]) else 1
            m.add_art(i, d[i], env.array(amps), p)
        else:
            m.add_dof(d, env.array(amps), p, order, with_ref)

    menu = [("valid0", valid(0)), ("valid1", valid(1))]
    both = env.array([one, one])
    menu.append(("oblique", lambda m: add(m, ob[0], [-h, h], both)))
    menu.append(("oblique again", lambda m: add(m, ob[1], [-h, h], both)))
    menu.append(("duplicate", lambda m: add(m, raw[2], [h, h], both)))
    if art:
        menu.append(("one point", lambda m: add(m, raw[2], [h], env.array([one]))))
        menu.append(("three points", lambda m: add(m, raw[2], [h, -h, 2 * h], env.array([one] * 3))))
        menu.append(("add_dof", lambda m: m.add_dof(raw[2], h2, both, 1)))
        menu.append(("shape", lambda m: add(m, raw[2], [-h, h], env.array([one]))))
    else:
        menu.append(("few", lambda m: add(m, raw[2], [-h, h], both, 3)))
        menu.append(("at zero", lambda m: add(m, raw[2], [0 * h, h], both, 1)))
        menu.append(("order zero", lambda m: add(m, raw[2], [-h, h], both, 0)))
        menu.append(("shape", lambda m: add(m, raw[2], [-h, h], env.array([one]))))
    for step in range(length):
        i = env.choice(f"step{step}", len(menu))
        name, op = menu[i]
        expect = None
        if name in ("valid0", "valid1"):
            if i in have:
                expect = bad
        elif name == "oblique":
            expect = bad if set(have) & ({0} if not art else {0, 1}) else None
        elif name == "oblique again":
            expect = bad if set(have) & ({1} if not art else {0, 1}) else None
        elif name in ("duplicate", "few", "one point", "at zero"):
            expect = bad
        elif name in ("three points", "order zero", "shape"):
            expect = ValueError
        elif name == "add_dof":
            expect = user
        if expect is None and not name.startswith("valid"):
            continue  # acceptable here, covered elsewhere
        if expect is None:
            op(model)
            op(twin)
            have.append(i)
        else:
            env.raises(f"{name} refused", expect, op, model)
        sizes(env, name, model, len(have))
    t = [env.real(f"t{k}", -0.09, 0.09) for k in range(4)]
    conf = at(env, "tric", 2, [(t[k], us[k]) for k in range(4)])
    env.close("as the accepted ones alone", eval_one(env, model, conf), eval_one(env, twin, conf))
    if not have:
        env.close("untouched", eval_one(env, model, conf), p0)
    # the model is still usable
    name, op = menu[0] if 0 not in have else menu[1]
    if 0 not in have or 1 not in have:
        op(model)
        op(twin)
        env.close("usable afterwards", eval_one(env, model, conf), eval_one(env, twin, conf))
        sizes(env, "afterwards", model, len(have) + 1)


def angle(env, art, lattice, close):
    """A direction at any angle that is not right is refused."""
    interp, artm = model_classes(env)
    bad = invalid_dof(env)
    ref = ref_structure(env, lattice)
    p0 = env.symten("ref")
    p = env.symten("p", 2)
    us, raw = basis(env, "skew" if lattice == "tric" else "atom")
    model = (artm if art else interp)(ref, p0)
    amps = env.array([env.c(-1, 10), env.c(1, 10)])
    c, s = env.unit("th")
    env.assume(c * c >= env.c(1, 10**6 if close else 100))
    j = 1 if art else 2
    if art:
        model.add_art(0, raw[0][0], amps, p)
        env.raises("not orthogonal", bad, model.add_art, 0, us[0][0] * c + us[j][0] * s, amps, p)
        model.add_art(0, us[1][0] * env.real("scale", 0.1, 10), amps, p)
    else:
        model.add_dof(raw[0], amps, p, 1)
        env.raises("not orthogonal", bad, model.add_dof, us[0] * c + us[j] * s, amps, p, 1)
        model.add_dof(us[1] * env.real("scale", 0.1, 10), amps, p, 1)
    sizes(env, "after", model, 2)


def lengths(env, art, lattice):
    """Directions of any length: what overlaps is refused, what does not is accepted."""
    interp, artm = model_classes(env)
    bad = invalid_dof(env)
    ref = ref_structure(env, lattice)
    p0 = env.symten("ref")
    p = env.symten("p", 2)
    us, raw = basis(env, "atom")
    model = (artm if art else interp)(ref, p0)
    amps = env.array([env.c(-1, 10), env.c(1, 10)])
    ks = [-6, -3, 0, 3, 6]
    first, second = env.pick("first", ks), env.pick("second", ks)

    def size(k):
        return env.c(10**k) if k >= 0 else env.c(1, 10**-k)

    x = env.real("x", 1, 9)
    c, s = [env.c(a, b) for a, b in env.pick("angle", [((3, 5), (-4, 5)), ((-119, 120), (1, 10)), ((9, 41), (40, 41))])]
    j = 1 if art else 2

    def add(v):
        if art:
            model.add_art(0, v[0], amps, p)
        else:
            model.add_dof(v, amps, p, 1)

    add(us[0] * size(first))
    env.raises("not orthogonal", bad, add, (us[0] * c + us[j] * s) * x * size(second))
    env.raises("the same", bad, add, us[0] * x * size(second))
    sizes(env, "refused", model, 1)
    add(us[1] * x * size(second))
    sizes(env, "accepted", model, 2)
    if not art:
        # amplitudes are in angstrom, however long the direction given
        d = env.symten("d")
        model.add_dof(us[3] * size(first) * x, amps, env.array([p0 - d / 10, p0 + d / 10]), 1)
        t = env.real("t", -0.2, 0.2)
        env.close("prediction", eval_one(env, model, at(env, lattice, 2, [(t, us[3])])), p0 + d * t)


def repeats(env, order, with_ref, far):
    """Repeated amplitudes are refused; distinct ones are not."""
    interp, _ = model_classes(env)
    bad = invalid_dof(env)
    ref = ref_structure(env, "tric")
    model = interp(ref, env.symten("ref"))
    _, raw = basis(env, "skew")
    n = order + 2
    a = [env.real(f"a{k}", 0.05 * (k + 1), 0.05 * (k + 1) + 0.01) for k in range(n - 1)]
    k = env.choice("which", n - 1)
    where = env.choice("where", n)
    if far:
        a.insert(where, a[k] + env.real("gap", 0.012, 0.03) * (1 if env.flag("sign") else -1))
    else:
        a.insert(where, a[k] + env.real("gap", -1e-7, 1e-7))
    p = env.symten("p", n)
    if far:
        if order == 1:
            model.add_dof(raw[0], env.array(a), p, order, with_ref)
            sizes(env, "accepted", model, 1)
    else:
        env.raises("repeated amplitude", bad, model.add_dof, raw[0], env.array(a), p, order, with_ref)
        sizes(env, "refused", model, 0)


def count(env):
    """Number of points against interpolation order."""
    interp, _ = model_classes(env)
    bad = invalid_dof(env)
    ref = ref_structure(env, "tric")
    model = interp(ref, env.symten("ref"))
    _, raw = basis(env, "mode")
    order = 1 + env.choice("order", 4)
    n = 1 + env.choice("points", 4)
    with_ref = env.flag("ref")
    vals = [env.c(x, 100) for x in (-20, 10, 25, 32)[:n]]
    p = env.symten("p", n)
    if n + int(with_ref) <= order:
        env.raises("too few points", bad, model.add_dof, raw[0], env.array(vals), p, order, with_ref)
        sizes(env, "refused", model, 0)
    else:
        model.add_dof(raw[0], env.array(vals), p, order, with_ref)
        sizes(env, "accepted", model, 1)


def symmetric(env, crystal, vec, art):
    """Amplitudes that symmetry already provides are refused."""
    cr = Crystal(crystal, not crystal.startswith("cubic"))
    interp, artm = model_classes(env)
    bad = invalid_dof(env)
    ref = cr.structure(env)
    p0 = cr.invariant(env, env.symten("ref"))
    u = rnp.zeros((cr.n, 3))
    for i, v in vec.items():
        u[i] = v
    u /= rnp.linalg.norm(u)
    rev = cr.reverses(u)
    model = (artm if art else interp)(ref, p0)
    p = env.symten("p", 2)
    a = env.real("a", 0.05, 0.2)
    d = env.real("d", -1e-7, 1e-7)
    n = len(cr.orbit(u))
    atom = list(vec)[0]

    def add(amps, pols):
        if art:
            model.add_art(atom, env.array(u[atom].tolist()), env.array(amps), env.array(pols))
        else:
            model.add_dof(env.array(u.tolist()), env.array(amps), env.array(pols), 1)

    if rev:
        env.raises("repeated by symmetry", bad, add, [a, d - a], [p[0], p[1]])
        sizes(env, "refused", model, 0)
        add([a], [p[0]])
        sizes(env, "accepted", model, n)
    else:
        if art:
            env.raises("one point", bad, add, [a], [p[0]])
            sizes(env, "refused", model, 0)
        add([a, d - a], [p[0], p[1]])
        sizes(env, "accepted", model, n)
    # an image of the same displacement is not a new degree of freedom
    for o in cr.ops[:: max(1, len(cr.ops) // 6)]:
        w = cr.image(o, u)
        k = max(range(cr.n), key=lambda i: rnp.abs(w[i]).sum())
        if art:
            env.raises("image refused", bad, model.add_art, k, env.array(w[k].tolist()), env.array([a]), env.array([p[0]]))
        else:
            env.raises("image refused", bad, model.add_dof, env.array(w.tolist()), env.array([a]), env.array([p[0]]), 1)
        sizes(env, "still", model, n)


def oblique(env, lattice, art):
    """Integer directions in skew cells."""
    interp, artm = model_classes(env)
    bad = invalid_dof(env)
    ref = ref_structure(env, lattice)
    p = env.symten("p", 2)
    h = env.real("h", 0.05, 0.2)
    amps = env.array([-h, h])
    model = (artm if art else interp)(ref, env.symten("ref"))
    first = [2, 1, 2]
    d = [env.choice(f"d{k}", 4) - 1 for k in range(3)]
    if not any(d):
        return
    dot = sum(x * y for x, y in zip(first, d))
    z = [0, 0, 0]
    if art:
        model.add_art(1, env.array(first), amps, p)
        go = lambda: model.add_art(1, env.array(d), amps, p)  # noqa: E731
    else:
        model.add_dof(env.array([z, first]), amps, p, 1)
        go = lambda: model.add_dof(env.array([[1, 1, 0], d]), amps, p, 1)  # noqa: E731
    if dot:
        env.raises("not orthogonal", bad, go)
        sizes(env, "refused", model, 1)
    else:
        go()
        sizes(env, "accepted", model, 2)


def dummy(env, art):
    """Dummy models apply the same checks and refuse to predict."""
    interp, artm = model_classes(env)
    bad = invalid_dof(env)
    user = env.get("ramannoodle.exceptions.UserError")
    ref = ref_structure(env, "cubic")
    p0 = env.symten("ref")
    _, raw = basis(env, "atom")
    model = (artm if art else interp)(ref, p0, True)
    amps = env.array([env.real("a0", -0.2, -0.05), env.real("a1", 0.05, 0.2)])
    none = env.array([[[0] * 3] * 3])
    c, s = env.unit("th")
    env.assume(c * c >= env.c(1, 100))
    if art:
        model.add_art(0, raw[0][0], amps, none)
        env.raises("oblique", bad, model.add_art, 0, raw[0][0] * c + raw[1][0] * s, amps, none)
    else:
        model.add_dof(raw[0], amps, none, 1)
        env.raises("oblique", bad, model.add_dof, raw[0] * c + raw[1] * s, amps, none, 1)
        env.raises("few", bad, model.add_dof, raw[1], amps, none, 4)
    env.eq("degrees of freedom", len(model.cart_basis_vectors), 1)
    env.eq("mask", tuple(model.mask.shape), (1,))
    env.raises("no prediction", user, eval_one, env, model, at(env, "cubic", 2, []))


def large(env, art, atoms):
    """A model with many degrees of freedom still refuses whatever overlaps with any one of them."""
    interp, artm = model_classes(env)
    bad = invalid_dof(env)
    rs = env.imp("ramannoodle.structure._reference")
    pos = [[(2 * k + 1) / 64, (3 * k + 1) % 32 / 32, (5 * k + 2) % 32 / 32] for k in range(atoms)]
    ref = rs.ReferenceStructure([8] * atoms, lattice_of(env, "cubic"), env.array(pos))
    model = (artm if art else interp)(ref, env.symten("ref"))
    amps, p = env.array([env.c(-1, 10), env.c(1, 10)]), env.symten("p", 2)
    n = 3 * atoms
    left = env.pick("missing", [0, n // 2, n - 1])

    def vec(k, weight=1):
        v = [[env.c(0)] * 3 for _ in range(atoms)]
        v[k // 3][k % 3] = weight
        return v

    for k in [(7 * j + 3) % n for j in range(n)] if n % 7 else range(n):
        if k == left:
            continue
        if art:
            model.add_art(k // 3, env.array(vec(k)[k // 3]), amps, p)
        else:
            model.add_dof(env.array(vec(k)), amps, p, 1)
    sizes(env, "before", model, n - 1)
    c, s = env.unit("th")
    env.assume(c * c >= env.c(1, 10**4))
    if art:
        a = left // 3
        others = [k for k in range(3 * a, 3 * a + 3) if k != left]
    else:
        others = [k for k in (0, 1, n // 3, n // 2 + 1, n - 2, n - 1) if k != left]
    k = env.pick("overlaps with", others)
    d = vec(left, s)
    d[k // 3][k % 3] = c
    add = (lambda v: model.add_art(left // 3, env.array(v[left // 3]), amps, p)) if art else (lambda v: model.add_dof(env.array(v), amps, p, 1))
    env.raises("refused", bad, add, d)
    sizes(env, "refused", model, n - 1)
    add(vec(left, env.c(-3)))
    sizes(env, "accepted", model, n)


def units(tier):
    us = []
    thorough = tier != "quick"
    for art in (False, True):
        for kind in ("atom",) if art else ("atom", "mode"):
            us.append(
                Unit(f"sequence-{'art' if art else 'dof'}-{kind}", sequence, dict(kind=kind, length=3 if thorough else 2, art=art),
                     "every sequence of 2 (thorough 3) operations out of 9 and a final valid one; tensors and configuration symbolic", stub_symmetry=True, budget=240, max_paths=800)
            )  # fmt: skip
        for lattice in ("cubic",):
            for close in (False, True):
                us.append(Unit(f"angle-{'art' if art else 'dof'}-{lattice}-{'close' if close else 'wide'}", angle, dict(art=art, lattice=lattice, close=close), "any angle with |cos| >= 0.1 (close: 0.001)", stub_symmetry=True, budget=100))
        us.append(Unit(f"lengths-{'art' if art else 'dof'}", lengths, dict(art=art, lattice="cubic"), "directions from 1e-6 to 9e6 long, three angles", stub_symmetry=True, budget=90))
        for lattice in ("tric", "left"):
            us.append(Unit(f"oblique-{'art' if art else 'dof'}-{lattice}", oblique, dict(lattice=lattice, art=art), "every integer direction with entries -1..2", stub_symmetry=True))
        us.append(Unit(f"dummy-{'art' if art else 'dof'}", dummy, dict(art=art), "any angle, dummy model", stub_symmetry=True))
    for order in (1, 2, 3):
        for with_ref in (False, True):
            us.append(Unit(f"repeat-{order}-{int(with_ref)}", repeats, dict(order=order, with_ref=with_ref, far=False), "order+2 amplitudes, any one repeated anywhere (difference up to 1e-7)", stub_symmetry=True, budget=80))
    us.append(Unit("distinct", repeats, dict(order=1, with_ref=True, far=True), "distinct amplitudes accepted in any order", stub_symmetry=True, budget=80))
    us.append(Unit("count", count, {}, "orders 1 to 4, 1 to 4 points", stub_symmetry=True))
    for crystal, vec, art in [
        ("triclinic-P-1", {0: [1, 0, 0]}, True), ("triclinic-P-1", {1: [1, 0, 0]}, True), ("triclinic-P-1", {1: [1, 2, 0], 2: [1, 2, 0]}, False),
        ("monoclinic-P2/m", {1: [0, 1, 0]}, True), ("tetra-P4mm", {0: [1, 0, 0]}, True), ("tetra-P4mm", {0: [0, 0, 1]}, True),
        ("cubic-CsCl", {1: [0, 1, 0]}, True), ("cubic-ReO3", {1: [1, 0, 0]}, True), ("tetra-P4/mmm", {0: [1, 0, 0], 1: [-1, 0, 0]}, False),
    ]:  # fmt: skip
        us.append(Unit(f"symmetry-{crystal}-{len(us)}", symmetric, dict(crystal=crystal, vec=vec, art=art), "concrete crystal, amplitude symbolic", budget=80))
    for art in (False, True):
        us.append(Unit(f"large-{'art' if art else 'dof'}", large, dict(art=art, atoms=6 if not thorough else 14), "six (thorough fourteen) atoms, all but one degree of freedom present, every angle between the missing one and six others", stub_symmetry=True, budget=120))
    return us
