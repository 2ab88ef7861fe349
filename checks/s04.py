"""S04: equivalent atoms and displacements are exactly the orbits under the structure's symmetry."""
import numpy as rnp

from checks.crystals import CRYSTALS, Crystal
from checks.models import *

# only crystals whose operations the implementation applies correctly (others: M03, F1)
DIRECTIONS = {
    "xy": [[1, 0, 0], [0, 1, 0]],
    "yz": [[0, 1, 0], [0, 0, 1]],
    "xd": [[1, 0, 0], [0, 3, 4]],
}
TOL = 1e-4


def classes(n):
    """All partitions of n atoms, as the smallest atom of each atom's class."""
    out = []

    def go(reps):
        i = len(reps)
        if i == n:
            out.append(list(reps))
            return
        for r in sorted(set(reps)) + [i]:
            go(reps + [r])

    go([])
    return out


def as_lists(d):
    return {int(k): sorted(int(x) for x in v) for k, v in d.items()}


def some_classes(n):
    """A few partitions of many atoms: all alike, none alike, interleaved, blocks, one apart, scattered."""
    out = [[0] * n, list(range(n)), [i % 3 for i in range(n)], [i - i % 5 for i in range(n)], [0] + [1] * (n - 1), [0] * (n - 1) + [n - 1]]
    first, scattered = {}, []
    for i in range(n):
        scattered.append(first.setdefault((i * i + 3 * i) % 11, i))
    return out + [scattered]


def partition(env, n, some=False):
    """Any partition of the atoms into equivalent ones."""
    reps = env.pick("classes", some_classes(n) if some else classes(n))
    env.equivalents(reps)
    rs = env.imp("ramannoodle.structure._reference")
    pos = [[0.0625 + 0.15625 * i % 1, (0.5 - 0.09375 * i) % 1, (0.125 * i + 0.03125) % 1] for i in range(n)] if not some else [[(5 * i + 3) % 128 / 128, (i * i + 1) % 256 / 256, (11 * i) % 64 / 64] for i in range(n)]
    ref = rs.ReferenceStructure([8] * n, lattice_of(env, "tric"), env.array(pos))
    want = {r: [i for i in range(n) if reps[i] == r and i != r] for r in sorted(set(reps))}
    env.eq("classes", as_lists(ref.get_equivalent_atom_dict()), want)
    env.eq("number of classes", int(ref.num_nonequivalent_atoms), len(want))
    env.eq("again", as_lists(ref.get_equivalent_atom_dict()), want)
    env.eq("number of atoms", ref.num_atoms, n)


def near(env, a, b, tol=TOL):
    d = env.array(a) - env.array(b)
    ok = None
    for x in d.reshape(-1):
        c = (x <= tol) & (x >= -tol)
        ok = c if ok is None else ok & c
    return ok


def any_of(items):
    out = None
    for x in items:
        out = x if out is None else out | x
    return out


def build(env, name, shift, distort=None, symprec=None, angle=None):
    cr = Crystal(name, shift)
    rs = env.imp("ramannoodle.structure._reference")
    pos = cr.positions.copy()
    if distort is not None:
        pos = pos + rnp.array(distort)
    pos = pos - rnp.floor(pos)
    args = {}
    if symprec is not None:
        args["symprec"] = symprec
    if angle is not None:
        args["angle_tolerance"] = angle
    return cr, rs.ReferenceStructure(list(cr.numbers), env.array(cr.lattice.tolist()), env.array(pos.tolist()), **args)


def atoms(env, cr, ref):
    """Equivalent atoms are those mapped onto each other."""
    seen, want = {}, {}
    for i in range(cr.n):
        orbit = sorted({p[i] for _, p in cr.ops})
        seen.setdefault(orbit[0], orbit)
    want = {k: v[1:] for k, v in seen.items()}
    env.eq("equivalent atoms", as_lists(ref.get_equivalent_atom_dict()), want)
    env.eq("number of nonequivalent atoms", int(ref.num_nonequivalent_atoms), len(want))


def images(env, cr, lat, u):
    """Images of a displacement (Cartesian, symbolic) under all operations."""
    out = []
    for c, p in cr.ops:
        w = [None] * cr.n
        v = u @ env.array(c.T.tolist())
        for i in range(cr.n):
            w[p[i]] = v[i]
        out.append(env.array([list(r) for r in w]))
    return out


def check_orbit(env, cr, ref, u, scale, cells=None):
    """Groups of collinear images, groups orthogonal to each other, nothing missing."""
    lat = env.array(cr.lattice.tolist())
    frac = u @ inv3(env, lat)
    given = frac * scale
    if cells is not None:
        given = given + env.array(cells)  # another periodic image
    groups = ref.get_equivalent_displacements(given)
    nrm = norm_of(env, frac) * 10
    vecs = [[(env.array(d) @ lat) * nrm for d in g["displacements"]] for g in groups]
    imgs = images(env, cr, lat, u)
    uu = (u * u).sum()
    env.close("the displacement itself comes first", vecs[0][0], u, TOL)
    for i, g in enumerate(vecs):
        env.eq(f"as many transformations {i}", len(groups[i]["transformations"]), len(g))
        env.true(f"one or two in a direction {i}", 1 <= len(g) <= 2)
        for v in g:
            env.true(f"is an image {i}", any_of([near(env, v, w) for w in imgs]))
        if len(g) == 2:
            env.close(f"opposite {i}", g[0], -g[1], TOL)
        for j in range(i):
            dot = (vecs[i][0] * vecs[j][0]).sum()
            env.close(f"orthogonal {i} {j}", dot, env.zero(dot), TOL)
    flat = [v for g in vecs for v in g]
    reps = [g[0] for g in vecs]
    for k, w in enumerate(imgs):
        there = any_of([near(env, w, v) for v in flat])
        dots = [(w * r).sum() for r in reps]
        oblique = any_of([(x > uu * 1e-6) | (x < -uu * 1e-6) for x in dots])
        para = any_of([near(env, w, r) | near(env, w, -r) for r in reps])
        env.true("every image is listed or oblique", there | (oblique & ~para))
    return len(groups)


def whole(n, k):
    """Whole cells, one atom one way and another atom the other way."""
    out = [[0, 0, 0] for _ in range(n)]
    out[0][k % 3] = 1
    out[n - 1][(k + 1) % 3] -= 2
    return out


def orbit(env, crystal, shift, atom, plane):
    """One atom moved in any direction of a plane."""
    cr, ref = build(env, crystal, shift)
    atoms(env, cr, ref)
    c, s = env.unit("th")
    a, b = DIRECTIONS[plane]
    z = [[0, 0, 0] for _ in range(cr.n)]
    v = unit_of(env, a) * c + unit_of(env, b) * s
    # directions in which images are exactly along or across each other, or clearly neither
    rows = [env.array(r) for r in z]
    rows[atom] = v
    u = env.array([list(r) for r in rows])
    separate(env, cr, u)
    k = env.choice("scale", 3)
    check_orbit(env, cr, ref, u, [1, env.c(1, 20), env.c(1, 4)][k], whole(cr.n, k) if k == 2 else None)


def separate(env, cr, u):
    """Skip directions within the code's tolerance of a special one (not special itself)."""
    uu = (u * u).sum()
    for k, w in enumerate(images(env, cr, None, u)):
        d = (u * w).sum() / uu
        zero = (d == 0) | (d > 0.01) | (d < -0.01)
        one = (d * d == 1) | (d * d < 0.99)
        env.assume(zero & one)


def fixed(env, crystal, shift, vec, distort=None, symprec=None):
    """Collective displacements, and structures that are symmetric within a tolerance."""
    k = env.choice("distortion", len(distort)) if distort else None
    cr, ref = build(env, crystal, shift, distort[k] if distort else None, symprec)
    atoms(env, cr, ref)
    u = rnp.zeros((cr.n, 3))
    for i, v in vec.items():
        u[i] = v
    u /= rnp.linalg.norm(u)
    t = env.real("t", 0.02, 1)
    n = check_orbit(env, cr, ref, env.array(u.tolist()), t, whole(cr.n, 1) if env.flag("whole cells") else None)
    env.eq("number of directions", n, len(cr.orbit(u)))


def tolerance(env, kind):
    """The tolerances given are those of the symmetry search."""
    import spglib

    rs = env.imp("ramannoodle.structure._reference")
    numbers, lattice, pos = CRYSTALS["cubic-CsCl" if kind == "angle" else "triclinic-P-1"]
    lattice, pos = rnp.array(lattice, float), rnp.array(pos, float) + 0.40625
    if kind == "angle":
        lattice[1, 0] = 0.02
    else:
        pos[1, 0] += 0.001
    eps = env.pick("tolerance", [1e-5, 1e-3, 1e-2, 0.1])
    args = {"symprec": eps} if kind != "angle" else {"symprec": 0.05, "angle_tolerance": eps * 10}
    want = spglib.get_symmetry((lattice, pos, numbers), **args)["equivalent_atoms"]
    ops = len(spglib.get_symmetry((lattice, pos, numbers), **args)["rotations"])
    ref = rs.ReferenceStructure(list(numbers), env.array(lattice.tolist()), env.array(pos.tolist()), **args)
    d = as_lists(ref.get_equivalent_atom_dict())
    env.eq("classes", sorted(d), sorted({int(x) for x in want}))
    u = env.array([[0.1, 0.02, 0.03]] + [[0, 0, 0]] * (len(numbers) - 1)) * env.real("t", 0.1, 1)
    n = sum(len(g["displacements"]) for g in ref.get_equivalent_displacements(u))
    env.true("operations used", n >= 1)
    env.eq("identity only", n == 1, ops == 1)


def integer(env, crystal, shift, atom, lo, hi):
    """One atom moved by any length along integer directions (Cartesian or along the cell)."""
    cr, ref = build(env, crystal, shift)
    d = [env.choice(f"d{k}", hi - lo + 1) + lo for k in range(3)]
    if not any(d):
        return
    u = rnp.zeros((cr.n, 3))
    u[atom] = d if env.flag("Cartesian") else rnp.array(d) @ cr.lattice
    u /= rnp.linalg.norm(u)
    check_orbit(env, cr, ref, env.array(u.tolist()), env.real("t", 0.02, 1), whole(cr.n, atom) if sum(d) % 2 else None)


ANY = [("tetra-P4/mmm", False, 1), ("tetra-perovskite", False, 1), ("tetra-P4mm", False, 1), ("cubic-CsCl", False, 0), ("cubic-sc", False, 0)]
ANY_DEEP = [("cubic-ReO3", False, 1), ("cubic-perovskite", False, 2), ("cubic-P23", False, 0), ("tetra-perovskite", False, 3)]
SOME = [("triclinic-P-1", True, 1), ("monoclinic-P2/m", True, 1), ("monoclinic-Pm", True, 1), ("monoclinic-P21/c", True, 0), ("ortho-Pmmm", True, 0), ("ortho-P212121", True, 2),
        ("ortho-Pmm2", True, 1), ("box-H2", True, 0), ("ortho-one", True, 0), ("cubic-sc", False, 0)]  # fmt: skip
SOME_DEEP = [("rutile", False, 2), ("box-P-1", True, 2), ("cubic-ReO3", False, 1), ("triclinic-P-1", True, 0), ("tetra-P4mm", False, 0)]


def units(tier):
    deep = tier != "quick"
    us = []
    for n in (1, 2, 3, 4, 5) + ((6,) if deep else ()):
        us.append(Unit(f"partition-{n}", partition, dict(n=n), "every partition of the atoms", stub_symmetry=True, budget=60))
    for n in (12, 110):
        us.append(Unit(f"large-{n}", partition, dict(n=n, some=True), f"seven partitions of {n} atoms", stub_symmetry=True, budget=60))
    b = "any direction of a plane (not within 0.6 degrees of a special one unless special); one atom moved"
    for name, shift, atom in ANY + (ANY_DEEP if deep else []):
        for plane in DIRECTIONS if deep and name.startswith("cubic") else ("xy",):
            us.append(Unit(f"orbit-{name}-{atom}-{plane}", orbit, dict(crystal=name, shift=shift, atom=atom, plane=plane), b, budget=300 if deep else 120))
    for name, shift, atom in SOME + (SOME_DEEP if deep else []):
        lo, hi = (-2, 3) if deep else (-1, 1)
        us.append(Unit(f"integer-{name}-{atom}", integer, dict(crystal=name, shift=shift, atom=atom, lo=lo, hi=hi), f"directions with entries {lo} to {hi}, any length; one atom moved", budget=400 if deep else 60))
    us.append(Unit("shifted-tetra-P4mm", integer, dict(crystal="tetra-P4mm", shift=True, atom=1, lo=0, hi=2), "origin off the symmetry axis; directions with entries 0 to 2", budget=60))
    for i, (name, shift, vec) in enumerate([
        ("ortho-P212121", True, {0: [1, 0, 0], 1: [0, 1, 0]}), ("tetra-P4/mmm", False, {0: [1, 0, 0], 1: [-1, 0, 0]}), ("cubic-ReO3", False, {1: [1, 0, 0]}), ("cubic-perovskite", False, {2: [0, 0, 1], 1: [0, 0, -1]}),
        ("rutile", False, {2: [1, 1, 0], 3: [-1, -1, 0]}), ("rutile", False, {0: [0, 0, 1]}), ("cubic-P23", False, {0: [1, 1, 1]}), ("box-P-1", True, {2: [0, 0, 1]}), ("triclinic-P1", True, {0: [1, 2, 3]}),
        ("cubic-NaCl", False, {0: [1, 0, 0]}), ("cubic-NaCl", False, {5: [0, 1, 0]}),
    ]):  # fmt: skip
        us.append(Unit(f"collective-{i}-{name}", fixed, dict(crystal=name, shift=shift, vec=vec), "any length of the displacement", budget=60))
    d2 = [[[0, 0, 0], [4e-4, 0, 0], [0, -3e-4, 0]], [[0, 3e-4, 0], [0, 0, 0], [5e-4, 5e-4, -5e-4]]]
    d1 = [[[0, 0, 0], [4e-4, 0, 2e-4]], [[0, 3e-4, -4e-4], [0, 0, 0]]]
    for name, shift, vec, dist in [("triclinic-P-1", True, {1: [1, 0, 0]}, d2), ("monoclinic-P2/m", True, {1: [0, 1, 0]}, d2), ("ortho-Pmmm", True, {1: [0, 0, 1]}, d1), ("tetra-P4/mmm", False, {0: [1, 0, 0]}, d1), ("triclinic-P-1", True, {0: [0, 1, 0], 1: [0, 1, 0]}, d2)]:  # fmt: skip
        us.append(Unit(f"symprec-{name}-{len(vec)}", fixed, dict(crystal=name, shift=shift, vec=vec, distort=dist, symprec=0.02), "structures symmetric within 0.02 angstrom", budget=60))
    for k in ("distance", "angle"):
        us.append(Unit(f"tolerance-{k}", tolerance, dict(kind=k), "four tolerances", budget=60))
    return us + layouts(us, "integer-triclinic-P-1-1", "collective-1-tetra-P4/mmm", "integer-monoclinic-P21/c-0")
