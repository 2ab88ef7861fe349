"""G03: periodic neighbour graphs."""
from checks.common import *
from checks.g01 import listed

FN = "ramannoodle.pmodel.torch._utils._radius_graph_pbc"
# no two atoms half a cell apart along any axis
POS = [[0.125, 0.25, 0.375], [0.5, 0.5625, 0.8125], [0.25, 0.8125, 0.0625], [0.9375, 0.125, 0.65625]]
LATS = dict(LATTICES, small=[[2, 0, 0], [0.5, 3, 0], [0, 0, 2.5]])


def ints(x):
    return [[int(v) for v in row] for row in x]


def edges_of(env, out, count, atoms):
    """{(structure, first, second): row}; every index is in range and no edge is listed twice."""
    e, u, d = out
    e = ints(e)
    env.eq("rows of the edge list", len(e), 3)
    n = len(e[0])
    env.eq("shape of the vectors", tuple(u.shape), (n, 3))
    env.eq("shape of the distances", tuple(d.shape), (n, 1))
    found = {}
    for k in range(n):
        s, a, b = e[0][k], e[1][k], e[2][k]
        env.true("structure number", 0 <= s < count)
        env.true("nodes belong to the structure", s * atoms <= a < (s + 1) * atoms and s * atoms <= b < (s + 1) * atoms)
        key = (s, a - s * atoms, b - s * atoms)
        env.true("edge listed once", key not in found)
        found[key] = k
    return found, listed(env, u), listed(env, d)


def nearest(env, d, span=4):
    """Component of the displacement to the nearest image; ties are left out."""
    n = -span
    while n < span and bool(d > n + env.c(1, 2)):
        n += 1
    env.assume(d > n - env.c(499, 1000), d < n + env.c(499, 1000))
    bool(d > n)
    return d - n


def separations(env, pos):
    """Fractional displacement to the nearest image of every pair (before the code runs)."""
    out = {}
    for s in range(len(pos)):
        for a in range(len(pos[0])):
            for b in range(a + 1, len(pos[0])):
                out[s, a, b] = env.array([nearest(env, pos[s][b][k] - pos[s][a][k]) for k in range(3)])
    return out


def check(env, out, lat, pos, cutoff, seps):
    count, atoms = len(pos), len(pos[0])
    found, u, d = edges_of(env, out, count, atoms)
    for s in range(count):
        for a in range(atoms):
            env.true("no edge to itself", (s, a, a) not in found)
            for b in range(a + 1, atoms):
                c = seps[s, a, b] @ lat[s]
                sq = c[0] * c[0] + c[1] * c[1] + c[2] * c[2]
                own = env.sqrt(sq)
                near, far = own <= cutoff, own > cutoff
                for x, y, g in ((a, b, 1), (b, a, -1)):
                    k = found.get((s, x, y))
                    env.true(f"edge exactly within the cutoff: present is {k is not None}", near if k is not None else far)
                    if k is not None:
                        env.close("distance", d[k, 0], own)
                        env.close("unit vector", u[k] * own, c * g)


def run(env, lat, pos, cutoff):
    return env.get(FN)(env.tensor(lat), env.tensor(pos), cutoff)


def pair(env, lattice, coords):
    """Two atoms anywhere: the listed coordinates differ by any amount; the cutoff is any number."""
    lat = env.array([LATS[lattice]])
    first, second = [], []
    for k in range(3):
        x = env.real(f"x{k}", -1, 1)
        first.append(x)
        if k in coords:
            q = env.real(f"q{k}", 0.001, 0.499)
            r = q if env.flag(f"up{k}") else -q
            second.append(x + r + (env.pick(f"cells{k}", [-2, -1, 0, 1, 2]) if k == coords[0] else 0))
        else:
            second.append(x + env.c(POS[1][k] - POS[0][k]))
    pos = env.array([[first, second]])
    cutoff = env.real("cutoff", 0.25, 8)
    seps = separations(env, pos)
    lt, pt = env.tensor(lat), env.tensor(pos)
    out = env.get(FN)(lt, pt, cutoff)
    check(env, out, lat, pos, cutoff, seps)
    env.close("positions kept", pt, pos)
    env.close("lattice kept", lt, lat)


def group(env, lattice, atoms, coord, cutoff):
    """More atoms, one of them moving."""
    lat = env.array([LATS[lattice]])
    move = [[0, 0, 0] for _ in range(atoms)]
    move[0][coord] = env.real("x", -0.75, 0.75)
    pos = env.array([POS[:atoms]]) + env.array([move])
    seps = separations(env, pos)
    check(env, run(env, lat, pos, env.c(*cutoff)), lat, pos, env.c(*cutoff), seps)


def batch(env, atoms, count):
    """Structures with their own lattices; each one as if alone."""
    lats = env.array([LATS[k] for k in ("cubic", "tric", "small", "left")[:count]])
    pos = env.array([[[POS[(a + s) % 4][k] for k in range(3)] for a in range(atoms)] for s in range(count)])
    q = env.choice("moving structure", count)
    move = [[[0, 0, 0] for _ in range(atoms)] for _ in range(count)]
    move[q][1][0] = env.real("x", -0.6, 0.6)
    pos = pos + env.array(move)
    cutoff = env.real("cutoff", 1, 5)
    seps = separations(env, pos)
    out = run(env, lats, pos, cutoff)
    check(env, out, lats, pos, cutoff, seps)
    # the same with the structures in another order
    rev = list(range(count))[::-1]
    back = run(env, env.array([lats[s] for s in rev]), env.array([pos[s] for s in rev]), cutoff)
    f, u, d = edges_of(env, out, count, atoms)
    g, v, w = edges_of(env, back, count, atoms)
    env.eq("edges in another order", sorted((rev[s], a, b) for s, a, b in f), sorted(g))
    for (s, a, b), k in f.items():
        m = g[(rev[s], a, b)]
        env.close("vector in another order", u[k], v[m])
        env.close("distance in another order", d[k], w[m])


def images(env, lattice, atoms):
    """Whole-cell shifts of any atom and translations of the crystal change nothing."""
    lat = env.array([LATS[lattice]])
    pos = env.array([POS[:atoms]])
    move = [[0, 0, 0] for _ in range(atoms)]
    move[1][2] = env.real("x", -0.3, 0.3)
    pos = pos + env.array([move])
    t = env.arr("t", (3,), -3, 3)
    shift = [[0, 0, 0] for _ in range(atoms)]
    shift[env.choice("atom", atoms)][env.choice("axis", 3)] = env.pick("cells", [-3, -2, -1, 1, 2, 3])
    cutoff = env.c(7, 2)
    separations(env, pos)
    f, u, d = edges_of(env, run(env, lat, pos, cutoff), 1, atoms)
    g, v, w = edges_of(env, run(env, lat, pos + env.array([shift]) + t, cutoff), 1, atoms)
    env.eq("edges", sorted(f), sorted(g))
    for key in f:
        if key in g:
            env.close("vector", u[f[key]], v[g[key]])
            env.close("distance", d[f[key]], w[g[key]])


def edge_of_cutoff(env):
    """A pair at exactly the cutoff (numbers that are exact in floating point)."""
    axis = env.choice("axis", 3)
    p = [0.25, 0.25, 0.25]
    q = list(p)
    q[axis] += env.pick("separation", [0.25, -0.25, 0.125])
    lat, pos = env.array([[[8.0, 0, 0], [0, 8.0, 0], [0, 0, 8.0]]]), env.array([[p, q]])
    d = abs(q[axis] - p[axis]) * 8
    f, _, _ = edges_of(env, env.get(FN)(env.tensor(lat), env.tensor(pos), d), 1, 2)
    env.eq("both directions", sorted(f), [(0, 0, 1), (0, 1, 0)])
    f, _, _ = edges_of(env, env.get(FN)(env.tensor(lat), env.tensor(pos), d * 0.75), 1, 2)
    env.eq("none", sorted(f), [])


def alone(env):
    out = env.get(FN)(env.tensor(env.array([LATS["tric"]] * 2)), env.tensor(env.array([POS[:1]] * 2)), env.real("cutoff", 1, 100))
    f, _, _ = edges_of(env, out, 2, 1)
    env.eq("a single atom has no neighbour", sorted(f), [])


def large(env, atoms, count):
    """Larger cells and batches; one atom moves a little."""
    lats = env.array([LATS[k] for k in ("cubic", "tric", "small", "left", "ortho")] * 3)[:count]
    pos = env.array([[[env.c((31 * a * (k + 1) + 7 * k + 13 * s * (k + 2)) % 61, 61) for k in range(3)] for a in range(atoms)] for s in range(count)])
    q, a = env.pick("moving structure", [0, count - 1]), env.pick("moving atom", [0, atoms - 1])
    pos[q, a, 1] = pos[q, a, 1] + env.real("x", 0.001, 0.004)
    cutoff = env.pick("cutoff", [env.c(61, 40), env.c(127, 40)])
    seps = separations(env, pos)
    check(env, run(env, lats, pos, cutoff), lats, pos, cutoff, seps)


def units(tier):
    deep = tier != "quick"
    us = [Unit("at the cutoff", edge_of_cutoff, {}, "separations listed in the check"), Unit("single atoms", alone, {}, "two structures of one atom")]
    for lattice in LATS:
        for coords in [[0], [1], [2], [0, 1], [1, 2], [2, 0]] + [[0, 1, 2]]:
            us.append(Unit(f"pair-{lattice}-{''.join(map(str, coords))}", pair, dict(lattice=lattice, coords=coords), "two atoms anywhere, listed coordinates apart by anything up to two cells and a half, cutoff 0.25 to 8", budget=150 if not deep else 600))
    for atoms, coord, cutoff in ((3, 0, (5, 2)), (3, 2, (7, 2)), (4, 1, (3, 1))):
        us.append(Unit(f"atoms-{atoms}-{coord}", group, dict(lattice="tric", atoms=atoms, coord=coord, cutoff=cutoff), f"{atoms} atoms, one coordinate", budget=150))
    for atoms, count in ((2, 2), (3, 2), (2, 3)):
        us.append(Unit(f"batch-{count}x{atoms}", batch, dict(atoms=atoms, count=count), f"{count} structures of {atoms} atoms with different lattices", budget=200))
    for lattice in ("tric", "left"):
        us.append(Unit(f"images-{lattice}", images, dict(lattice=lattice, atoms=3), "three atoms, any translation up to three cells, one atom shifted by whole cells", budget=200, max_paths=1500))
    for atoms, count in ((12, 1), (5, 6)) if not deep else ((12, 1), (5, 6), (24, 2), (3, 15)):
        us.append(Unit(f"large-{count}x{atoms}", large, dict(atoms=atoms, count=count), f"{count} structures of {atoms} atoms, one moving along a short way, two cutoffs", budget=200))
    return us + layouts(us, "pair-tric-20", "pair-skewed-1")
