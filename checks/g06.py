"""G06: neural-network predictions."""
from checks.common import *
from checks.g03 import POS as APART
from checks.g03 import separations

CLS = "ramannoodle.pmodel.torch._gnn.PotGNN"
GRAPHS = {"pair": (2, [22, 8], 8), "same": (2, [8, 8], 8), "three": (3, [22, 8, 8], 8), "path": (3, [8, 22, 8], 3.2)}


# seven atoms, no two half a cell apart along any axis
FAR = [[(k[0] * i * i + k[1] * i + k[2]) % 61 / 61 for k in ((19, 45, 0), (0, 23, 11), (5, 29, 40))] for i in range(7)]
GRAPHS["seven"] = (7, [22, 8, 8, 22, 14, 8, 8], 1.95)


def places(n):
    return APART[:n] if n <= len(APART) else FAR[:n]


def network(env, graph, mean=None, dev=None, passes=1, lattice="tric", seed=0):
    """A model of the graph; the same seed gives the same (unknown) weights."""
    n, numbers, cutoff = GRAPHS[graph]
    rs = env.imp("ramannoodle.structure._reference")
    ref = rs.ReferenceStructure(list(numbers), lattice_of(env, lattice), env.array(places(n)))
    z = env.array([[0.0] * 3] * 3)
    env.torch.manual_seed(seed)
    return env.get(CLS)(ref, cutoff, 3, 3, passes, 0.0, 5.0, z if mean is None else mean, z + 1 if dev is None else dev)


def state(m):
    return {k: v.detach().clone() if hasattr(v, "detach") else v for k, v in m.state_dict().items()}


def same_state(env, a, b):
    env.eq("names of the parameters", sorted(a), sorted(b))
    for k in a:
        if hasattr(a[k], "detach"):
            env.close(f"parameter {k}", a[k], b[k])
        else:
            env.eq(f"parameter {k}", a[k], b[k])


def conf(env, graph, name, size=0.05, coords=((0, 0),)):
    n = GRAPHS[graph][0]
    move = [[0, 0, 0] for _ in range(n)]
    for a, k in coords:
        move[a][k] = env.real(f"{name}{a}{k}", -size, size)
    return env.array(places(n)) + env.array(move)


def one(env, m, c):
    return m.calc_polarizabilities(env.array([c]))[0]


def symmetric(env, label, p):
    for i in range(3):
        for j in range(i):
            env.close(f"{label}: symmetric", p[i, j], p[j, i])


def batches(env, graph, count, passes):
    """Alone, in a batch, in any order, next to any others, before and after other calls."""
    mean, dev = env.symten("mean"), env.symten("dev", None, 0.5, 3)
    m = network(env, graph, mean, dev, passes)
    before = state(m)
    cs = [conf(env, graph, f"c{k}", coords=((k % 2, k % 3),)) for k in range(count)]
    alone = [one(env, m, c) for c in cs]
    order = env.perm("order", count)
    batch = env.array([cs[k] for k in order])
    keep = batch.copy()
    got = m.calc_polarizabilities(batch)
    env.eq("shape", tuple(got.shape), (count, 3, 3))
    for r, k in enumerate(order):
        symmetric(env, "prediction", got[r])
        env.close("in a batch as alone", got[r], alone[k])
    env.close("alone afterwards", one(env, m, cs[0]), alone[0])
    env.close("batch kept", batch, keep)
    same_state(env, state(m), before)


def chunks(env, count, spots):
    """More configurations than the network evaluates at a time."""
    m = network(env, "pair", env.symten("mean"), env.symten("dev", None, 0.5, 3))
    base = env.array(APART[:2])
    special = {k: conf(env, "pair", f"c{n}", coords=((0, n % 3),)) for n, k in enumerate(spots)}
    batch = env.array([special.get(k, base) for k in range(count)])
    got = m.calc_polarizabilities(batch)
    env.eq("shape", tuple(got.shape), (count, 3, 3))
    plain = one(env, m, base)
    for k in range(count):
        env.close("beyond the chunk size as alone", got[k], one(env, m, special[k]) if k in special else plain)


def images(env, graph, lattice, batch):
    """Whole-cell shifts and translations."""
    n = GRAPHS[graph][0]
    m = network(env, graph, lattice=lattice)
    c = conf(env, graph, "c")
    separations(env, [c])
    t = env.arr("t", (3,), -3, 3)
    shift = [[0, 0, 0] for _ in range(n)]
    a = env.choice("atom", n)
    shift[a][env.choice("axis", 3)] = env.pick("cells", [-2, -1, 1, 3])
    p = one(env, m, c)
    moved = c + t + env.array(shift)
    if batch:
        got = m.calc_polarizabilities(env.array([c, moved, c + env.array(shift)]))
        for k in range(3):
            env.close("image in a batch", got[k], p)
    else:
        env.close("image", one(env, m, moved), p)
    symmetric(env, "prediction", p)


def larger(env, graph):
    """A graph with many nodes: batch, order, periodic images."""
    mean, dev = env.symten("mean"), env.symten("dev", None, 0.5, 3)
    m = network(env, graph, mean, dev)
    n = GRAPHS[graph][0]
    cs = [conf(env, graph, "a", 0.01, ((2, 0),)), conf(env, graph, "b", 0.01, ((n - 1, 1),))]
    separations(env, cs)
    shift = [[0, 0, 0] for _ in range(n)]
    shift[env.pick("atom", [2, n - 1])][env.choice("axis", 3)] = 2
    cs.append(cs[0] + env.array(shift))
    want = [one(env, m, c) for c in cs[:2]]
    order = env.pick("order", [(0, 1, 2), (2, 0, 1)])
    got = m.calc_polarizabilities(env.array([cs[k] for k in order]))
    for r, k in enumerate(order):
        symmetric(env, "prediction", got[r])
        env.close("in a batch as alone", got[r], want[k % 2])


def scaled(env, graph):
    """Mean and deviation are the model's own."""
    mean, dev = env.symten("mean"), env.symten("dev", None, 0.5, 3)
    km, kd = mean.copy(), dev.copy()
    m = network(env, graph, mean, dev)
    raw = network(env, graph)
    cs = [conf(env, graph, f"c{k}", coords=((k % 2, k % 3),)) for k in range(2)]
    batch = env.array(cs)
    for k in range(2):
        env.close(f"call {k}", m.calc_polarizabilities(batch), raw.calc_polarizabilities(batch) * kd + km)
    env.close("mean kept", mean, km)
    env.close("deviation kept", dev, kd)


def modes(env, graph):
    """Whatever mode the model was left in and whatever it computed before, evaluation is evaluation."""
    m = network(env, graph)
    c, d = conf(env, graph, "c"), conf(env, graph, "d", coords=((1, 1),))
    p = one(env, m, c)
    before = state(m)
    what = env.choice("mode", 4)
    if what == 0:
        m.train()
    elif what == 1:
        m.eval()
    elif what == 2:
        m.eval()
        n = len(c)
        nums = env.torch.tensor([GRAPHS[graph][1]] * 3)
        m.forward(env.tensor(env.array([LATTICES["tric"]] * 3)), nums, env.tensor(env.array([d, c, d])))
    else:
        m.calc_polarizabilities(env.array([d, d, c, d]))
    env.close("prediction again", m.calc_polarizabilities(env.array([d, c]))[1], p)
    same_state(env, state(m), before)


def swapped(env):
    """Different weights are not assumed equal, different configurations may differ (guards against an empty claim)."""
    m = network(env, "pair")
    c, d = conf(env, "pair", "c"), conf(env, "pair", "d")
    a, b = one(env, m, c), one(env, m, d)
    if not env.symbolic:
        env.true("the network looks at the positions", bool((abs(a - b) > 0).any()) or abs(float((c - d).sum())) < 1e-3)
    shape = env.pick("shape", [(2, 3), (1, 3, 3), (1, 1, 3), (1, 2, 2), (1, 1, 2, 3)])
    env.raises("wrong shape", ValueError, m.calc_polarizabilities, env.np.zeros(shape))


def units(tier):
    deep = tier != "quick"
    us = [Unit("shapes", swapped, {}, "two atoms", stub_symmetry=True)]
    for g in ("pair", "same", "three", "path"):
        us.append(Unit(f"batch-{g}", batches, dict(graph=g, count=3 if g in ("pair", "same") or deep else 2, passes=1), "up to three configurations in every order, layers uninterpreted", stub_symmetry=True, budget=200))
        us.append(Unit(f"scaled-{g}", scaled, dict(graph=g), "two configurations, any mean and deviation", stub_symmetry=True, budget=100))
        us.append(Unit(f"modes-{g}", modes, dict(graph=g), "earlier calls and modes listed in the check", stub_symmetry=True, budget=100))
        for lat in ("tric", "left", "cubic") if g in ("pair", "same") or deep else ("tric",):
            for b in (False, True):
                us.append(Unit(f"images-{g}-{lat}-{'batch' if b else 'one'}", images, dict(graph=g, lattice=lat, batch=b), "any translation up to three cells, one atom shifted by whole cells", stub_symmetry=True, budget=200))
    us.append(Unit("batch-three-2", batches, dict(graph="three", count=2, passes=2), "two configurations, two message passes", stub_symmetry=True, budget=200))
    us.append(Unit("large-seven", larger, dict(graph="seven"), "seven atoms, two configurations and an image of one of them", stub_symmetry=True, budget=250))
    for count, spots in ((101, (0, 99, 100)), (205, (100, 150, 200, 204))):
        us.append(Unit(f"chunks-{count}", chunks, dict(count=count, spots=spots), f"{count} configurations, some of them symbolic", stub_symmetry=True, budget=300))
    return us
