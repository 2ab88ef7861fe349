"""G02: scaling of datasets."""
from checks.common import *
from checks.g01 import ORDER, listed

DS = "ramannoodle.dataset.torch._dataset.PolarizabilityDataset"
BASE = [
    [[1, 2, 3], [2, 4, 5], [3, 5, 6]],
    [[2, 4, 5], [4, 8, 9], [5, 9, 7]],
    [[0, 3, 1], [3, 1, 2], [1, 2, 9]],
    [[5, 0, 2], [0, 6, 7], [2, 7, 3]],
]
T = 1e-5


def make(env, name, n, shift=0):
    """Samples whose deviation is never near zero."""
    pol = env.array([BASE[(k + shift) % 4] for k in range(n)]) + env.symten(name, n, -0.25, 0.25)
    pos = env.arr(name + "x", (n, 2, 3), 0.05, 0.95)
    return env.get(DS)(lattice_of(env, "tric"), [22, 8], pos, pol), pos, pol


def vec(env, p):
    return env.array([[p[s, i, j] for i, j in ORDER] for s in range(len(p))])


def stats(env, pol):
    n = len(pol)
    mean = pol[0]
    for s in range(1, n):
        mean = mean + pol[s]
    mean = mean / n
    dev = [[None] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            v = None
            for s in range(n):
                t = (pol[s, i, j] - mean[i, j]) * (pol[s, i, j] - mean[i, j])
                v = t if v is None else v + t
            dev[i][j] = env.sqrt(v / n)
    return mean, env.array(dev)


def unchanged(env, d, pos, pol, label):
    env.eq(f"{label}: length", len(d), len(pol))
    env.eq(f"{label}: samples", d.num_samples, len(pol))
    env.eq(f"{label}: atoms", d.num_atoms, 2)
    env.eq(f"{label}: numbers", [int(x) for x in d.atomic_numbers], [22, 8])
    env.close(f"{label}: positions", d.positions, pos, T)
    env.close(f"{label}: unscaled", d.polarizabilities, pol, T)
    sc = env.tensor(d.scaled_polarizabilities)
    env.eq(f"{label}: scaled shape", tuple(sc.shape), (len(pol), 6))
    for s in range(len(pol)):
        lat, nums, x, y = d[s]
        env.close(f"{label}: lattice of an item", lat, lattice_of(env, "tric"), T)
        env.eq(f"{label}: numbers of an item", [int(q) for q in nums], [22, 8])
        env.close(f"{label}: positions of an item", x, pos[s], T)
        env.close(f"{label}: scaled value of an item", y, sc[s], T)


def scaled_by(env, d, pol, mean, dev, label):
    sc = listed(env, env.tensor(d.scaled_polarizabilities))
    env.eq(f"{label}: shape", tuple(sc.shape), (len(pol), 6))
    for s in range(len(pol)):
        for k, (i, j) in enumerate(ORDER):
            env.close(f"{label}: component {k} scaled back", sc[s, k] * dev[i, j] + mean[i, j], pol[s, i, j], T)


def own(env, n):
    d, pos, pol = make(env, "p", n)
    mean, dev = stats(env, pol)
    env.close("mean", d.mean_polarizability, mean, T)
    got = env.array(d.stddev_polarizability)
    env.close("deviation", got, dev, T)
    scaled_by(env, d, pol, mean, dev, "own scaling")
    unchanged(env, d, pos, pol, "fresh")
    env.raises("no sample past the end", IndexError, lambda: d[n])


def given(env, n, steps):
    """Any sequence of rescalings: only the last one counts."""
    d, pos, pol = make(env, "p", n)
    own_mean, own_dev = stats(env, pol)
    for k in range(steps):
        if env.flag(f"own{k}"):
            mean, dev = d.mean_polarizability, d.stddev_polarizability
            env.close("own mean", mean, own_mean, T)
            mean, dev = own_mean, own_dev
        else:
            mean, dev = env.arr(f"m{k}", (3, 3)), env.arr(f"d{k}", (3, 3), 0.5, 4)
        km, kd = mean.copy(), dev.copy()
        r = d.scale_polarizabilities(mean, dev)
        env.close("given mean kept", mean, km)
        env.close("given deviation kept", dev, kd)
        scaled_by(env, d, pol, mean, dev, f"scaling {k}")
    unchanged(env, d, pos, pol, "rescaled")
    env.close("own mean afterwards", d.mean_polarizability, own_mean, T)
    env.close("own deviation afterwards", d.stddev_polarizability, own_dev, T)


def narrow(env, size):
    """Deviations of any size count, small and large ones too."""
    base = env.array([BASE[k] for k in range(2)])
    pol = (base + env.symten("p", 2, -0.25, 0.25)) * env.c(1, size) + 7
    if size < 1:
        size = 1 / env.c(round(1 / size))
        pol = (base + env.symten("q", 2, -0.25, 0.25)) / size
    pos = env.arr("x", (2, 2, 3), 0.05, 0.95)
    d = env.get(DS)(lattice_of(env, "tric"), [22, 8], pos, pol)
    mean, dev = stats(env, pol)
    env.close("deviation", (env.array(d.stddev_polarizability) - dev) * size, env.zero(dev), T)
    sc = listed(env, env.tensor(d.scaled_polarizabilities))
    for k, (i, j) in enumerate(ORDER):
        env.close(f"component {k} scaled back", (sc[0, k] * dev[i, j] + mean[i, j] - pol[0, i, j]) * size, env.c(0), T)
    given_ = env.arr("d", (3, 3), 0.000001, 1000)
    d.scale_polarizabilities(mean, given_)
    sc = listed(env, env.tensor(d.scaled_polarizabilities))
    for k, (i, j) in enumerate(ORDER):
        env.close(f"component {k} of the given deviation", (sc[0, k] * given_[i, j] + mean[i, j] - pol[0, i, j]) * size, env.c(0), T)


def whole(env):
    """Whole-number polarizabilities and positions."""
    pol = [[[1, 2, 3], [2, 4, 5], [3, 5, 6]], [[2, 4, 5], [4, 8, 9], [5, 9, 7]], [[0, 3, 1], [3, 1, 2], [1, 2, 9]]]
    pos = [[[0, 0, 0], [0, 1, 0]]] * 3
    which = env.pick("whole", ["polarizabilities", "positions", "all"])
    given = lambda name, x: env.ints(x) if which in (name, "all") else env.array(x)
    if which == "positions":
        pol = env.array(pol) + env.symten("d", 3, -0.25, 0.25)
        d = env.get(DS)(lattice_of(env, "tric"), [22, 8], env.ints(pos), pol)
    else:
        d = env.get(DS)(given("lattice", LATTICES["ortho"]), [22, 8], given("positions", pos), env.ints(pol))
    pol = env.array(pol)
    mean, dev = stats(env, pol)
    env.close("mean", d.mean_polarizability, mean, T)
    env.close("deviation", env.array(d.stddev_polarizability), dev, T)
    env.close("positions", d.positions, pos, T)
    env.close("unscaled", d.polarizabilities, pol, T)
    scaled_by(env, d, pol, mean, dev, "whole")
    mean, dev = env.symten("mean"), env.array([[2, 3, 4], [3, 5, 6], [4, 6, 7]])
    d.scale_polarizabilities(mean, env.ints([[2, 3, 4], [3, 5, 6], [4, 6, 7]]))
    scaled_by(env, d, pol, mean, dev, "given deviation")
    d.scale_polarizabilities(env.ints([[1, 0, 2], [0, 3, 1], [2, 1, 9]]), dev)
    scaled_by(env, d, pol, env.array([[1, 0, 2], [0, 3, 1], [2, 1, 9]]), dev, "given mean")


def two(env):
    """A validation set scaled with the training set's numbers."""
    a, apos, apol = make(env, "a", 2)
    b, bpos, bpol = make(env, "b", 3, 1)
    mean, dev = stats(env, apol)
    bm, bd = stats(env, bpol)
    b.scale_polarizabilities(a.mean_polarizability, a.stddev_polarizability)
    scaled_by(env, a, apol, mean, dev, "training set")
    scaled_by(env, b, bpol, mean, dev, "validation set")
    a.scale_polarizabilities(bm, bd)
    scaled_by(env, a, apol, bm, bd, "training set again")
    scaled_by(env, b, bpol, mean, dev, "validation set again")
    unchanged(env, a, apos, apol, "training set")
    unchanged(env, b, bpos, bpol, "validation set")


def wrong(env):
    d, pos, pol = make(env, "p", 2)
    mean, dev = stats(env, pol)
    z = env.np.zeros
    shape = env.pick("shape", [(6,), (3,), (2, 3), (3, 2), (1, 3, 3), (2, 3, 3), (4, 4)])
    if env.flag("mean"):
        env.raises("wrong mean", ValueError, d.scale_polarizabilities, z(shape), dev)
    else:
        env.raises("wrong deviation", ValueError, d.scale_polarizabilities, mean, z(shape))
    scaled_by(env, d, pol, mean, dev, "after the refusal")
    shapes = env.pick("arguments", [((2, 3), 2, (2, 2, 3), (2, 3, 3)), ((3, 3), 3, (2, 2, 3), (2, 3, 3)), ((3, 3), 2, (3, 2, 3), (2, 3, 3)), ((3, 3), 2, (2, 2, 3), (2, 6)),
                                    ((3, 3), 2, (2, 3), (2, 3, 3)), ((3, 3), 2, (2, 2, 2), (2, 3, 3))])  # fmt: skip
    env.raises("wrong dataset", ValueError, env.get(DS), z(shapes[0]), [8] * shapes[1], z(shapes[2]), z(shapes[3]))


def large(env, n):
    """Many samples, one of them free."""
    k = env.pick("sample", [0, n // 2, n - 1])
    pol = filled_tensors(env, n, [], name="p")
    pol[k] = pol[k] + env.symten("free", None, -0.5, 0.5)
    pos = filled(env, (n, 2, 3), 0.05, 0.95)
    d = env.get(DS)(lattice_of(env, "tric"), [22, 8], pos, pol)
    mean, dev = stats(env, pol)
    env.close("mean", d.mean_polarizability, mean, T)
    env.close("deviation", env.array(d.stddev_polarizability), dev, T)
    scaled_by(env, d, pol, mean, dev, "own scaling")
    given_ = env.arr("d", (3, 3), 0.5, 4)
    d.scale_polarizabilities(mean, given_)
    scaled_by(env, d, pol, mean, given_, "given scaling")
    unchanged(env, d, pos, pol, "rescaled")


def units(tier):
    us = [Unit("two datasets", two, {}, "two and three samples", budget=120), Unit("wrong sizes", wrong, {}, "every listed wrong size", budget=120)]
    us.append(Unit("whole", whole, {}, "three samples, integer arrays for some or all arguments", budget=120))
    for size in (1000, 100000, 1e-4):
        us.append(Unit(f"narrow-{size}", narrow, dict(size=size), f"two samples whose components differ by about {1 / size:g}, given deviations from 1e-6 to 1000", budget=120))
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        us.append(Unit(f"own-{n}", own, dict(n=n), f"{n} samples, components around a base pattern", budget=120))
        for steps in (1, 2) if tier == "quick" else (1, 2, 3):
            us.append(Unit(f"given-{n}-{steps}", given, dict(n=n, steps=steps), f"{n} samples, {steps} rescalings", budget=150))
    for n in (12, 65, 70) if tier == "quick" else (12, 65, 70, 129, 200):
        us.append(Unit(f"large-{n}", large, dict(n=n), f"{n} samples, one free", budget=150))
    return us + layouts(us, "own-3", "given-2-2", "large-12")
