"""G01: polarizability vectors and tensors."""
from checks.common import *

U = "ramannoodle.dataset.torch.utils."
ORDER = [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]
SLOT = [[0, 3, 4], [3, 1, 5], [4, 5, 2]]


def fns(env):
    return env.get(U + "polarizability_vectors_to_tensors"), env.get(U + "polarizability_tensors_to_vectors")


def listed(env, x):
    """Tensor as nested entries of the environment's arrays."""
    return env.array(x.detach().numpy()) if not env.symbolic else x.__vsym_array__()


def vectors(env, n):
    to_t, to_v = fns(env)
    v = env.arr("v", (n, 6), -50, 50)
    tv = env.tensor(v)
    t = to_t(tv)
    env.eq("tensor shape", tuple(t.shape), (n, 3, 3))
    a = listed(env, t)
    for s in range(n):
        for i in range(3):
            for j in range(3):
                env.close(f"component {i}{j}", a[s, i, j], v[s, SLOT[i][j]])
    b = to_v(t)
    env.eq("vector shape", tuple(b.shape), (n, 6))
    env.close("back to vectors", b, v)
    env.close("argument kept", tv, v)
    if n > 1:
        one = to_t(env.tensor(v[1:2]))
        env.close("each sample on its own", one[0], t[1])


def tensors(env, n):
    to_t, to_v = fns(env)
    p = env.symten("p", n, -50, 50)
    tp = env.tensor(p)
    v = to_v(tp)
    env.eq("vector shape", tuple(v.shape), (n, 6))
    a = listed(env, v)
    for s in range(n):
        for k, (i, j) in enumerate(ORDER):
            env.close(f"slot {k}", a[s, k], p[s, i, j])
    env.close("back to tensors", to_t(v), p)
    env.close("argument kept", tp, p)
    if n > 1:
        env.close("each sample on its own", to_v(env.tensor(p[1:2]))[0], v[1])


def magnitude(env, n):
    """Values of any magnitude, side by side."""
    to_t, to_v = fns(env)
    ks = [-9, -6, -3, 0, 3, 6, 9]
    k = env.choice("shift", 7)
    ex = [[10 ** ks[(s + c * 2 + k) % 7] if ks[(s + c * 2 + k) % 7] >= 0 else env.c(1, 10 ** -ks[(s + c * 2 + k) % 7]) for c in range(6)] for s in range(n)]
    raw = env.arr("v", (n, 6), 1, 9)
    sign = env.flag("sign")
    v = env.array([[raw[s, c] * ex[s][c] * (-1 if (s + c) % 2 == sign else 1) for c in range(6)] for s in range(n)])
    a = listed(env, to_t(env.tensor(v)))
    b = listed(env, to_v(to_t(env.tensor(v))))
    for s in range(n):
        for i in range(3):
            for j in range(3):
                q = SLOT[i][j]
                env.close(f"component {i}{j}", a[s, i, j] / ex[s][q], v[s, q] / ex[s][q], 1e-5)
        for q in range(6):
            env.close(f"slot {q}", b[s, q] / ex[s][q], v[s, q] / ex[s][q], 1e-5)


def empty(env):
    to_t, to_v = fns(env)
    t = to_t(env.torch.zeros((0, 6)))
    env.eq("no samples", tuple(t.shape), (0, 3, 3))
    env.eq("no samples back", tuple(to_v(env.torch.zeros((0, 3, 3))).shape), (0, 6))


def wrong(env):
    to_t, to_v = fns(env)
    z = env.torch.zeros
    shape = env.pick("vector shape", [(2, 5), (2, 7), (6,), (1, 2, 6), (2, 3, 3), (6, 2), (2, 1)])
    env.raises("wrong vector size", ValueError, to_t, z(shape))
    shape = env.pick("tensor shape", [(3, 3), (2, 3, 2), (2, 2, 3), (2, 6), (2, 3, 3, 3), (2, 9), (2, 4, 4), (2, 1, 3)])
    env.raises("wrong tensor size", ValueError, to_v, z(shape))
    bad = env.pick("not a tensor", [[1.0] * 6, None, "x"])
    env.raises("not a tensor (vectors)", TypeError, to_t, bad)
    env.raises("not a tensor (tensors)", TypeError, to_v, bad)


def dataset(env, n):
    """The dataset's own flattening uses the same order."""
    _, to_v = fns(env)
    ds = env.get("ramannoodle.dataset.torch._dataset.PolarizabilityDataset")
    base = env.array([[[1, 2, 3], [2, 4, 5], [3, 5, 6]], [[2, 4, 5], [4, 8, 9], [5, 9, 7]], [[0, 3, 1], [3, 1, 2], [1, 2, 9]]][:n])
    pol = base + env.symten("p", n, -0.25, 0.25)
    d = ds(lattice_of(env, "tric"), [22, 8], env.array([POS[:2]] * n), pol)
    own = listed(env, env.tensor(d.scaled_polarizabilities))
    mean = pol[0]
    for s in range(1, n):
        mean = mean + pol[s]
    mean = mean / n
    for k, (i, j) in enumerate(ORDER):
        var = (pol[0, i, j] - mean[i, j]) * (pol[0, i, j] - mean[i, j])
        for s in range(1, n):
            var = var + (pol[s, i, j] - mean[i, j]) * (pol[s, i, j] - mean[i, j])
        dev = env.sqrt(var / n)
        for s in range(n):
            env.close(f"slot {k} of the scaled values", own[s, k] * dev, pol[s, i, j] - mean[i, j], 1e-5)
    one = env.array([[1.0] * 3] * 3)
    d.scale_polarizabilities(one - one, one)
    env.close("unscaled values in vector form", d.scaled_polarizabilities, to_v(env.tensor(pol)), 1e-5)
    for s in range(n):
        env.close("vector of an item", d[s][3], to_v(env.tensor(pol))[s], 1e-5)


def model(env, n):
    """Vectors given by a network and the predicted tensors."""
    from checks.g06 import network

    to_t, to_v = fns(env)
    m = network(env, "pair")
    pos = env.array([POS[:2]] * n)
    batch = pos + env.array([[[env.real(f"x{s}", -0.05, 0.05), 0, 0], [0, 0, 0]] for s in range(n)])
    lat = env.tensor(env.array([LATTICES["tric"]] * n))
    nums = env.torch.tensor([[22, 8]] * n)
    m.eval()
    v = m.forward(lat, nums, env.tensor(batch))
    p = m.calc_polarizabilities(batch)
    env.close("prediction is the tensor of the vector", p, to_t(v), 1e-5)
    env.close("vector of the prediction", to_v(env.tensor(p)), v, 1e-5)


def large(env, n):
    """Many samples, one of them free."""
    to_t, to_v = fns(env)
    k = env.pick("sample", [0, n // 2, n - 1])
    v = filled(env, (n, 6), -5, 5, free=[6 * k + i for i in range(6)], span=(-50, 50), name="v")
    t = to_t(env.tensor(v))
    a = listed(env, t)
    env.eq("tensor shape", tuple(t.shape), (n, 3, 3))
    for i in range(3):
        for j in range(3):
            env.close(f"component {i}{j}", a[:, i, j], v[:, SLOT[i][j]])
    env.close("back to vectors", to_v(t), v)
    env.close("back to tensors", to_t(to_v(t)), t)


def units(tier):
    us = [Unit("empty", empty, {}, "no samples", 20, 5), Unit("wrong sizes", wrong, {}, "every listed wrong size", 60)]
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 7):
        us.append(Unit(f"vectors-{n}", vectors, dict(n=n), f"{n} samples, values up to 50"))
        us.append(Unit(f"tensors-{n}", tensors, dict(n=n), f"{n} symmetric tensors, values up to 50"))
    for n in (1, 3):
        us.append(Unit(f"magnitude-{n}", magnitude, dict(n=n), f"{n} samples, values from 1e-9 to 9e9 side by side"))
    for n in (2, 3):
        us.append(Unit(f"dataset-{n}", dataset, dict(n=n), f"{n} samples"))
        us.append(Unit(f"network-{n}", model, dict(n=n), f"{n} configurations of two atoms, layers uninterpreted", stub_symmetry=True))
    for n in (40, 257, 300, 512) if tier == "quick" else (40, 257, 300, 501, 512, 1025, 1030):
        us.append(Unit(f"large-{n}", large, dict(n=n), f"{n} samples, one free"))
    return us + layouts(us, "tensors-3", "vectors-3", "dataset-3")
