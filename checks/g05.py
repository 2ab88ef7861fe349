"""G05: rotations onto edge directions."""
from checks.common import *
from checks.g01 import listed

FN = "ramannoodle.pmodel.torch._utils.get_rotations"
# rows of rational length
FIXED = [[3, 4, 0], [-3, 0, 4], [1, 2, 2], [-2, 3, -6], [0, 0, 5], [0, -7, 0], [-1, -2, 2], [0, 3, 4], [-4, 4, 7], [6, -2, 3]]
AXIS = [[1, 0, 0], [-1, 0, 0]]


def proper(env, label, r, u):
    """r is a rotation and takes x onto the unit vector u."""
    rrt = r @ r.T
    env.close(f"{label}: orthogonal", rrt, env.array([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]))
    env.close(f"{label}: determinant", det3(r), env.c(1))
    env.close(f"{label}: x goes to the target", r[:, 0], u)


def sym_unit(env, name, kind):
    """Unit vectors: any on a great circle, or any at all."""
    c, s = env.unit(name)
    z = env.c(0)
    if kind == "xy":
        return env.array([c, s, z])
    if kind == "xz":
        return env.array([c, z, s])
    if kind == "yz":
        return env.array([z, c, s])
    if kind == "tilt":
        return env.array([c, env.c(3, 5) * s, env.c(4, 5) * s])
    if kind == "lat":
        return env.array([env.c(3, 5) * c, env.c(3, 5) * s, env.c(4, 5)])
    d, t = env.unit(name + "t")
    return env.array([c, s * d, s * t])


def symbolic(env, kind):
    u = sym_unit(env, "u", kind)
    length = env.real("length", 0.01, 100)
    t = env.tensor(env.array([u * length]))
    r = listed(env, env.get(FN)(t))
    env.eq("shape", tuple(r.shape), (1, 3, 3))
    proper(env, "target", r[0], u)
    env.close("argument kept", t, env.array([u * length]))


def length_only(env):
    """Fixed directions (axes and others), every length; batches of three in any order."""
    rows = [env.pick(f"row{k}", [AXIS[0], AXIS[1], FIXED[3 * k], FIXED[3 * k + 1], FIXED[3 * k + 2]]) for k in range(3)]
    ls = [env.real(f"l{k}", 0.01, 100) for k in range(3)]
    us = [unit_of(env, env.array(r)) for r in rows]
    t = env.tensor(env.array([u * s for u, s in zip(us, ls)]))
    r = listed(env, env.get(FN)(t))
    env.eq("shape", tuple(r.shape), (3, 3, 3))
    for k in range(3):
        proper(env, f"row {k}", r[k], us[k])


def batch(env, other):
    """A row does not depend on its neighbours."""
    u = sym_unit(env, "u", "tilt")
    length = env.real("length", 0.01, 100)
    o = unit_of(env, env.array(other)) * env.real("m", 0.01, 100)
    rows = [u * length, o]
    flip = env.flag("flip")
    if flip:
        rows.reverse()
    r = listed(env, env.get(FN)(env.tensor(env.array(rows))))
    alone = listed(env, env.get(FN)(env.tensor(env.array([u * length]))))
    env.close("the same alone", r[1 if flip else 0], alone[0])
    proper(env, "in a batch", r[1 if flip else 0], u)
    proper(env, "neighbour", r[0 if flip else 1], unit_of(env, env.array(other)))


def extremes(env, kind):
    """Very short and very long targets."""
    u = sym_unit(env, "u", kind)
    rows, us = [], []
    for k, (lo, hi) in enumerate([(10**-5, 10**-2), (10**2, 10**6)]):
        v = u if env.flag(f"free{k}") else unit_of(env, env.array(env.pick(f"fixed{k}", FIXED[k : k + 3] + AXIS)))
        us.append(v)
        rows.append(v * env.real(f"l{k}", lo, hi))
    r = listed(env, env.get(FN)(env.tensor(env.array(rows))))
    for k in range(2):
        proper(env, f"row {k}", r[k], us[k])


def empty(env):
    env.eq("no targets", tuple(env.get(FN)(env.torch.zeros((0, 3))).shape), (0, 3, 3))


def large(env, n):
    """Many rows, one of them free; rows along +x and -x among them."""
    k = env.pick("row", [0, n // 2, n - 1])
    u = sym_unit(env, "u", "tilt")
    length = env.real("length", 0.01, 100)
    rows = [unit_of(env, env.array((FIXED + AXIS)[q * 5 % 12])) for q in range(n)]
    rows[k] = u
    sizes = [env.c(1 + q % 7, 1 + q % 3) for q in range(n)]
    sizes[k] = length
    r = listed(env, env.get(FN)(env.tensor(env.array([x * s for x, s in zip(rows, sizes)]))))
    env.eq("shape", tuple(r.shape), (n, 3, 3))
    for q in range(n):
        proper(env, f"row {q}", r[q], rows[q])


def units(tier):
    us = [Unit("lengths", length_only, {}, "three rows, directions listed in the check, lengths 0.01 to 100", budget=150, max_paths=400),
          Unit("empty", empty, {}, "no targets")]  # fmt: skip
    for kind in ("xy", "xz", "yz", "tilt", "lat", "any"):
        us.append(Unit(f"direction-{kind}", symbolic, dict(kind=kind), "every unit vector of the family, lengths 0.01 to 100", budget=120))
    for kind in ("xy", "tilt"):
        us.append(Unit(f"extremes-{kind}", extremes, dict(kind=kind), "lengths from 1e-5 to 1e6", budget=120))
    for k, o in enumerate([[1, 0, 0], [-1, 0, 0], [1, 2, 2], [0, -3, 4]]):
        us.append(Unit(f"batch-{k}", batch, dict(other=o), "two rows in both orders", budget=120))
    for n in (24, 110, 129) if tier == "quick" else (24, 110, 257, 300):
        us.append(Unit(f"large-{n}", large, dict(n=n), f"{n} rows, one free", budget=150))
    return us + layouts(us, "lengths", "batch-2")
