"""Building blocks for the polarizability-model harnesses."""
from checks.common import *


def ref_structure(env, lattice="tric", n=2, numbers=None):
    rs = env.imp("ramannoodle.structure._reference")
    return rs.ReferenceStructure(list(numbers or [22, 8, 8, 22][:n]), lattice_of(env, lattice), env.array(POS[:n]))


def model_classes(env):
    return env.get("ramannoodle.pmodel._interpolation.InterpolationModel"), env.get("ramannoodle.pmodel._art.ARTModel")


def invalid_dof(env):
    return env.get("ramannoodle.exceptions.InvalidDOFException")


def at(env, lattice, n, moves):
    """Positions of the reference with atoms moved: moves = [(amplitude, unit Cartesian displacement (n,3))]."""
    pos = env.array(POS[:n])
    inv = inv3(env, lattice_of(env, lattice))
    for amp, u in moves:
        pos = pos + (u @ inv) * amp
    return pos


def predict(model, *configs):
    """Polarizabilities of a list of configurations, evaluated one batch at a time."""
    np = configs[0][0]
    return model.calc_polarizabilities(np.array([c for c in configs[0][1]]))


def eval_one(env, model, pos):
    return model.calc_polarizabilities(env.array(pos).reshape((1,) + tuple(env.array(pos).shape)))[0]


def lagrange(env, xs, ys, v):
    """Value of the polynomial through the points."""
    out = None
    for i in range(len(xs)):
        w = env.c(1)
        for j in range(len(xs)):
            if j != i:
                w = w * (v - xs[j]) / (xs[i] - xs[j])
        t = ys[i] * w
        out = t if out is None else out + t
    return out


# orthogonal unit displacements (Cartesian) of two atoms
def basis(env, kind, n=2):
    z = [0, 0, 0]
    sets = {
        "atom": [[[1, 0, 0], z], [[0, 1, 0], z], [z, [0, 0, 1]], [z, [0, 1, 0]]],
        "skew": [[[2, 1, 2], z], [[-2, 2, 1], z], [[1, 2, -2], z], [z, [2, -1, -2]]],
        "mode": [[[1, 0, 0], [1, 0, 0]], [[1, 0, 0], [-1, 0, 0]], [[0, 3, 0], [0, 0, 4]], [[0, 4, 0], [0, 0, -3]]],
        "big": [[[3, 0, 4], [0, 12, 0]], [[4, 0, -3], [0, 0, 0]], [[36, 0, 48], [0, -25, 0]], [z, [0, 0, 5]]],
    }
    out = []
    for v in sets[kind]:
        v = v + [z] * (n - 2)
        out.append(unit_of(env, v))
    return out, [env.array(v + [z] * (n - 2)) for v in sets[kind]]
