"""Shared building blocks of harnesses (work on symbolic and concrete values alike)."""
from vsym.harness import Unit

POS = [[0.125, 0.25, 0.375], [0.625, 0.5, 0.875], [0.25, 0.75, 0.0625], [0.9375, 0.125, 0.5]]
DIRS = [[1, 0, 0], [1, 2, -2], [-2, 3, 6], [0, 3, -4]]
LATTICES = {
    "cubic": [[4, 0, 0], [0, 4, 0], [0, 0, 4]],
    "ortho": [[4, 0, 0], [0, 5, 0], [0, 0, 6]],
    "tric": [[4, 0, 0], [1, 5, 0], [-1, 0.5, 6]],
    "left": [[4, 1, 0], [0, 5, 1], [1, 0, -6]],
    # unusual shapes: a slab with much vacuum, a flat cell, a strongly skewed one, a large one
    "long": [[3, 0, 0], [0.5, 4, 0], [-1, 2, 210]],
    "flat": [[90, 0, 0], [10, 75, 0], [0.25, -0.5, 2]],
    "skewed": [[4, 0, 0], [11, 1.25, 0], [-9, 13, 1.5]],
    "big": [[310, 0, 0], [25, 290, -40], [0, 60, 350]],
}


def other_layout(env, fn, **params):
    env.other_layout = True
    fn(env, **params)


def layouts(us, *names):
    """The named units with every array in another memory layout (column-major, or every second entry of a longer one)."""
    by = {u.name: u for u in us}
    return [Unit(f"layout-{n}", other_layout, dict(fn=by[n].fn, **by[n].params), by[n].bounds + "; arrays in column-major or strided memory", budget=by[n].budget, stub_symmetry=by[n].stub_symmetry, max_paths=by[n].max_paths) for n in names if n in by]


def lattice_of(env, name):
    return env.array(LATTICES[name])


def det3(m):
    return (
        m[0, 0] * (m[1, 1] * m[2, 2] - m[1, 2] * m[2, 1])
        - m[0, 1] * (m[1, 0] * m[2, 2] - m[1, 2] * m[2, 0])
        + m[0, 2] * (m[1, 0] * m[2, 1] - m[1, 1] * m[2, 0])
    )


def inv3(env, m):
    """Inverse by the adjugate (independent of the library)."""
    d = det3(m)
    rows = []
    for i in range(3):
        row = []
        for j in range(3):
            a, b = [x for x in range(3) if x != j]
            p, q = [x for x in range(3) if x != i]
            c = m[a, p] * m[b, q] - m[a, q] * m[b, p]
            row.append((c if (i + j) % 2 == 0 else -c) / d)
        rows.append(row)
    return env.array(rows)


def norm_of(env, v):
    """Euclidean norm of all entries."""
    t = env.c(0)
    for x in env.array(v).reshape(-1):
        t = t + x * x
    return env.sqrt(t)


def unit_of(env, v):
    return env.array(v) / norm_of(env, v)


def filled(env, shape, lo=-2, hi=2, step=37, den=64, free=(), name="free", span=None):
    """A large array of distinct-looking fixed values, with free ones at the given flat places."""
    total = 1
    for k in shape:
        total *= k
    vals = [env.c(lo) + env.c((step * k + 11) % den, den) * (hi - lo) for k in range(total)]
    for q, k in enumerate(free):
        vals[k % total] = env.real(f"{name}{q}", *(span or (lo, hi)))
    return env.array(vals).reshape(shape)


def filled_tensors(env, n, free=(), name="free"):
    """n symmetric tensors of fixed values, the listed ones free."""
    out = []
    for k in range(n):
        if k in free:
            out.append(env.symten(f"{name}{k}"))
            continue
        v = [env.c((17 * k + 29 * j + 5) % 61, 32) - (k + j) % 2 for j in range(6)]
        out.append(env.array([[v[0], v[3], v[4]], [v[3], v[1], v[5]], [v[4], v[5], v[2]]]))
    return env.array(out)
