"""S01: wrapping and minimum-image displacements."""
from checks.common import *


def wrap(env, n, span):
    u = env.imp("ramannoodle.structure.utils")
    np = env.np
    x = env.arr("x", (n, 3), -span, span)
    k = env.array([[env.intvar(f"k{i}_{j}", -3, 3) for j in range(3)] for i in range(n)])
    w = u.apply_pbc(x)
    env.true("between 0 and 1", (w >= 0) & (w <= 1))
    d = w - x
    env.close("whole cells", d, np.rint(d))
    w2 = u.apply_pbc(x + k)
    e = w2 - w
    env.close("shift by whole cells", e - np.rint(e), env.zero(e))
    if env.symbolic:  # exact in real arithmetic; rounding may cross the boundary in doubles
        env.close("same representative", w2, w)
    env.close("twice", u.apply_pbc(w), w) if env.symbolic else None


def wrap_disp(env, n, span):
    u = env.imp("ramannoodle.structure.utils")
    np = env.np
    x = env.arr("x", (n, 3), -span, span)
    k = env.array([[env.intvar(f"k{i}_{j}", -3, 3) for j in range(3)] for i in range(n)])
    w = u.apply_pbc_displacement(x)
    env.true("within half a cell", (w >= -0.5) & (w <= 0.5))
    d = w - x
    env.close("whole cells", d, np.rint(d))
    w2 = u.apply_pbc_displacement(x + k)
    e = w2 - w
    env.close("shift by whole cells", e - np.rint(e), env.zero(e))
    if env.symbolic:
        env.close("same representative", w2, w)


def displace(env, n, span):
    u = env.imp("ramannoodle.structure.utils")
    np = env.np
    x = env.arr("x", (n, 3), -span, span)
    y = env.arr("y", (n, 3), -span, span)
    out = u.displace_positions(x, y)
    env.true("between 0 and 1", (out >= 0) & (out <= 1))
    d = out - x - y
    env.close("moved by the displacement", d - np.rint(d), env.zero(d))


def minimum_image(env, n, span):
    u = env.imp("ramannoodle.structure.utils")
    np = env.np
    x = env.arr("x", (n, 3), -span, span)
    y = env.arr("y", (n, 3), -span, span)
    k = env.array([[env.intvar(f"k{i}_{j}", -2, 2) for j in range(3)] for i in range(n)])
    d = u.calc_displacement(x, y)
    env.true("within half a cell", (d >= -0.5) & (d <= 0.5))
    e = d - (y - x)
    env.close("from the first to the second", e - np.rint(e), env.zero(e))
    back = u.displace_positions(x, d) - y
    env.close("applying it gives the second", back - np.rint(back), env.zero(back))
    d2 = u.calc_displacement(x + k, y)
    d3 = u.calc_displacement(x, y + k)
    for z in (d2, d3):
        f = z - d
        env.close("whole cells do not matter", f - np.rint(f), env.zero(f))
    if env.symbolic:
        env.close("same displacement", d2, d)
        env.close("same displacement (second)", d3, d)


def whole(env):
    """Whole-number arrays mean the same as the numbers they hold."""
    u = env.imp("ramannoodle.structure.utils")
    np = env.np
    x = env.arr("x", (2, 3), -3, 3)
    k = env.pick("numbers", [[[0, 0, 0], [1, 0, -1]], [[2, -3, 0], [0, 1, 1]]])
    n = env.ints(k)
    env.close("wrapped", u.apply_pbc(n) - np.rint(u.apply_pbc(n)), env.zero(x))
    env.close("wrapped displacement", u.apply_pbc_displacement(n) - np.rint(u.apply_pbc_displacement(n)), env.zero(x))
    env.true("inside", (u.apply_pbc(n) >= 0) & (u.apply_pbc(n) <= 1))
    for label, d in (
        ("displaced", u.displace_positions(n, x) - x),
        ("displaced by whole cells", u.displace_positions(x, n) - x),
        ("from the origin", u.calc_displacement(n, x) - x),
        ("to the origin", u.calc_displacement(x, n) + x),
        ("both", u.calc_displacement(n, env.ints(k[::-1]))),
        ("rotated", u.transform_positions(env.ints([[0, 0, 0], [1, 0, 1]]), env.ints([[0, 1, 0], [-1, 0, 0], [0, 0, 1]]), x[0]) - x[:1]),
        ("rotated whole", u.transform_positions(u.apply_pbc(x), env.ints([[1, 0, 0], [0, 1, 0], [0, 0, 1]]), env.ints([0, 1, 0])) - x),
    ):
        env.close(label, d - np.rint(d), env.zero(d))


def exact(env, what):
    """Coordinates that are whole numbers of eighths are exact in doubles: faces and half cells included, whole cells change nothing."""
    u = env.imp("ramannoodle.structure.utils")
    x = env.array([[env.intvar(f"x{j}", -24, 24) / env.c(8) for j in range(3)]])
    k = env.array([[env.intvar(f"k{j}", -3, 3) for j in range(3)]])
    if what == "wrap":
        w = u.apply_pbc(x)
        env.true("between 0 and 1", (w >= 0) & (w <= 1))
        env.close("same position", u.apply_pbc(x + k), w)
    elif what == "displacement":
        w = u.apply_pbc_displacement(x)
        env.true("within half a cell", (w >= -0.5) & (w <= 0.5))
        env.close("same displacement", u.apply_pbc_displacement(x + k), w)
    else:
        y = env.array([[0.25, 0.125, 0.75]])
        d = u.calc_displacement(x, y)
        env.true("within half a cell", (d >= -0.5) & (d <= 0.5))
        env.close("same displacement", u.calc_displacement(x + k, y), d)
        env.close("same displacement (second)", u.calc_displacement(x, y + k), d)
        m = u.displace_positions(x, y)
        env.close("same position", u.displace_positions(x + k, y), m)
        env.close("same position (displacement)", u.displace_positions(x, y + k), m)


def series(env, span):
    """Arrays of configurations are wrapped like single ones, and inputs stay as they are."""
    u = env.imp("ramannoodle.structure.utils")
    x = env.arr("x", (2, 1, 3), -span, span)
    keep = x.copy()
    w = u.apply_pbc(x)
    v = u.apply_pbc_displacement(x)
    for i in range(2):
        if env.symbolic:
            env.close("each configuration", w[i], u.apply_pbc(x[i]))
            env.close("each displacement", v[i], u.apply_pbc_displacement(x[i]))
    m = u.calc_displacement(x[0], x[1])
    u.displace_positions(x[0], m)
    env.close("inputs unchanged", x, keep, tol=1e-12)
    env.true("wrapped", (w >= 0) & (w <= 1) & (v >= -0.5) & (v <= 0.5))


def transform(env, which, span):
    """Affine maps of positions given with whole-cell shifts."""
    u = env.imp("ramannoodle.structure.utils")
    np = env.np
    rots = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[-1, 0, 0], [0, -1, 0], [0, 0, 1]], [[1, 0, 0], [0, -1, 0], [0, 0, -1]], [[-1, 0, 0], [0, -1, 0], [0, 0, -1]]]
    r = np.array(rots[which])
    x = env.arr("x", (2, 3), 0, 1)
    t = env.arr("t", (3,), -span, span)
    out = u.transform_positions(x, r, t)
    env.true("between 0 and 1", (out >= 0) & (out <= 1))
    d = out - (x @ r + t)
    env.close("image", d - np.rint(d), env.zero(d))


def large(env, shape):
    """Many atoms and configurations: every entry is treated alike, the others being fixed."""
    u = env.imp("ramannoodle.structure.utils")
    np = env.np
    total = shape[0] * shape[1] * (shape[2] if len(shape) > 2 else 1)
    free = env.pick("place", [[0, total - 1], [total // 2, total - 3], [total // 3, 2 * total // 3]])
    x = filled(env, shape, -3, 3, free=free, name="x")
    y = filled(env, shape, -2, 2, step=29, free=[free[1]], name="y")
    keep = x.copy()
    w, v = u.apply_pbc(x), u.apply_pbc_displacement(x)
    env.eq("shape", (tuple(w.shape), tuple(v.shape)), (tuple(shape), tuple(shape)))
    env.true("between 0 and 1", (w >= 0) & (w <= 1))
    env.true("within half a cell", (v >= -0.5) & (v <= 0.5))
    for d in (w - keep, v - keep):
        env.close("whole cells", d - np.rint(d), env.zero(d))
    d = u.calc_displacement(x, y)
    env.true("minimum image", (d >= -0.5) & (d <= 0.5))
    e = d - (y - keep)
    env.close("from the first to the second", e - np.rint(e), env.zero(e))
    m = u.displace_positions(x, d)
    env.true("moved inside the cell", (m >= 0) & (m <= 1))
    e = m - y
    env.close("applying it gives the second", e - np.rint(e), env.zero(e))
    env.close("input kept", x, keep, tol=1e-12)


def units(tier):
    us = []
    spans = [2, 1000] if tier == "quick" else [1, 2, 50, 1000, 10**6]
    for s in spans:
        for n in (1, 2):
            b = f"{n} atoms, every coordinate in [-{s},{s}], shifts in [-3,3]"
            us.append(Unit(f"wrap-{n}-{s}", wrap, dict(n=n, span=s), b))
            us.append(Unit(f"wrapdisp-{n}-{s}", wrap_disp, dict(n=n, span=s), b))
            us.append(Unit(f"displace-{n}-{s}", displace, dict(n=n, span=s), b))
            us.append(Unit(f"minimum-{n}-{s}", minimum_image, dict(n=n, span=s), b))
        us.append(Unit(f"series-{s}", series, dict(span=s), f"two configurations, coordinates in [-{s},{s}]"))
    us.append(Unit("whole", whole, {}, "two atoms, integer arrays for one or all of the arguments", budget=60))
    for what in ("wrap", "displacement", "calc"):
        us.append(Unit(f"exact-{what}", exact, dict(what=what), "one atom, every multiple of 1/8 in [-3,3], shifts in [-3,3]"))
    for w in range(4):
        us.append(Unit(f"transform-{w}", transform, dict(which=w, span=3), "two atoms, coordinates in [0,1], translation in [-3,3], diagonal operation"))
    for shape in ((40, 3), (30, 4, 3), (130, 3), (257, 3), (210, 2, 3), (257, 1, 3), (512, 1, 3)) if tier == "quick" else ((40, 3), (30, 4, 3), (130, 3), (210, 2, 3), (3, 300, 3), (1050, 1, 3)):
        us.append(Unit(f"large-{'x'.join(map(str, shape))}", large, dict(shape=shape), f"arrays of shape {shape}, three free entries at three sets of places, coordinates in [-3,3]", budget=100))
    return us + layouts(us, "wrap-2-2", "displace-2-2", "minimum-2-2", "transform-2", "series-2", "large-30x4x3")
