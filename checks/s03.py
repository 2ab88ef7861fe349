"""S03: Cartesian and fractional coordinates."""
from checks.common import *


def sym_lattice(env, kind):
    """A family of cells with symbolic entries."""
    z = env.c(0)
    if kind == "cyclic":
        return env.array([[4, env.real("ld", -1, 1), 0], [0, 5, env.real("le", -1, 1)], [env.real("lf", -1, 1), 0, 6]])
    a, b, c = env.real("la", 3, 6), env.real("lb", 3, 6), env.real("lc", 3, 6)
    if kind == "diagonal":
        return env.array([[a, z, z], [z, b, z], [z, z, c]])
    d, e, f = env.real("ld", -1, 1), env.real("le", -1, 1), env.real("lf", -1, 1)
    if kind == "lower":
        return env.array([[a, z, z], [d, b, z], [e, f, c]])
    if kind == "upper":
        return env.array([[a, d, e], [z, b, f], [z, z, c]])
    if kind == "general":
        g, h, i = env.real("lg", -1, 1), env.real("lh", -1, 1), env.real("li", -1, 1)
        return env.array([[a, d, e], [g, b, f], [h, i, c]])
    return lattice_of(env, kind)


def build(env, kind, n):
    rs = env.imp("ramannoodle.structure._reference")
    lat = sym_lattice(env, kind)
    return rs.ReferenceStructure([22] * n, lat, env.array(POS[:n])), lat


def convert(env, kind, n):
    np = env.np
    ref, lat = build(env, kind, n)
    d = env.arr("d", (n, 3), -0.49, 0.49)
    cart = ref.get_cart_displacement(d)
    env.close("rows of the lattice", cart, d @ lat)
    env.close("displacement there and back", ref.get_frac_displacement(cart), d)
    k = env.arr("k", (n, 3), -3, 3)
    m = ref.get_cart_displacement(k) @ inv3(env, lat)
    env.true("nearest image", (m >= -0.5 - 1e-7) & (m <= 0.5 + 1e-7))
    e = m - k
    env.close("whole cells", e - np.rint(e), env.zero(e))


def convert_back(env, kind, n):
    np = env.np
    ref, lat = build(env, kind, n)
    inv = inv3(env, lat)
    c = env.arr("c", (n, 3), -20, 20)
    f = ref.get_frac_displacement(c)
    env.true("nearest image (fractional)", (f >= -0.5) & (f <= 0.5))
    e = f - c @ inv
    env.close("whole cells (fractional)", e - np.rint(e), env.zero(e))
    env.close("lattice", ref.lattice, lat)
    env.close("positions", ref.positions, POS[:n])


def directions(env, kind):
    ref, lat = build(env, kind, 2)
    f = env.arr("f", (3,), -30, 30)
    g = env.arr("g", (3,), -30, 30)
    s = env.real("s", -4, 4)
    cf = ref.get_cart_direction(f)
    env.close("direction to Cartesian", env.array(cf).reshape(3), f @ lat)
    env.close("direction there and back", ref.get_frac_direction(env.array(cf).reshape(3)), f)
    back = ref.get_frac_direction(g)
    env.close("direction to fractional", back @ lat, g)
    env.close("direction back and there", env.array(ref.get_cart_direction(back)).reshape(3), g)
    env.close("linear to Cartesian", ref.get_cart_direction(f + g * s), ref.get_cart_direction(f) + ref.get_cart_direction(g) * s)
    env.close("linear to fractional", ref.get_frac_direction(f + g * s), ref.get_frac_direction(f) + ref.get_frac_direction(g) * s)


def magnitude(env, kind, size):
    """Displacements and directions of any magnitude."""
    ref, lat = build(env, kind, 2)
    x = env.real("x", 1, 9) * (10**size if size >= 0 else env.c(1, 10**-size))
    f = env.arr("f", (3,), -1, 1)
    k = env.choice("component", 3)
    mixed = f * 1
    mixed[k] = f[k] * x  # components of very different magnitude
    for v, u in ((f * x, 1 / x), (mixed, 1 if size < 0 else 1 / x)):
        c = env.array(ref.get_cart_direction(v)).reshape(3)
        env.close("direction to Cartesian", c * u, (v @ lat) * u)
        env.close("direction there and back", ref.get_frac_direction(c) * u, v * u)
    if size < 0:
        d = env.array([f * x / 3, env.array([0.25, -0.125, 0.375])])
        c = ref.get_cart_displacement(d)
        env.close("displacement to Cartesian", c[0] / x, (d[0] @ lat) / x, 1e-5)
        b = ref.get_frac_displacement(c)
        if env.symbolic or size >= -6:
            env.close("displacement there and back", b[0] / x, d[0] / x, 1e-5)
        env.close("the other atom", b[1], d[1])


def batch(env, kind):
    """Batches of displacements are converted one by one."""
    ref, lat = build(env, kind, 2)
    d = env.arr("d", (2, 2, 3), -3, 3)
    keep = d.copy()
    c = ref.get_cart_displacement(d)
    for i in range(2):
        env.close("same as alone", c[i], ref.get_cart_displacement(d[i]))
    ref.get_frac_displacement(c[0])
    env.close("inputs unchanged", d, keep)


def large(env, n, count):
    """Many atoms and batches."""
    np = env.np
    rs = env.imp("ramannoodle.structure._reference")
    lat = lattice_of(env, env.pick("cell", ["tric", "left", "long"]))
    pos = [[(k + 0.5) / n, (3 * k + 1) % n / n, (5 * k + 2) % n / n] for k in range(n)]
    ref = rs.ReferenceStructure([22] * n, lat, env.array(pos))
    inv = inv3(env, lat)
    free = env.pick("places", [[0, 3 * n - 1], [3 * n // 2], [n, 2 * n]])
    d = filled(env, (n, 3), -0.45, 0.45, free=free, name="d")
    cart = ref.get_cart_displacement(d)
    env.close("rows of the lattice", cart, d @ lat)
    env.close("displacement there and back", ref.get_frac_displacement(cart), d)
    c = filled(env, (n, 3), -20, 20, step=29, free=free[:1], name="c")
    f = ref.get_frac_displacement(c)
    env.true("nearest image", (f >= -0.5) & (f <= 0.5))
    e = f - c @ inv
    env.close("whole cells", e - np.rint(e), env.zero(e))
    b = filled(env, (count, n, 3), -3, 3, step=41, free=[free[0] + 3 * n * (count // 2)], name="b")
    out = ref.get_cart_displacement(b)
    env.eq("shape", tuple(out.shape), (count, n, 3))
    for i in range(count):
        e = out[i] @ inv - b[i]
        env.close("whole cells in a batch", e - np.rint(e), env.zero(e))
        w = out[i] @ inv
        env.true("nearest image in a batch", (w >= -0.5 - 1e-7) & (w <= 0.5 + 1e-7))


def units(tier):
    us = []
    kinds = ["cubic", "ortho", "tric", "left", "long", "flat", "skewed", "big", "diagonal", "lower", "upper", "general", "cyclic"]
    for k in kinds:
        sy = k in ("diagonal", "lower", "upper", "general", "cyclic")
        b = f"cell {k}{' (symbolic entries)' if sy else ''}, every displacement and direction"
        for n in ((1, 2) if tier == "quick" or sy else (1, 2, 3)):
            us.append(Unit(f"convert-{k}-{n}", convert, dict(kind=k, n=n), b, stub_symmetry=True, budget=90))
            if k == "general":
                continue
            us.append(Unit(f"back-{k}-{n}", convert_back, dict(kind=k, n=n), b, stub_symmetry=True, budget=90))
        us.append(Unit(f"direction-{k}", directions, dict(kind=k), b, stub_symmetry=True, budget=90))
        if k in ("tric", "left", "lower", "diagonal"):
            for size in (-8, -4, 5):
                us.append(Unit(f"magnitude-{k}-{size}", magnitude, dict(kind=k, size=size), f"vectors 10^{size} times ordinary ones, one component or all", stub_symmetry=True, budget=90))
        us.append(Unit(f"batch-{k}", batch, dict(kind=k), b, stub_symmetry=True, budget=60))
    for n, count in ((11, 14), (3, 110), (1, 257), (1, 512)) if tier == "quick" else ((11, 14), (3, 110), (1, 257), (1, 501), (1, 512), (1, 1025), (40, 3), (1, 600)):
        us.append(Unit(f"large-{n}-{count}", large, dict(n=n, count=count), f"{n} atoms, batches of {count}, up to two free coordinates", stub_symmetry=True, budget=120))
    return us + layouts(us, "convert-tric-2", "back-tric-2", "convert-general-2", "batch-tric", "large-11-14")
