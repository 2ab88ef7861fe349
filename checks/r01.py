"""R01: phonon Raman intensities are rotational invariants of the Raman tensors."""
from checks.common import *


def spectrum(env, wn, tensors):
    return env.get("ramannoodle.spectrum._raman.PhononRamanSpectrum")(wn, tensors)


def invariants(t):
    a = (t[0, 0] + t[1, 1] + t[2, 2]) / 3
    g = ((t[0, 0] - t[1, 1]) ** 2 + (t[1, 1] - t[2, 2]) ** 2 + (t[2, 2] - t[0, 0]) ** 2 + 6 * (t[0, 1] * t[1, 0] + t[1, 2] * t[2, 1] + t[2, 0] * t[0, 2])) / 2
    return a, g


def trace_form(t):
    """The same anisotropy from the traces of T and T*T: 3/2 tr(T T) - 1/2 (tr T)^2."""
    tr = t[0, 0] + t[1, 1] + t[2, 2]
    t2 = None
    for i in range(3):
        for j in range(3):
            x = t[i, j] * t[j, i]
            t2 = x if t2 is None else t2 + x
    return tr / 3, (3 * t2 - tr * tr) / 2


def formula(env, m):
    wn = env.arr("w", (m,), -500, 4000)
    t = env.symten("t", m)
    keep_w, keep_t = wn.copy(), t.copy()
    spec = spectrum(env, wn, t)
    w, i = spec.measure()
    env.eq("shape", tuple(i.shape), (m,))
    env.close("wavenumbers", w, keep_w)
    for k in range(m):
        a, g = invariants(keep_t[k])
        env.close(f"intensity {k}", i[k], 45 * a * a + 7 * g, 1e-5)
        a, g = trace_form(keep_t[k])
        env.close(f"trace form {k}", i[k], 45 * a * a + 7 * g, 1e-5)
    w2, i2 = spec.measure("polycrystalline")
    env.close("again", i2, i)
    env.close("tensors kept", spec.raman_tensors, keep_t)
    env.close("argument kept", t, keep_t)


def nonneg(env):
    t = env.symten("t", 1)
    _, i = spectrum(env, env.array([500]), t).measure()
    d1, d2, d3 = t[0, 0, 0] - t[0, 1, 1], t[0, 1, 1] - t[0, 2, 2], t[0, 2, 2] - t[0, 0, 0]
    sos = 5 * (t[0, 0, 0] + t[0, 1, 1] + t[0, 2, 2]) ** 2 + (d1 * d1 + d2 * d2 + d3 * d3) * env.c(7, 2) + 21 * (t[0, 0, 1] ** 2 + t[0, 0, 2] ** 2 + t[0, 1, 2] ** 2)
    env.close("sum of squares", i[0], sos, 1e-5)
    env.true("non-negative", i[0] >= -1e-9)


def rotation(env, axes, m):
    wn = env.arr("w", (m,), 10, 4000)
    t = env.symten("t", m, -3, 3)
    r = None
    for k, a in enumerate(axes):
        x = env.rot(f"r{k}", a)
        r = x if r is None else r @ x
    turned = env.array([r @ t[k] @ r.T for k in range(m)])
    _, i = spectrum(env, wn, t).measure()
    w2, j = spectrum(env, wn, turned).measure()
    env.close("rotated crystal", j, i, 1e-5)
    env.close("wavenumbers", w2, wn)


SIGNED = [[[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[0, 1, 0], [1, 0, 0], [0, 0, -1]], [[-1, 0, 0], [0, -1, 0], [0, 0, -1]], [[1, 0, 0], [0, 0, -1], [0, 1, 0]]]


def special(env):
    """Relabelled and mirrored axes."""
    t = env.symten("t", 1)
    r = env.array(env.pick("op", SIGNED))
    _, i = spectrum(env, env.array([500]), t).measure()
    _, j = spectrum(env, env.array([500]), env.array([r @ t[0] @ r.T])).measure()
    env.close("relabelled axes", j, i)


def scaling(env, m):
    wn = env.arr("w", (m,), 10, 4000)
    t = env.symten("t", m)
    s = env.real("s", -4, 4)
    _, i = spectrum(env, wn, t).measure()
    _, j = spectrum(env, wn, t * s).measure()
    env.close("square of the scale", j, i * (s * s), 1e-4)
    _, j = spectrum(env, wn, -t).measure()
    env.close("sign", j, i)
    # one mode flipped, one mode replaced
    k = env.choice("mode", m)
    u = t.copy()
    u[k] = -u[k]
    _, j = spectrum(env, wn, u).measure()
    env.close("sign of one mode", j, i)
    u[k] = env.symten("other")
    _, j = spectrum(env, wn, u).measure()
    for q in range(m):
        if q != k:
            env.close("other modes", j[q], i[q])
    p = env.perm("shuffle", m)
    w, j = spectrum(env, env.array([wn[q] for q in p]), env.array([t[q] for q in p])).measure()
    env.close("order", j, env.array([i[q] for q in p]))
    env.close("order of wavenumbers", w, env.array([wn[q] for q in p]))
    for q in range(m):
        _, j = spectrum(env, wn[q : q + 1], t[q : q + 1]).measure()
        env.close("alone", j[0], i[q])


def magnitude(env, size):
    """Tensors of any magnitude next to ordinary ones, nearly isotropic ones included."""
    x = env.real("x", 1, 9) * env.c(1, 1) * (10**size if size >= 0 else env.c(1, 10**-size))
    kind = env.pick("kind", ["all", "off-diagonal", "nearly isotropic", "traceless"])
    t = env.symten("t", 2, -3, 3)
    one = t[1]
    if kind == "off-diagonal":
        one = env.array([[0, 1, 0], [1, 0, 0], [0, 0, 0]]) * t[1, 0, 1]
    elif kind == "nearly isotropic":
        one = env.array([[1, 0, 0], [0, 1, 0], [0, 0, 1]]) + t[1] / 10**5
    elif kind == "traceless":
        one = env.array([[t[1, 0, 0], t[1, 0, 1], 0], [t[1, 0, 1], -t[1, 0, 0], 0], [0, 0, 0]])
    k = env.choice("place", 2)
    ts = env.array([one * x, t[0]] if k == 0 else [t[0], one * x])
    _, i = spectrum(env, env.array([300, 1200]), ts).measure()
    a, g = invariants(one)
    env.close("intensity", i[k] / (x * x), 45 * a * a + 7 * g, 1e-5)
    if kind == "nearly isotropic":
        env.close("anisotropic part", (i[k] / (x * x) - 45 * a * a) * 10**10, 7 * g * 10**10, 1e-2)
    a, g = invariants(t[0])
    env.close("the other", i[1 - k], 45 * a * a + 7 * g, 1e-5)


def whole(env):
    """Whole-number arrays mean the same as the numbers they hold."""
    t = [[[1, 2, 0], [2, -3, 4], [0, 4, 5]], [[0, 0, 1], [0, 7, 0], [1, 0, -7]]]
    w = [100, -300]
    free_w, free_t = env.arr("w", (2,), 10, 4000), env.symten("t", 2)
    for label, ww, tt in (("tensors", free_w, t), ("wavenumbers", w, free_t), ("both", w, t)):
        spec = spectrum(env, env.ints(ww) if isinstance(ww, list) else ww, env.ints(tt) if isinstance(tt, list) else tt)
        out_w, i = spec.measure()
        env.close(f"wavenumbers, whole {label}", out_w, ww)
        for k in range(2):
            a, g = invariants(env.array(tt[k]))
            env.close(f"intensity, whole {label}", i[k], 45 * a * a + 7 * g, 1e-5)
        env.close(f"tensors, whole {label}", spec.raman_tensors, tt)


def large(env, m):
    """Many modes: each intensity depends on its own tensor only."""
    free = env.pick("modes", [[0, m - 1], [m // 2], [m // 3, m // 3 + 1]])
    wn = filled(env, (m,), 20, 3000, free=[free[0]], name="w")
    t = filled_tensors(env, m, free)
    keep = t.copy()
    w, i = spectrum(env, wn, t).measure()
    env.eq("shape", tuple(i.shape), (m,))
    env.close("wavenumbers", w, wn)
    for k in range(m):
        a, g = invariants(keep[k])
        env.close(f"intensity {k}", i[k], 45 * a * a + 7 * g, 1e-5)


def units(tier):
    deep = tier != "quick"
    us = [Unit(f"formula-{m}", formula, dict(m=m), f"{m} modes, components in [-5,5]", budget=60) for m in ((1, 2, 3) + ((6,) if deep else ()))]
    us.append(Unit("non-negative", nonneg, {}, "every symmetric tensor with components in [-5,5]", budget=60))
    for axes in ("x", "y", "z", "xz", "zy") + (("zxz", "yx", "xyz") if deep else ()):
        us.append(Unit(f"rotation-{axes}", rotation, dict(axes=axes, m=1 if len(axes) > 1 else 2), "every angle about each axis", budget=120))
    us.append(Unit("relabelled", special, {}, "four improper or cyclic operations", budget=60))
    us += [Unit(f"magnitude-{s}", magnitude, dict(size=s), f"two modes, one tensor 10^{s} times an ordinary one; general, off-diagonal, nearly isotropic or traceless", budget=100) for s in (-9, -5, -2, 3, 7)]
    us.append(Unit("whole", whole, {}, "two modes, integer arrays for one or both of the arguments", budget=60))
    us += [Unit(f"scaling-{m}", scaling, dict(m=m), f"{m} modes", budget=60) for m in (1, 2, 3)]
    us += [Unit(f"large-{m}", large, dict(m=m), f"{m} modes, one or two of them free", budget=60) for m in ((45, 64, 257, 300) if not deep else (45, 64, 130, 257, 501, 512, 300, 1100))]
    return us + layouts(us, "formula-3", "rotation-z", "large-45")
