"""R04: spectrum convolution is linear with normalised, symmetric line shapes."""
import math

from checks.common import *


def convolve(env):
    return env.get("ramannoodle.spectrum.utils.convolve_spectrum")


def shape(env, function, d, width):
    """Unit-area line shape at distance d."""
    if function == "gaussian":
        return env.exp(-(d * d) / (2 * width * width)) / (width * env.sqrt(2 * math.pi))
    return width / ((d * d + width * width / 4) * (2 * math.pi))


def total(parts):
    out = parts[0]
    for p in parts[1:]:
        out = out + p
    return out


def formula(env, function, m, l, near):
    lo, hi = (100, 110) if near else (0, 3000)
    w = env.arr("w", (m,), lo, hi)
    i = env.arr("i", (m,), -10, 10)
    o = env.arr("o", (l,), lo, hi)
    width = env.real("width", 3 if near else 0.5, 20 if near else 50)
    keep = [w.copy(), i.copy(), o.copy()]
    grid, got = convolve(env)(w, i, function, width, o)
    env.eq("shape", tuple(got.shape), (l,))
    env.close("grid", grid, keep[2])
    for k in range(l):
        env.close(f"point {k}", got[k], total([shape(env, function, keep[0][q] - keep[2][k], width) * keep[1][q] for q in range(m)]), 1e-5)
    for a, b, n in zip((w, i, o), keep, "wio"):
        env.close(f"argument {n} kept", a, b)
    _, again = convolve(env)(w, i, function, width, o)
    env.close("again", again, got)


def default_width(env, function):
    w, i, o = env.arr("w", (1,), 100, 110), env.arr("i", (1,), -10, 10), env.arr("o", (1,), 100, 110)
    _, got = convolve(env)(w, i, function, out_wavenumbers=o)
    env.close("width 5", got[0], shape(env, function, w[0] - o[0], env.c(5)) * i[0], 1e-5)
    if function == "gaussian":
        _, g2 = convolve(env)(w, i, out_wavenumbers=o)
        env.close("gaussian by default", g2, got)


def linearity(env, function):
    m, l = 2, 2
    w, o = env.arr("w", (m,), 100, 110), env.arr("o", (l,), 100, 110)
    i, j = env.arr("i", (m,), 0, 10), env.arr("j", (m,), 0, 10)
    width = env.real("width", 3, 20)
    a = env.real("a", -5, 5)
    f = lambda x, y=w: convolve(env)(y, x, function, width, o)[1]
    fi, fj = f(i), f(j)
    env.close("sum", f(i + j), fi + fj, 1e-5)
    env.close("scale", f(i * a), fi * a, 1e-4)
    env.close("order of lines", f(i[::-1], w[::-1]), fi, 1e-5)
    env.close("zero", f(i * 0), env.zero(fi))
    for k in range(l):
        env.true("non-negative", fi[k] >= 0)
    parts = [convolve(env)(w[q : q + 1], i[q : q + 1], function, width, o)[1] for q in range(m)]
    env.close("sum over lines", fi, parts[0] + parts[1], 1e-5)
    # two lines at the same place
    both = env.array([w[0], w[0]])
    env.close("coinciding lines", f(i, both), convolve(env)(w[:1], env.array([i[0] + i[1]]), function, width, o)[1], 1e-5)
    # symmetric around the line
    d = env.real("d", 0, 20)
    sym = convolve(env)(w[:1], i[:1], function, width, env.array([w[0] - d, w[0] + d]))[1]
    env.close("symmetric", sym[0], sym[1], 1e-6)


def scales(env, function, far):
    """Lines of very different intensity, or very far from each other or from the grid, are all counted."""
    f = lambda w, i: convolve(env)(w, i, function, env.c(5), env.array([500, 503]))[1]
    w = env.array([100, 500, 501 if far else 110])
    strong, weak = env.real("strong", 10**5, 10**9), env.real("weak", 0.5, 10) * (1 if env.flag("positive") else -1)
    k = env.choice("place", 2)
    i = env.array([strong, weak, weak * 2] if k == 0 else [weak, weak * 3, strong])
    got = f(w, i)
    rest = [f(w[q : q + 1], i[q : q + 1]) for q in range(3)]
    env.close("sum over lines", got - rest[2 if k else 0], rest[1] + rest[0 if k else 2], 1e-5)
    tiny = f(w, i / 10**9)
    env.close("scale", tiny * 10**9 - rest[2 if k else 0], rest[1] + rest[0 if k else 2], 1e-4)


def whole(env, function):
    """Whole-number arrays mean the same as the numbers they hold."""
    width = env.c(5)
    w, i, o = [100, 105], [1, -3], [98, 104, 130]
    some = env.arr("some", (2,), -10, 10)
    lines = env.array([env.real("line", 95, 104), 105])
    for a, b, c, label in ((w, some, o, "lines and grid"), (lines, i, o, "intensities and grid"), (w, i, env.array([env.real("o", 95, 110), 104, 130]), "lines and intensities"), (w, i, o, "all")):
        ga, gb, gc = [env.ints(x) if isinstance(x, list) else x for x in (a, b, c)]
        grid_, got = convolve(env)(ga, gb, function, width, gc)
        env.close("grid", grid_, c)
        for k in range(3):
            env.close(f"whole {label}", got[k], total([shape(env, function, a[q] - c[k], width) * b[q] for q in range(2)]), 1e-5)


def grid(env):
    """The default grid."""
    n = env.choice("lines", 3) + 1
    base = env.pick("base", [100, 0, 333])
    gap = env.pick("gap", [0, 7, 40])
    x = env.real("x", -0.4, 0.4)
    w = env.array([base + x + gap * k for k in range(n)])
    order = env.perm("order", n)
    w = env.array([w[k] for k in order])
    i = env.arr("i", (n,), 0, 10)
    fn = env.pick("function", ["gaussian", "lorentzian"])
    g, got = convolve(env)(w, i, fn, env.c(5))
    span = 200 + gap * (n - 1)
    env.eq("same length", len(g), len(got))
    env.true("about unit spacing", abs(len(g) - span) <= 1)
    env.close("from 100 below", g[0], base + x - 100)
    env.close("to 100 above", g[-1], base + x + gap * (n - 1) + 100)
    step = g[1] - g[0]
    env.close("uniform", g[1:] - g[:-1], env.zero(g[1:]) + step)
    pick = [0, len(g) // 3, len(g) // 2, len(g) - 1]
    _, same = convolve(env)(w, i, fn, env.c(5), env.array([g[k] for k in pick]))
    env.close("same values on a given grid", env.array([got[k] for k in pick]), same, 1e-6)


def refusal(env):
    w, i, o = env.array([100, 130]), env.arr("i", (2,), 0, 10), env.arr("o", (2,), 0, 3000)
    fn = env.pick("function", ["gaussian", "lorentzian"])
    given = env.flag("grid given")
    extra = (o,) if given else ()
    env.raises("negative width", ValueError, convolve(env), w, i, fn, env.real("width", -10, 0), *extra)
    env.raises("zero width", ValueError, convolve(env), w, i, fn, env.c(0), *extra)
    env.raises("shape", ValueError, convolve(env), w, i, env.pick("name", ["voigt", "Gaussian", "", "gauss", "lorentz"]), env.real("v", 1, 10), o)
    env.raises("mismatched", ValueError, convolve(env), w, env.arr("k", (3,), 0, 1), fn, env.c(5), o)


def large(env, function, m, l):
    """Many lines and grid points; one line free in place and height."""
    k = env.pick("line", [0, m // 2, m - 1])
    w = filled(env, (m,), 100, 900, step=31, den=512)
    w[k] = env.real("w", 95, 905)
    i = filled(env, (m,), 0, 10, free=[k], name="i")
    o = filled(env, (l,), 90, 910, step=41, den=512)
    width = env.c(9, 2)
    grid_, got = convolve(env)(w, i, function, width, o)
    env.close("grid", grid_, o)
    env.eq("shape", tuple(got.shape), (l,))
    for p in range(l):
        env.close(f"point {p}", got[p], total([shape(env, function, w[q] - o[p], width) * i[q] for q in range(m)]), 1e-5)


def units(tier):
    deep = tier != "quick"
    us = []
    for fn in ("gaussian", "lorentzian"):
        for m, l in ((1, 1), (2, 2), (3, 1)) + (((1, 4), (3, 3)) if deep else ()):
            us.append(Unit(f"formula-{fn}-{m}x{l}", formula, dict(function=fn, m=m, l=l, near=True), f"{m} lines, {l} grid points in 100..110, widths 3..20", budget=120))
        us.append(Unit(f"formula-{fn}-wide", formula, dict(function=fn, m=1, l=1, near=False), "one line and grid point in 0..3000, widths 0.5..50", budget=120))
        us.append(Unit(f"default-{fn}", default_width, dict(function=fn), "one line", budget=60))
        us.append(Unit(f"linear-{fn}", linearity, dict(function=fn), "two lines, two grid points", budget=150))
    for fn in ("gaussian", "lorentzian"):
        for far in (True, False):
            us.append(Unit(f"scales-{fn}{'' if far else '-near'}", scales, dict(function=fn, far=far), "three lines, one 10^4 to 10^9 times stronger than the others, and the same lines 10^9 times weaker", budget=100))
    for fn in ("gaussian", "lorentzian"):
        us.append(Unit(f"whole-{fn}", whole, dict(function=fn), "two lines, three grid points, integer arrays for some or all arguments", budget=100))
    us.append(Unit("grid", grid, {}, "one to three lines, non-integer positions", budget=150))
    us.append(Unit("refusal", refusal, {}, "widths -10..0", budget=60))
    for fn, m, l in (("gaussian", 30, 2), ("lorentzian", 12, 12), ("lorentzian", 40, 2), ("gaussian", 65, 2), ("lorentzian", 2, 257)) + ((("gaussian", 3, 10), ("gaussian", 140, 2)) if deep else ()):
        us.append(Unit(f"large-{fn}-{m}x{l}", large, dict(function=fn, m=m, l=l), f"{m} lines, {l} grid points, one line free", budget=150))
    return us + layouts(us, "formula-gaussian-2x2", "formula-lorentzian-3x1", "grid", "large-lorentzian-12x12")
