"""R02: molecular-dynamics spectra are rotation- and offset-invariant power spectra."""
import math

from checks.common import *
from checks.r01 import SIGNED

FS = 33356.40951981521  # inverse femtoseconds to inverse centimetres


def spectrum(env, ts, dt):
    return env.get("ramannoodle.spectrum._raman.MDRamanSpectrum")(ts, dt)


def lagged(d, lag):
    """45 isotropic + 7 anisotropic products of the series of derivatives with itself, shifted."""
    out = None
    for s in range(len(d) - lag):
        a, b = d[s], d[s + lag]
        ta, tb = a[0, 0] + a[1, 1] + a[2, 2], b[0, 0] + b[1, 1] + b[2, 2]
        dot = None
        for i in range(3):
            for j in range(3):
                x = a[i, j] * b[i, j]
                dot = x if dot is None else dot + x
        x = 5 * ta * tb + (3 * dot - ta * tb) * 7 / 2
        out = x if out is None else out + x
    return out


def expected(env, ts):
    n = len(ts) - 1
    d = [ts[k + 1] - ts[k] for k in range(n)]
    c = [lagged(d, k) for k in range(n)]
    out = []
    for f in range(1, (n - 1) // 2 + 1):
        s = None
        for k in range(n):
            x = c[k] * math.cos(2 * math.pi * f * k / n)
            s = x if s is None else s + x
        out.append(s)
    return out


def formula(env, s):
    ts = env.symten("a", s, -2, 2)
    dt = env.real("dt", 0.1, 10)
    keep = ts.copy()
    spec = spectrum(env, ts, dt)
    w, i = spec.measure()
    want = expected(env, keep)
    env.eq("length", (tuple(w.shape), tuple(i.shape)), ((len(want),), (len(want),)))
    for k, x in enumerate(want):
        env.close(f"frequency {k}", w[k] * dt * (s - 1), (k + 1) * env.c(FS), 1e-4)
        env.close(f"intensity {k}", i[k], x, 1e-5)
    w2, i2 = spec.measure()
    env.close("again", i2, i)
    env.close("frequencies again", w2, w)
    env.close("series kept", spec.polarizability_ts, keep)


def invariance(env, s, op):
    ts = env.symten("a", s, -2, 2)
    dt = env.c(1)
    w, i = spectrum(env, ts, dt).measure()
    tol = 1e-5
    if op == "offset":
        off = env.symten("off", None, -50, 50)
        new, f = env.array([t + off for t in ts]), env.c(1)
    elif op == "scale":
        k = env.real("k", -3, 3)
        new, f, tol = ts * k, k * k, 1e-4
    elif op == "sign":
        new, f = -ts, env.c(1)
    elif op == "axes":
        r = env.array(env.pick("op", SIGNED))
        new, f = env.array([r @ t @ r.T for t in ts]), env.c(1)
    else:
        r = None
        for k, a in enumerate(op):
            x = env.rot(f"r{k}", a)
            r = x if r is None else r @ x
        new, f = env.array([r @ t @ r.T for t in ts]), env.c(1)
    w2, j = spectrum(env, new, dt).measure()
    env.close("frequencies", w2, w)
    env.close("intensities", j, i * f, tol)


def magnitude(env, size, offset):
    """Series of any magnitude around any constant."""
    s = 5
    x = env.c(10**size) if size >= 0 else env.c(1, 10**-size)
    ts = env.symten("a", s, -2, 2)
    off = env.array([[3, 1, 0], [1, -2, 1], [0, 1, 4]]) * (x * 1000 if offset else 0)
    dt = env.pick("dt", [env.c(1, 1000), env.c(1), env.c(1000)])
    w, i = spectrum(env, env.array([t * x + off for t in ts]), dt).measure()
    want = expected(env, ts)
    env.eq("length", len(i), len(want))
    for k, y in enumerate(want):
        env.close(f"intensity {k}", i[k] / (x * x), y, 1e-5)
        env.close(f"frequency {k}", w[k] * dt * (s - 1), (k + 1) * env.c(FS), 1e-4)


def whole(env):
    """Whole-number polarizabilities mean the same as the numbers they hold."""
    ts = [[[(5 * s + 2 * i * j + s * s * (i + j)) % 7 - 2 for i in range(3)] for j in range(3)] for s in range(6)]
    dt = 2 if env.flag("whole timestep") else env.real("dt", 0.1, 10)
    w, i = spectrum(env, env.ints(ts), dt).measure()
    w2, i2 = spectrum(env, env.array(ts), dt).measure()
    env.close("wavenumbers", w, w2)
    env.close("intensities", i, i2, 1e-5)
    env.close("documented", i * i2[0], i2 * i[0], 1e-4)
    want = expected(env, env.array(ts))
    env.eq("number of lines", len(i), len(want))
    for k in range(len(want)):
        env.close(f"shape {k}", i[k] * want[0], want[k] * i[0], 1e-3)


def axis(env):
    """The frequency axis for any length."""
    s = env.choice("length", 12) + 3
    dt = env.real("dt", 0.01, 50)
    ts = env.array([[[k * k % 5, 0, 1], [0, k % 3, 0], [1, 0, 0]] for k in range(s)])
    w, i = spectrum(env, ts, dt).measure()
    n = s - 1
    m = (n - 1) // 2
    env.eq("as many entries", (len(w), len(i)), (m, m))
    for k in range(m):
        env.close("frequency", w[k] * dt * n, (k + 1) * env.c(FS), 1e-4)
        env.true("positive", w[k] > 0)


def positive(env, s):
    """Power spectra are non-negative."""
    ts = env.symten("a", s, -2, 2)
    _, i = spectrum(env, ts, env.c(1)).measure()
    for x in i:
        env.true("non-negative", x >= -1e-6)


def large(env, s):
    """A longer series with one configuration free."""
    ts = filled_tensors(env, s, [env.pick("configuration", [0, s // 2, s - 1])], name="a")
    dt = env.real("dt", 0.1, 10)
    keep = ts.copy()
    w, i = spectrum(env, ts, dt).measure()
    want = expected(env, keep)
    env.eq("length", (len(w), len(i)), (len(want), len(want)))
    for k, x in enumerate(want):
        env.close(f"frequency {k}", w[k] * dt * (s - 1), (k + 1) * env.c(FS), 1e-4)
        env.close(f"intensity {k}", i[k], x, 1e-4)


def units(tier):
    deep = tier != "quick"
    us = [Unit(f"formula-{s}", formula, dict(s=s), f"{s} configurations, time step 0.1..10 fs", budget=150) for s in ((3, 4, 5, 6, 7, 9) + ((8, 10, 12, 13) if deep else ()))]
    for s in (4, 5, 6) + ((7, 8) if deep else ()):
        for op in ("offset", "scale", "sign", "axes", "x", "y", "z") + (("xz", "zy") if deep and s < 6 else ()):
            us.append(Unit(f"{op}-{s}", invariance, dict(s=s, op=op), f"{s} configurations", budget=120))
    for size in (-8, -3, 4):
        for offset in (False, True):
            us.append(Unit(f"magnitude-{size}{'-offset' if offset else ''}", magnitude, dict(size=size, offset=offset), f"five configurations 10^{size} times ordinary ones{' around a constant 1000 times larger' if offset else ''}, time steps 0.001, 1 and 1000 fs", budget=100))
    us.append(Unit("whole", whole, {}, "six configurations of integers, time step 0.1..10 fs", budget=90))
    us.append(Unit("axis", axis, {}, "3 to 14 configurations, time step 0.01..50 fs", budget=90))
    for s in (4,) + ((5,) if deep else ()):
        us.append(Unit(f"positive-{s}", positive, dict(s=s), f"{s} configurations", budget=120))
    us += [Unit(f"large-{s}", large, dict(s=s), f"{s} configurations, one of them free", budget=150) for s in ((22, 33, 64, 65, 102) if not deep else (22, 33, 65, 102, 130, 257))]
    return us + layouts(us, "formula-5", "x-6", "large-22")
