"""R03: laser and temperature corrections are the documented pointwise factors."""
import math

from checks.common import *

HC_OVER_K = 1.438777  # cm K


def functions(env):
    return env.get("ramannoodle.spectrum._raman.get_laser_correction"), env.get("ramannoodle.spectrum._raman.get_bose_einstein_correction")


def spectra(env, kind, m):
    if kind == "phonon":
        wn = env.arr("w", (m,), 10, 4000)
        return env.get("ramannoodle.spectrum._raman.PhononRamanSpectrum")(wn, env.symten("t", m))
    ts = env.symten("a", 2 * m + 2, -2, 2)
    return env.get("ramannoodle.spectrum._raman.MDRamanSpectrum")(ts, env.real("dt", 0.5, 3))


def laser_formula(env):
    laser, _ = functions(env)
    w = env.arr("w", (3,), 1, 5000)
    keep = w.copy()
    l = env.real("laser", 1000, 50000)
    scale = laser(env.array([1000]), env.c(20000))[0] * 1000 / (env.c(19) ** 4)  # per (1000/cm)^4
    f = laser(w, l)
    for k in range(3):
        env.close(f"factor {k}", f[k] * keep[k], ((keep[k] - l) / 1000) ** 4 * scale, 1e-5)
    env.close("argument kept", w, keep)
    env.true("positive constant", scale > 0)
    one = laser(w[1:2], l)
    env.close("entry by entry", one[0], f[1])
    big = laser(w, l * 2)
    env.close("another laser", big[0] * keep[0], ((keep[0] - 2 * l) / 1000) ** 4 * scale, 1e-4)


def thermal_formula(env):
    _, bose = functions(env)
    t = env.real("T", 50, 1500)
    w = env.arr("w", (2,), 20, 4000)
    keep = w.copy()
    env.assume(w[1] - w[0] >= 1)
    f = bose(w, t)
    # measured constant of the exponent (at a concrete point), then the formula everywhere
    for a, b in ((1000.0, 300.0), (200.0, 77.0), (3000.0, 1200.0), (15.0, 300.0)):
        g = bose(env.array([a]), env.c(b))[0]
        e = -math.log(1 - 1 / float(g if not env.symbolic else g.const_value())) * b / a
        env.true("hc/k", abs(e / HC_OVER_K - 1) < 1e-3)
    k = 29979245800.0 * 4.1357e-15 / env.get("ramannoodle.constants.BOLTZMANN_CONSTANT")
    for i in range(2):
        e = env.exp(-(keep[i] * k) / t)
        env.close(f"thermal {i}", f[i] * (1 - e), env.c(1))
        env.true(f"above one {i}", f[i] > 1)
    env.true("decreasing with wavenumber", f[1] < f[0])
    env.close("argument kept", w, keep)
    u = env.real("U", 50, 1500)
    env.assume(u - t >= 1)
    g = bose(w, u)
    env.true("increasing with temperature", g[0] > f[0])
    env.close("entry by entry", bose(w[1:2], t)[0], f[1])


EXTREMES = {"imaginary": (-2000, -5, 100, 1500), "soft": (0.001, 20, 100, 1500), "cold": (20, 170, 10, 30), "high": (2000, 5000, 300, 400), "hot": (20, 4000, 1500, 10000)}


def extremes(env, kind):
    """The same formula for imaginary and very soft modes, low and high temperatures."""
    _, bose = functions(env)
    lo, hi, cold, warm = EXTREMES[kind]
    w = env.arr("w", (2,), lo, hi)
    keep = w.copy()
    t = env.real("T", cold, warm)
    env.assume((w[1] - w[0] >= 0.01) | (w[0] - w[1] >= 0.01))
    f = bose(w, t)
    k = 29979245800.0 * 4.1357e-15 / env.get("ramannoodle.constants.BOLTZMANN_CONSTANT")
    for i in range(2):
        e = env.exp(-(keep[i] * k) / t)
        if kind in ("cold", "high"):
            env.close(f"occupation {i}", (f[i] - 1) * (1 - e), e, 1e-10)
        env.close(f"thermal {i}", f[i] * (1 - e), env.c(1))
        env.true(f"sign {i}", f[i] < 0 if kind == "imaginary" else f[i] > 1)
    s = env.get("ramannoodle.spectrum._raman.PhononRamanSpectrum")(w, filled_tensors(env, 2, [0]))
    _, plain = s.measure()
    plain = plain.copy()
    _, b = s.measure(bose_einstein_correction=True, temperature=t)
    for i in range(2):
        env.close(f"intensity {i}", b[i], plain[i] * f[i], 1e-4)


def whole(env):
    """Whole-number wavenumbers, lasers and temperatures mean the same as the numbers they hold."""
    laser, bose = functions(env)
    w = [100, 2500]
    l, t = env.real("laser", 1000, 50000), env.real("T", 50, 1500)
    env.close("laser", laser(env.ints(w), l), laser(env.array(w), l), 1e-6)
    env.close("thermal", bose(env.ints(w), t), bose(env.array(w), t), 1e-6)
    f = env.arr("w", (2,), 20, 4000)
    env.close("whole laser", laser(f, 19000), laser(f, env.c(19000)), 1e-6)
    env.close("whole temperature", bose(f, 300), bose(f, env.c(300)), 1e-6)
    tens = [[[1, 2, 0], [2, -3, 4], [0, 4, 5]], [[0, 0, 1], [0, 7, 0], [1, 0, -7]]]
    cls = env.get("ramannoodle.spectrum._raman.PhononRamanSpectrum")
    kw = dict(laser_correction=True, laser_wavelength=532, bose_einstein_correction=True, temperature=300)
    a = cls(env.ints(w), env.ints(tens)).measure(**kw)
    b = cls(env.array(w), env.array(tens)).measure(**kw)
    env.close("requested", a[1], b[1], 1e-6)
    env.true("not all zero", abs(b[1][0]) > 0)


def refusal(env):
    laser, bose = functions(env)
    w = env.arr("w", (2,), 10, 4000)
    t = env.real("T", -300, 0)
    env.raises("temperature", ValueError, bose, w, t)
    env.raises("zero temperature", ValueError, bose, w, env.c(0))
    env.raises("laser wavenumber", ValueError, laser, w, env.real("l", -20000, 0))
    env.raises("zero laser wavenumber", ValueError, laser, w, env.c(0))
    for kind in ("phonon", "md"):
        s = spectra(env, kind, 2)
        env.raises(kind + " temperature", ValueError, s.measure, bose_einstein_correction=True, temperature=t)
        env.raises(kind + " wavelength", ValueError, s.measure, laser_correction=True, laser_wavelength=-env.real("x", 100, 900))
        s.measure(laser_correction=False, laser_wavelength=-env.c(5), bose_einstein_correction=False, temperature=t)
    tiny = env.real("tiny", 1, 1000)
    _, e = env.try_(bose, w, tiny)
    env.eq("positive temperatures accepted", e, None)
    _, e = env.try_(laser, w, tiny)
    env.eq("positive laser wavenumbers accepted", e, None)


def requested(env, kind, m):
    """Every combination of corrections multiplies by exactly the requested factors."""
    laser, bose = functions(env)
    s = spectra(env, kind, m)
    lam = env.real("lambda", 200, 1100)
    temp = env.real("T", 50, 1500)
    w, plain = s.measure()
    plain = plain.copy()
    w = w.copy()
    fl, fb = laser(w, 10**7 / lam), bose(w, temp)
    on_l, on_b = env.flag("laser"), env.flag("thermal")
    kw = {}
    if on_l or env.flag("give wavelength"):
        kw["laser_wavelength"] = lam
    if on_b or env.flag("give temperature"):
        kw["temperature"] = temp
    w2, got = s.measure("polycrystalline", laser_correction=on_l, bose_einstein_correction=on_b, **kw)
    env.close("wavenumbers", w2, w)
    for k in range(m):
        want = plain[k]
        if on_l:
            want = want * fl[k]
        if on_b:
            want = want * fb[k]
        env.close(f"intensity {k}", got[k], want, 1e-4)
    w3, again = s.measure()
    env.close("plain again", again, plain)
    env.close("wavenumbers again", w3, w)


def defaults(env, kind):
    """Default wavelength 522 nm and temperature 300 K."""
    laser, bose = functions(env)
    s = spectra(env, kind, 2)
    w, plain = s.measure()
    _, a = s.measure(laser_correction=True)
    _, b = s.measure(bose_einstein_correction=True)
    env.close("522 nm", a, plain * laser(w, env.c(10**7) / 522), 1e-4)
    env.close("300 K", b, plain * bose(w, env.c(300)), 1e-4)


def large(env, kind, m):
    """Many lines: the factors of each."""
    laser, bose = functions(env)
    if kind == "phonon":
        wn = filled(env, (m,), 15, 3900, free=[env.pick("line", [0, m // 2, m - 1])], name="w", span=(10, 4000))
        s = env.get("ramannoodle.spectrum._raman.PhononRamanSpectrum")(wn, filled_tensors(env, m, [m // 3]))
    else:
        s = env.get("ramannoodle.spectrum._raman.MDRamanSpectrum")(filled_tensors(env, m, [m // 3]), env.real("dt", 0.5, 3))
    lam, temp = env.real("lambda", 200, 1100), env.real("T", 50, 1500)
    w, plain = s.measure()
    plain, w = plain.copy(), w.copy()
    fl, fb = laser(w, 10**7 / lam), bose(w, temp)
    _, a = s.measure("polycrystalline", laser_correction=True, laser_wavelength=lam)
    _, b = s.measure("polycrystalline", bose_einstein_correction=True, temperature=temp)
    env.eq("lengths", (len(a), len(b)), (len(w), len(w)))
    for k in range(len(w)):
        env.close(f"laser {k}", a[k], plain[k] * fl[k], 1e-4)
        env.close(f"thermal {k}", b[k], plain[k] * fb[k], 1e-4)
        one = laser(w[k : k + 1], 10**7 / lam)
        env.close("entry by entry", fl[k], one[0], 1e-5)


def units(tier):
    deep = tier != "quick"
    us = [Unit("laser", laser_formula, {}, "wavenumbers 1..5000, laser 1000..50000 1/cm", budget=60)]
    us.append(Unit("thermal", thermal_formula, {}, "wavenumbers 20..4000 1/cm, temperatures 50..1500 K", budget=60))
    for kind, (lo, hi, cold, warm) in EXTREMES.items():
        us.append(Unit(f"thermal-{kind}", extremes, dict(kind=kind), f"two wavenumbers in {lo}..{hi} 1/cm, temperatures {cold}..{warm} K", budget=100))
    us.append(Unit("whole", whole, {}, "two lines, integer arrays and numbers", budget=60))
    us.append(Unit("refusal", refusal, {}, "temperatures -300..0, laser wavenumbers -20000..0", budget=60))
    for kind in ("phonon", "md"):
        for m in (1, 2) + ((3,) if deep else ()):
            us.append(Unit(f"{kind}-{m}", requested, dict(kind=kind, m=m), f"{m} lines; wavelengths 200..1100 nm, temperatures 50..1500 K", budget=120))
        us.append(Unit(f"default-{kind}", defaults, dict(kind=kind), "two lines", budget=60))
    us.append(Unit("large-phonon", large, dict(kind="phonon", m=60 if not deep else 250), "sixty (thorough 250) lines, one of them free", budget=120))
    us.append(Unit("large-md", large, dict(kind="md", m=20 if not deep else 40), "a series of twenty (thorough 40) configurations", budget=120))
    return us + layouts(us, "laser", "phonon-2", "md-1")
