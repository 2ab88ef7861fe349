"""T01: trajectories are wrapped, ordered sequences with a positive timestep."""
from checks.common import *


def make(env, steps, atoms, wide=1, dt=None):
    np = env.np
    T = env.get("ramannoodle.dynamics._trajectory.Trajectory")
    x = env.array([[[(1 + 3 * s + 2 * a + i) / 32 % 1 for i in range(3)] for a in range(atoms)] for s in range(steps)])
    for s in range(steps):
        x[s, s % atoms, s % 3] = env.real(f"x{s}", 0.03, 0.97)
    return T, x


def wrap(env, atoms):
    """Any coordinates are wrapped into the cell, by whole cells."""
    np = env.np
    T = env.get("ramannoodle.dynamics._trajectory.Trajectory")
    x = env.array([[[0.25, 0.5, 0.75]] * atoms] * 2)
    s, a, i = env.choice("step", 2), env.choice("atom", atoms), env.choice("comp", 3)
    x[s, a, i] = env.real("x", -3.9, 3.9)
    keep = x.copy()
    dt = env.real("dt", 0.01, 50)
    t = T(x, dt)
    p = t.positions_ts
    env.true("inside the cell", (p >= 0) & (p <= 1))
    d = p - keep
    env.close("whole cells apart", d - np.rint(d), env.zero(d))
    env.close("argument kept", x, keep)
    env.close("timestep", t.timestep, dt)
    again = T(p, dt)
    env.close("wrapping twice changes nothing", again.positions_ts, p)


def sequence(env, steps):
    """Length, iteration, indexing, slicing."""
    T, x = make(env, steps, 2)
    t = T(x, 1.5)
    env.eq("length", len(t), steps)
    env.close("series", t.positions_ts, x)
    it = list(t)
    env.eq("iterated", len(it), steps)
    for i in range(steps):
        env.close("iteration", it[i], x[i])
    for i, r in enumerate(reversed(t)):
        env.close("reversed", r, x[steps - 1 - i])
    k = env.choice("index", 4 * steps + 3) - 2 * steps - 1
    if -steps <= k < steps:
        env.close("indexing", t[k], x[k])
    else:
        env.raises("outside", IndexError, lambda: t[k])


def slices(env, steps):
    T, x = make(env, steps, 1)
    t = T(x, 1.5)
    lo = [None] + list(range(-steps - 1, steps + 2))
    a, b = env.pick("start", lo), env.pick("stop", lo)
    c = env.pick("step", [None, 1, 2, 3, -1, -2])
    got = t[a:b:c]
    want = list(range(steps))[a:b:c]
    env.eq("number", len(got), len(want))
    for g, i in zip(got, want):
        env.close("slice", g, x[i])
    env.eq("length kept", len(t), steps)


def timestep(env):
    """Non-positive timesteps are refused, integers and other numbers are taken."""
    T, x = make(env, 2, 1)
    dt = env.real("dt", -5, 5)
    t, e = env.try_(T, x, dt)
    if e is None:
        env.true("positive", dt > 0)
        env.close("timestep", t.timestep, dt)
    else:
        env.true("refused", isinstance(e, ValueError), detail=repr(e))
        env.true("not positive", dt <= 0)
    env.close("integer", T(x, 3).timestep, 3)
    env.raises("zero", ValueError, T, x, 0)
    env.raises("negative", ValueError, T, x, -1)
    env.raises("none", TypeError, T, x, None)
    bad = env.pick("shape", ["flat", "two", "four"])
    y = {"flat": x.reshape(6), "two": x[0], "four": x.reshape(1, 2, 1, 3)}[bad]
    env.raises("wrong shape", ValueError, T, y, 1.0)
    env.raises("two components", ValueError, T, x[:, :, :2], 1.0)
    env.raises("list", TypeError, T, [[[0.1, 0.2, 0.3]]], 1.0)


def whole(env):
    """Whole-number coordinates: a series of unmoved atoms, or of whole cells."""
    np = env.np
    T = env.get("ramannoodle.dynamics._trajectory.Trajectory")
    x = env.pick("places", [[[[0, 0, 0], [0, 1, 0]], [[0, 0, 0], [0, 0, 2]]], [[[5, -1, 0], [0, 1, 0]], [[0, 7, 0], [0, 0, -2]]]])
    dt = env.pick("dt", [1, 2])
    t = T(env.ints(x), dt)
    p = t.positions_ts
    env.eq("length", len(t), 2)
    env.close("timestep", t.timestep, dt)
    env.true("inside the cell", (p >= 0) & (p <= 1))
    env.close("whole cells", p - np.rint(p), env.zero(p))
    A = env.symten("A")

    class Model:
        def calc_polarizabilities(self, batch):
            return env.array([A * (b[0, 0] + 1) + A * A * (k + 1) for k, b in enumerate(env.np.array(batch))])

    spec = t.get_raman_spectrum(Model())
    env.close("polarizabilities", spec.polarizability_ts, [A * (p[k, 0, 0] + 1) + A * A * (k + 1) for k in range(2)])


def far(env, size):
    """Coordinates many cells away, or very close to a cell boundary, and any positive timestep."""
    np = env.np
    T = env.get("ramannoodle.dynamics._trajectory.Trajectory")
    x = env.array([[[0.25, 0.5, 0.75]] * 2] * 3)
    tiny = env.real("tiny", 10**-7, 10**-4)
    r = env.real("r", 0.05, 0.95)
    cells = [env.pick("cells", [0, 1, -1, 40, -40, 1000, -1000]), env.pick("cells of another", [0, -100000])]
    x[0, 0, 0] = r + cells[0]
    x[1, 1, 2] = tiny + cells[0]
    x[2, 0, 1] = 1 - tiny + cells[1]
    dt = env.real("dt", *size)
    t = T(x, dt)
    p = t.positions_ts
    env.true("inside the cell", (p >= 0) & (p <= 1))
    d = p - x
    env.close("whole cells apart", d - np.rint(d), env.zero(d), 1e-6)
    env.close("far", p[0, 0, 0], r, 1e-6)
    env.close("close to zero", p[1, 1, 2], tiny, 1e-9)
    env.close("close to one", p[2, 0, 1], 1 - tiny, 1e-9)
    env.close("timestep", t.timestep / dt, dt / dt)
    m = Linear(env, 2)
    s = t.get_raman_spectrum(m)
    env.close("timestep of the spectrum", s.timestep / dt, dt / dt)
    env.close("polarizabilities", s.polarizability_ts, env.array([m.tensor(y) for y in p]), 1e-6)


class Linear:
    """A model whose polarizability depends on every coordinate."""

    def __init__(self, env, atoms, bad=None):
        self.env, self.bad = env, bad
        self.w = env.arr("w", (atoms, 3), -2, 2)
        self.calls = []

    def tensor(self, p):
        np = self.env.np
        s = (p * self.w).sum()
        return self.env.array([[s, 2 * s, p[0, 0]], [2 * s, p[0, 1], s], [p[0, 0], s, p[0, 2]]])

    def calc_polarizabilities(self, batch):
        if self.bad:
            raise ValueError("wrong number of atoms")
        self.calls.append(len(batch))
        return self.env.array([self.tensor(p) for p in batch])


def spectrum(env, steps):
    """The spectrum is that of the model's polarizabilities in the same order."""
    T, x = make(env, steps, 2)
    dt = env.real("dt", 0.1, 9)
    t = T(x, dt)
    m = Linear(env, 2)
    s = t.get_raman_spectrum(m)
    env.close("polarizabilities", s.polarizability_ts, env.array([m.tensor(p) for p in x]))
    env.close("timestep", s.timestep, dt)
    env.close("trajectory kept", t.positions_ts, x)
    M = env.get("ramannoodle.spectrum._raman.MDRamanSpectrum")
    w, i = s.measure()
    w2, i2 = M(env.array([m.tensor(p) for p in x]), dt).measure()
    env.close("wavenumbers", w, w2, 1e-3)
    env.close("intensities", i, i2, 1e-3)


def incompatible(env):
    T, x = make(env, 2, 2)
    env.raises("incompatible model refused", ValueError, T(x, 1.0).get_raman_spectrum, Linear(env, 2, bad=True))


def real_model(env, steps):
    """The same with an actual model."""
    R = env.get("ramannoodle.structure._reference.ReferenceStructure")
    A = env.get("ramannoodle.pmodel._art.ARTModel")
    T = env.get("ramannoodle.dynamics._trajectory.Trajectory")
    pos = env.array(POS[:2])
    ref = R([22, 8], lattice_of(env, "ortho"), pos)
    m = A(ref, env.symten("e"))
    for a in range(2):
        for d in ([1, 0, 0], [0, 1, 0], [0, 0, 1]):
            m.add_art(a, env.array(d), env.array([0.1, -0.1]), env.symten(f"t{a}{d.index(1)}", 2))
    x = env.array([pos + env.arr(f"d{s}", (2, 3), -0.02, 0.02) for s in range(steps)])
    t = T(x, env.c(2))
    s = t.get_raman_spectrum(m)
    one = env.array([m.calc_polarizabilities(x[k : k + 1])[0] for k in range(steps)])
    env.close("polarizabilities", s.polarizability_ts, one)


def large(env, steps, atoms):
    """A long trajectory: order, slices, wrapping and spectrum."""
    np = env.np
    T = env.get("ramannoodle.dynamics._trajectory.Trajectory")
    free = env.pick("configurations", [[0, steps - 1], [steps // 2], [steps // 3]])
    x = filled(env, (steps, atoms, 3), 0, 1, step=29)
    jump = [[[(s * 3 + a + k) % 5 - 2 if (s + a) % 4 == 0 else 0 for k in range(3)] for a in range(atoms)] for s in range(steps)]
    for s in free:
        x[s, s % atoms, s % 3] = env.real(f"x{s}", 0.02, 0.98)
    dt = env.real("dt", 0.1, 9)
    t = T(x + env.array(jump), dt)
    env.eq("length", len(t), steps)
    p = t.positions_ts
    env.true("inside the cell", (p >= 0) & (p <= 1))
    d = p - x
    env.close("whole cells apart", d - np.rint(d), env.zero(d))
    env.close("iteration", env.array(list(t)), p)
    for k in (0, 1, steps // 2, steps - 1, -1, -steps, -steps // 2):
        env.close("index", t[k], p[k])
    for k in (steps, steps + 1, -steps - 1):
        env.raises("outside", IndexError, lambda k=k: t[k])
    for sl in (slice(2, None, 3), slice(None, -1), slice(None, None, -1), slice(steps // 2, steps + 9), slice(-7, None)):
        want = list(range(steps))[sl]
        got = t[sl]
        env.eq("slice length", len(got), len(want))
        for g, i in zip(got, want):
            env.close("slice", g, p[i])
    m = Linear(env, atoms)
    s = t.get_raman_spectrum(m)
    env.close("polarizabilities", s.polarizability_ts, env.array([m.tensor(y) for y in p]))
    env.close("timestep", s.timestep, dt)


def units(tier):
    us = [Unit(f"wrap-{a}", wrap, dict(atoms=a), "two configurations, one coordinate anywhere in [-3.9,3.9], timestep in [0.01,50]", budget=90) for a in (1, 2)]
    for s in (1, 2, 4) if tier == "quick" else (1, 2, 4, 6):
        us.append(Unit(f"sequence-{s}", sequence, dict(steps=s), f"{s} configurations, every index from {-2 * s - 1} to {2 * s + 1}"))
    for s in (1, 3) if tier == "quick" else (1, 3, 5):
        us.append(Unit(f"slices-{s}", slices, dict(steps=s), f"{s} configurations, every slice with bounds from {-s - 1} to {s + 1} and six steps", max_paths=2000))
    us.append(Unit("timestep", timestep, {}, "timesteps in [-5,5]"))
    for s in (3, 5):
        us.append(Unit(f"spectrum-{s}", spectrum, dict(steps=s), f"{s} configurations, linear models with weights in [-2,2]"))
    for k, size in enumerate([(10**-6, 10**-3), (0.1, 10), (10**3, 10**9)]):
        us.append(Unit(f"far-{k}", far, dict(size=size), f"coordinates up to 100000 cells away and within 1e-7 of a cell boundary, timestep in {size}", budget=90))
    us.append(Unit("whole", whole, {}, "two configurations of two atoms at integer places", budget=60))
    us.append(Unit("incompatible", incompatible, {}, ""))
    us.append(Unit("art-model", real_model, dict(steps=3), "three configurations within 0.02 of the reference", stub_symmetry=True, budget=90))
    for steps, atoms in ((60, 3), (257, 1), (270, 1), (512, 1)) if tier == "quick" else ((60, 3), (257, 1), (270, 1), (501, 1), (512, 1), (1025, 1), (1030, 1), (40, 20)):
        us.append(Unit(f"large-{steps}x{atoms}", large, dict(steps=steps, atoms=atoms), f"{steps} configurations of {atoms} atoms, one or two free coordinates, free linear models", budget=150))
    return us + layouts(us, "wrap-2", "spectrum-3", "large-270x1")
