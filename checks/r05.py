"""R05: results and documented copies are independent values."""
from checks.models import *


def leaves(x):
    """Arrays and lists inside a result, outermost first."""
    out = []
    if hasattr(x, "shape") and hasattr(x, "dtype"):
        return [x]
    if isinstance(x, dict):
        out.append(x)
        for v in x.values():
            out += leaves(v)
    elif isinstance(x, (list, tuple)):
        if isinstance(x, list):
            out.append(x)
        for v in x:
            out += leaves(v)
    return out


def snapshot(x):
    if hasattr(x, "detach"):
        return ("array", tuple(x.shape), x.detach().clone())
    if hasattr(x, "shape") and hasattr(x, "dtype"):
        return ("array", tuple(x.shape), x.copy())
    if isinstance(x, dict):
        return ("dict", tuple(x), [snapshot(v) for v in x.values()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, len(x), [snapshot(v) for v in x])
    return ("value", None, x)


def same(env, label, a, b):
    env.eq(label + " structure", (a[0], a[1]), (b[0], b[1]))
    if a[0] == "array":
        env.close(label, a[2], b[2])
    elif a[0] == "value":
        if isinstance(a[2], (int, str, bool)):
            env.eq(label, a[2], b[2])
        else:
            env.close(label, a[2], b[2])
    else:
        for x, y in zip(a[2], b[2]):
            same(env, label, x, y)


def spoil(env, x):
    """What a careless caller may do to a result."""
    for y in leaves(x):
        if isinstance(y, list):
            y.reverse()
            y.append(77)
            del y[0]
        elif isinstance(y, dict):
            y[99] = None
        elif str(y.dtype) in ("bool", "torch.bool"):
            y[...] = True
        elif y.shape:
            y[...] = 77
    return x


def play(env, getters, probe=None, twice=True):
    """Every ordered pair of requests, with everything returned by the first one overwritten."""
    names = list(getters)
    before = {n: snapshot(getters[n]()) for n in names}
    ref = snapshot(probe()) if probe else None
    i = env.choice("first", len(names))
    a = getters[names[i]]()
    same(env, f"{names[i]} again", snapshot(a), before[names[i]])
    spoil(env, a)
    j = env.choice("second", len(names))
    if j != i:
        b = getters[names[j]]()
        same(env, f"{names[j]} after spoiling {names[i]}", snapshot(b), before[names[j]])
        spoil(env, b)
    for n in names if twice else [names[i]]:
        same(env, f"{n} after spoiling", snapshot(getters[n]()), before[n])
    if probe:
        same(env, "computation after spoiling", snapshot(probe()), ref)


def structure(env):
    rs = env.get("ramannoodle.structure._reference.ReferenceStructure")
    n = 2
    lat = env.array(LATTICES["tric"])
    pos = env.array(POS[:2])
    nums = [22, 8]
    ref = rs(nums, lat, pos)
    d = env.arr("d", (n, 3), -0.4, 0.4)
    disp = env.array([[0.125, 0, 0], [0, 0, 0]])
    keep = d.copy()
    getters = {
        "atomic_numbers": lambda: ref.atomic_numbers,
        "lattice": lambda: ref.lattice,
        "positions": lambda: ref.positions,
        "equivalent atoms": lambda: {int(k): [int(x) for x in v] if not isinstance(v, list) else v for k, v in ref.get_equivalent_atom_dict().items()},
        "atom indexes": lambda: ref.get_atom_indexes(["Ti", "O"]),
        "cart displacement": lambda: ref.get_cart_displacement(d),
        "frac displacement": lambda: ref.get_frac_displacement(d),
        "cart direction": lambda: ref.get_cart_direction(d[0]),
        "frac direction": lambda: ref.get_frac_direction(d[0]),
        "equivalent displacements": lambda: ref.get_equivalent_displacements(disp),
    }
    play(env, getters, twice=False)
    same(env, "positions at the end", snapshot(ref.positions), snapshot(pos))
    env.close("lattice at the end", ref.lattice, env.array(LATTICES["tric"]))
    env.eq("numbers at the end", ref.atomic_numbers, [22, 8])
    env.close("argument kept", d, keep)


def model(env, art):
    interp, artm = model_classes(env)
    ref = ref_structure(env, "tric")
    p0 = env.symten("ref")
    m = (artm if art else interp)(ref, p0)
    h = env.c(1, 10)
    amps, pols = env.array([-h, h]), env.symten("p", 2)
    disp = env.array([[2, 1, 2], [0, 0, 0]])
    keep = [x.copy() for x in (amps, pols, disp, p0)]
    if art:
        m.add_art(0, disp[0], amps, pols)
        m.add_art(1, disp[0], amps, pols[::-1])
    else:
        m.add_dof(disp, amps, pols, 1)
        m.add_dof(disp[::-1], amps, pols[::-1], 1)
    t = env.arr("t", (2, 3), -0.05, 0.05)
    conf = env.array(POS[:2]) + t
    batch = env.array([conf, conf])
    keep_b = batch.copy()
    getters = {
        "ref polarizability": lambda: m.ref_polarizability,
        "basis vectors": lambda: m.cart_basis_vectors,
        "mask": lambda: m.mask,
        "positions of the structure": lambda: m.ref_structure._positions,
        "lattice of the structure": lambda: m.ref_structure._lattice,
        "numbers of the structure": lambda: m.ref_structure._atomic_numbers,
        "prediction": lambda: m.calc_polarizabilities(batch),
    }
    if art:
        getters["specification"] = lambda: m.get_specification_tuples()
        getters["dof indexes"] = lambda: m.get_dof_indexes([0, "O"])
    play(env, getters, lambda: m.calc_polarizabilities(batch))
    inter = m.interpolations
    inter.clear()
    inter = m.interpolations
    env.eq("interpolations", len(inter), 2)
    inter[0].c[...] = 99
    masked = m.get_masked_model([0])
    masked.unmask()
    masked.get_masked_model([1])
    mask = env.array([1, 0]) > 0
    masked.mask = mask
    got = masked.mask
    masked.unmask()
    env.eq("mask passed in is kept", [bool(x) for x in mask], [True, False])
    env.eq("mask handed out is kept", [bool(x) for x in got], [True, False])
    masked.mask = mask
    mask[0] = False
    env.eq("model keeps its mask", [bool(x) for x in masked.mask], [True, False])
    env.close("after spoiling interpolations", m.calc_polarizabilities(batch)[0], m.calc_polarizabilities(batch)[1])
    r = m.calc_polarizabilities(batch)
    m.calc_polarizabilities(keep_b + 0.25)
    env.close("an earlier result stays", r, m.calc_polarizabilities(batch))
    env.close("batch kept", batch, keep_b)
    for a, b in zip((amps, pols, disp, p0), keep):
        env.close("arguments kept", a, b)


def interpolations(env):
    """Modifying the splines handed out."""
    interp, _ = model_classes(env)
    m = interp(ref_structure(env, "tric"), env.symten("ref"))
    h = env.c(1, 10)
    m.add_dof(env.array([[2, 1, 2], [0, 0, 0]]), env.array([-h, h]), env.symten("p", 2), 1)
    conf = env.array([env.array(POS[:2]) + env.arr("t", (2, 3), -0.05, 0.05)])
    before = m.calc_polarizabilities(conf)
    masked = m.get_masked_model([])
    m.interpolations[0].c[...] = 99
    masked.interpolations[0].c[...] = 99
    m.interpolations.clear()
    env.close("prediction", m.calc_polarizabilities(conf), before)
    env.close("prediction of the masked model", masked.calc_polarizabilities(conf), before)


def phonons(env):
    ph = env.get("ramannoodle.dynamics._phonon.Phonons")
    from checks.d01 import Quadratic

    ref, wn, disp = env.arr("ref", (1, 3), 0.1, 0.9), env.arr("w", (2,), 10, 3000), env.arr("d", (2, 1, 3), -2, 2)
    keep = [x.copy() for x in (ref, wn, disp)]
    p = ph(ref, wn, disp)
    lin = [[env.symten(f"A{k}") for k in range(3)]]
    mod = Quadratic(env, [[0.5, 0.5, 0.5]], env.symten("p"), lin)
    getters = {
        "positions": lambda: p.ref_positions,
        "wavenumbers": lambda: p.wavenumbers,
        "displacements": lambda: p.displacements,
        "spectrum wavenumbers": lambda: p.get_raman_spectrum(mod).phonon_wavenumbers,
        "spectrum tensors": lambda: p.get_raman_spectrum(mod).raman_tensors,
        "measured": lambda: p.get_raman_spectrum(mod).measure(),
    }
    play(env, getters)
    for a, b in zip((ref, wn, disp), keep):
        env.close("arguments kept", a, b)


def trajectory(env):
    tr = env.get("ramannoodle.dynamics._trajectory.Trajectory")
    from checks.d01 import Quadratic

    pos = env.arr("pos", (4, 1, 3), 0.05, 0.95)
    keep = pos.copy()
    dt = env.real("dt", 0.5, 3)
    t = tr(pos, dt)
    lin = [[env.symten(f"A{k}") for k in range(3)]]
    mod = Quadratic(env, [[0.5, 0.5, 0.5]], env.symten("p"), lin)
    getters = {
        "positions": lambda: t.positions_ts,
        "timestep": lambda: t.timestep,
        "series": lambda: t.get_raman_spectrum(mod).polarizability_ts,
        "measured": lambda: t.get_raman_spectrum(mod).measure(),
    }
    play(env, getters)
    env.close("argument kept", pos, keep)
    pos[0, 0, 0] = 0.5


def spectra(env, kind):
    if kind == "phonon":
        wn, t = env.arr("w", (2,), 10, 4000), env.symten("t", 2)
        s = env.get("ramannoodle.spectrum._raman.PhononRamanSpectrum")(wn, t)
        getters = {"wavenumbers": lambda: s.phonon_wavenumbers, "tensors": lambda: s.raman_tensors}
        args = (wn, t)
    else:
        t = env.symten("t", 5, -2, 2)
        s = env.get("ramannoodle.spectrum._raman.MDRamanSpectrum")(t, env.c(1))
        getters = {"series": lambda: s.polarizability_ts, "timestep": lambda: s.timestep}
        args = (t,)
    keep = [x.copy() for x in args]
    getters["plain"] = lambda: s.measure()
    getters["laser"] = lambda: s.measure(laser_correction=True, laser_wavelength=env.c(500))
    getters["thermal"] = lambda: s.measure(bose_einstein_correction=True, temperature=env.c(400))
    getters["both"] = lambda: s.measure(laser_correction=True, bose_einstein_correction=True)
    play(env, getters)
    for a, b in zip(args, keep):
        env.close("arguments kept", a, b)


def dataset(env):
    ds = env.get("ramannoodle.dataset.torch._dataset.PolarizabilityDataset")
    lat, pos = env.array(LATTICES["tric"]), env.arr("pos", (2, 2, 3), 0.05, 0.95)
    base = env.array([[[1, 2, 3], [2, 4, 5], [3, 5, 6]], [[2, 4, 5], [4, 8, 9], [5, 9, 7]]])
    pol = base + env.symten("p", 2, -0.25, 0.25)
    keep = [x.copy() for x in (lat, pos, pol)]
    d = ds(lat, [22, 8], pos, pol)
    if env.flag("rescaled"):
        mean, dev = env.symten("mean"), env.symten("dev", None, 1, 3)
        km, kd = mean.copy(), dev.copy()
        d.scale_polarizabilities(mean, dev)
        env.close("mean kept", mean, km)
        env.close("deviation kept", dev, kd)
    getters = {
        "numbers": lambda: d.atomic_numbers,
        "positions": lambda: d.positions,
        "polarizabilities": lambda: d.polarizabilities,
        "scaled": lambda: d.scaled_polarizabilities,
        "mean": lambda: d.mean_polarizability,
        "deviation": lambda: d.stddev_polarizability,
    }
    play(env, getters, lambda: [x.detach().clone() for x in d[1]])
    for a, b in zip((lat, pos, pol), keep):
        env.close("arguments kept", a, b)


def helpers(env):
    """Free functions leave their arguments alone and return fresh arrays."""
    u = "ramannoodle.structure.utils."
    a, b = env.arr("a", (2, 3), -0.9, 1.9), env.arr("b", (2, 3), 0.05, 0.95)
    ka, kb = a.copy(), b.copy()
    which = env.pick("which", ["apply_pbc", "apply_pbc_displacement", "displace_positions", "calc_displacement"])
    fn = env.get(u + which)
    args = (a,) if which.startswith("apply") else (a, b)
    x = fn(*args)
    y = snapshot(x)
    spoil(env, x)
    env.close("first argument kept", a, ka)
    env.close("second argument kept", b, kb)
    same(env, "same answer", snapshot(fn(*args)), y)


def displaced(env):
    ref = ref_structure(env, "tric")
    g = env.get("ramannoodle.structure._displace.get_displaced_positions")
    h = env.get("ramannoodle.structure._displace.get_ast_displaced_positions")
    d, e = env.array([[2, 1, 2], [0, 0, 1]]), env.array([1, 2, 2])
    amps = env.array([env.real("x", -0.2, 0.2), env.real("y", -0.2, 0.2)])
    keep = [v.copy() for v in (d, e, amps)]
    play(env, {"displaced": lambda: g(ref, d, amps), "atom": lambda: h(ref, 1, e, amps), "positions": lambda: ref.positions})
    for x, y in zip((d, e, amps), keep):
        env.close("arguments kept", x, y)


def convolved(env):
    c = env.get("ramannoodle.spectrum.utils.convolve_spectrum")
    w, i, o = env.arr("w", (2,), 100, 110), env.arr("i", (2,), 0, 10), env.arr("o", (2,), 100, 110)
    keep = [v.copy() for v in (w, i, o)]
    fn = env.pick("function", ["gaussian", "lorentzian"])
    first = c(w, i, fn, env.c(5), o)[1].copy()
    x = c(w, i, fn, env.c(5), o)[1]
    x[...] = 77
    env.close("again", c(w, i, fn, env.c(5), o)[1], first)
    for a, b in zip((w, i, o), keep):
        env.close("arguments kept", a, b)


def units(tier):
    us = [
        Unit("structure", structure, {}, "two atoms, every ordered pair of requests", stub_symmetry=True, budget=150),
        Unit("phonons", phonons, {}, "two phonons, every ordered pair of requests", stub_symmetry=True, budget=60),
        Unit("trajectory", trajectory, {}, "four configurations, every ordered pair", stub_symmetry=True, budget=60),
        Unit("dataset", dataset, {}, "two samples, every ordered pair", budget=90),
        Unit("helpers", helpers, {}, "two atoms", budget=60),
        Unit("displaced", displaced, {}, "two atoms, two amplitudes", stub_symmetry=True, budget=60),
        Unit("convolved", convolved, {}, "two lines", budget=60),
        Unit("interpolations", interpolations, {}, "one degree of freedom", stub_symmetry=True, budget=60),
    ]
    for art in (False, True):
        us.append(Unit(f"model-{'art' if art else 'dof'}", model, dict(art=art), "two degrees of freedom, every ordered pair of requests", stub_symmetry=True, budget=250))
    for kind in ("phonon", "md"):
        us.append(Unit(f"spectrum-{kind}", spectra, dict(kind=kind), "every ordered pair of requests", budget=90))
    return us
