"""M03: symmetry-equivalent degrees of freedom carry correctly rotated polarizabilities."""
import numpy as rnp

from checks.crystals import Crystal
from checks.models import *

FRAMES = {
    "axes": [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    "diag": [[1, 1, 0], [1, -1, 0], [0, 0, 1]],
    "reversed": [[0, 0, -1], [0, -1, 0], [-1, 0, 0]],
    "pythag": [[3, 4, 0], [-4, 3, 0], [0, 0, 1]],
}


def orthonormal(env, model, n):
    basis_ = [env.array(b).reshape(-1) for b in model.cart_basis_vectors]
    env.eq("degrees of freedom", len(basis_), n)
    for i in range(len(basis_)):
        for j in range(i + 1):
            d = env.c(0)
            for x, y in zip(basis_[i], basis_[j]):
                d = d + x * y
            env.close("orthonormal", d, env.c(1 if i == j else 0))


def linear(env, crystal, frame, shift, size=0, length=0, small=False):
    """Atomic Raman tensors taken from any symmetry-respecting linear response reproduce that response."""
    cr = Crystal(crystal, shift)
    _, artm = model_classes(env)
    ref = cr.structure(env)
    unit = env.c(10) ** size if size >= 0 else 1 / env.c(10) ** -size
    long = env.c(10) ** length if length >= 0 else 1 / env.c(10) ** -length
    p0 = cr.invariant(env, env.symten("ref")) * unit
    a = [[x * unit for x in row] for row in cr.linear(env, "A")]
    model = artm(ref, p0)
    covered = []
    h = env.real("amp", *((0.001, 0.01) if small else (0.05, 0.2)))
    for atom in range(cr.n):
        for d in FRAMES[frame]:
            u = rnp.zeros((cr.n, 3))
            u[atom] = rnp.array(d) / rnp.linalg.norm(d)
            if any(abs((u * v).sum()) > 1e-6 for v in covered):
                continue
            if not cr.clean(u) and frame != "axes":
                continue
            covered += cr.orbit(u)
            resp = env.array([[0, 0, 0]] * 3)
            nrm = norm_of(env, d)
            for k in range(3):
                if d[k]:
                    resp = resp + a[atom][k] * (env.c(d[k]) / nrm)
            if cr.reverses(u):
                amps, pols = [h], [p0 + resp * h]
            else:
                amps, pols = [h, -h], [p0 + resp * h, p0 - resp * h]
            model.add_art(atom, env.array(d) * long, env.array(amps), env.array(pols))
    orthonormal(env, model, len(covered))
    # predictions: each atom displaced, and a collective one
    pos = env.array(cr.positions.tolist())
    li = inv3(env, env.array(cr.lattice.tolist()))
    disp = [[env.real(f"d{i}{k}", -0.3, 0.3) for k in range(3)] for i in range(cr.n)]
    want = p0
    full = len(covered) == 3 * cr.n
    if full:
        for i in range(cr.n):
            for k in range(3):
                want = want + a[i][k] * disp[i][k]
        env.close("linear response", eval_one(env, model, pos + env.array(disp) @ li) / unit, want / unit)
    t = env.real("t", -0.3, 0.3)
    for w in covered:
        wv = env.array(w.tolist()) * t
        want = p0
        for i in range(cr.n):
            for k in range(3):
                if abs(w[i, k]) > 1e-12:
                    want = want + a[i][k] * wv[i, k]
        env.close("along one covered direction", eval_one(env, model, pos + wv @ li) / unit, want / unit)


def nonlinear(env, crystal, vec, order, amps):
    """Equivariance of the prediction under every operation, for data that respect the site symmetry."""
    cr = Crystal(crystal, not crystal.startswith(ORIGIN))
    interp, _ = model_classes(env)
    ref = cr.structure(env)
    p0 = cr.invariant(env, env.symten("ref"))
    if isinstance(vec, int):
        u = cr.modes()[vec]
    else:
        u = rnp.zeros((cr.n, 3))
        for i, v in vec.items():
            u[i] = v
    u /= rnp.linalg.norm(u)
    assert cr.clean(u)
    rev = cr.reverses(u)
    n_amp = len(amps)
    raw = [env.symten(f"p{i}") for i in range(n_amp)]
    stab = [o for o in cr.ops if rnp.abs(cr.image(o, u) - u).max() < 1e-6]
    pols = []
    for r in raw:
        s = None
        for o in stab:
            x = cr.rotate(env, o, r)
            s = x if s is None else s + x
        pols.append(s / env.c(len(stab)))
    model = interp(ref, p0)
    h = env.real("scale", 0.75, 1.25) if order == 1 else env.c(1)
    values = [env.c(int(x), 100) * h for x in amps]
    if not rev:
        values, pols = values + [-v for v in values], pols + pols
        back = [env.symten(f"q{i}") for i in range(n_amp)]
        for i in range(n_amp):
            s = None
            for o in stab:
                x = cr.rotate(env, o, back[i])
                s = x if s is None else s + x
            pols[n_amp + i] = s / env.c(len(stab))
    model.add_dof(env.array(u.tolist()) * 3, env.array(values), env.array(pols), order, True)
    orthonormal(env, model, len(cr.orbit(u)))
    pos = env.array(cr.positions.tolist())
    li = inv3(env, env.array(cr.lattice.tolist()))
    # at the supplied amplitudes and between the two innermost ones
    t = env.real("t", 0.02, 0.98)
    top = min(x for x in amps)
    where = values + [env.c(int(top), 100) * h * t]
    for k, v in enumerate(where):
        base = eval_one(env, model, pos + (env.array(u.tolist()) * v) @ li)
        if k < len(values):
            env.close("supplied polarizability", base, pols[k])
        seen = set()
        for o in cr.ops:
            w = cr.image(o, u)
            key = (tuple(rnp.round(w, 6).ravel() + 0.0), tuple(rnp.round(o[0], 6).ravel() + 0.0))
            if key in seen or len(seen) >= 24:
                continue
            seen.add(key)
            got = eval_one(env, model, pos + (env.array(w.tolist()) * v) @ li)
            env.close("transformed configuration", got, cr.rotate(env, o, base))


ORIGIN = ("cubic", "rutile")  # the implementation needs the symmetry centre at the origin here (F1)
GOOD = ["triclinic-P-1", "triclinic-P1", "monoclinic-P2/m", "monoclinic-Pm", "monoclinic-P21/c", "ortho-Pmmm", "ortho-P212121", "ortho-Pmm2", "tetra-P4/mmm", "tetra-P4mm",
        "tetra-perovskite", "rutile", "cubic-CsCl", "cubic-ReO3", "cubic-perovskite", "cubic-P23", "box-P-1", "box-H2"]  # fmt: skip
KNOWN = ["hex-hcp", "hex-wurtzite", "trigonal", "fcc-primitive", "tetra-P41", "trigonal-P31"]

NONLIN = [
    ("triclinic-P-1", {1: [1, 0, 0]}, 3, [10, 20]),
    ("triclinic-P-1", {0: [0, 1, 0]}, 2, [10, 20]),
    ("monoclinic-P2/m", {1: [0, 1, 0]}, 2, [10, 20]),
    ("ortho-P212121", {0: [1, 0, 0]}, 2, [10, 20]),
    ("tetra-P4/mmm", {0: [1, 0, 0]}, 2, [10]),
    ("tetra-P4/mmm", {1: [1, 1, 0]}, 3, [10, 20]),
    ("tetra-P4mm", {0: [0, 0, 1]}, 2, [10, 20]),
    ("cubic-CsCl", {0: [0, 0, 1]}, 2, [10, 20]),
    ("cubic-CsCl", {0: [0, 1, 0], 1: [0, -1, 0]}, 1, [10]),
    ("cubic-ReO3", {1: [1, 0, 0]}, 2, [15]),
    ("cubic-ReO3", {2: [0, 0, 1]}, 3, [10, 25]),
    ("rutile", {0: [0, 0, 1]}, 1, [10]),
    ("rutile", {2: [1, 1, 0]}, 2, [10, 20]),
    ("triclinic-P-1", {0: [1, 2, 3]}, 2, [10, 20]),
    ("triclinic-P-1", {1: [3, 1, -2], 2: [3, 1, -2]}, 1, [10]),
]
# numbers of general collective modes
MODES = {"triclinic-P-1": 2, "monoclinic-P2/m": 4, "monoclinic-P21/c": 4, "ortho-P212121": 4, "ortho-Pmm2": 3, "ortho-Pmmm": 3, "box-P-1": 2, "box-H2": 6}


def units(tier):
    us = []
    thorough = tier != "quick"
    b = "concrete crystal and its full space group; every symmetry-respecting response, amplitude and displacement symbolic"
    for name in GOOD + KNOWN:
        frames = ["axes", "reversed"] if not thorough else list(FRAMES)
        if name in KNOWN:
            frames = ["axes"]
        for frame in frames:
            us.append(Unit(f"linear-{name}-{frame}", linear, dict(crystal=name, frame=frame, shift=not name.startswith(ORIGIN)), b, budget=150))
    us.append(Unit("linear-cubic-perovskite-shifted", linear, dict(crystal="cubic-perovskite", frame="axes", shift=True), b + "; origin off the symmetry centre", budget=150))
    us.append(Unit("linear-rutile-shifted", linear, dict(crystal="rutile", frame="axes", shift=True), b + "; origin off the symmetry centre", budget=150))
    for name in ("tetra-P4/mmm", "tetra-P4mm", "triclinic-P-1"):
        us.append(Unit(f"origin-{name}", linear, dict(crystal=name, frame="axes", shift=False), b + "; atoms on cell boundaries", budget=150))
    if not thorough:
        for name in ("tetra-P4/mmm", "cubic-CsCl"):
            us.append(Unit(f"linear-{name}-diag", linear, dict(crystal=name, frame="diag", shift=not name.startswith(ORIGIN)), b, budget=150))
        us.append(Unit("linear-triclinic-P-1-pythag", linear, dict(crystal="triclinic-P-1", frame="pythag", shift=True), b, budget=150))
    for name in ("cubic-sc", "ortho-one"):
        us.append(Unit(f"one-{name}", linear, dict(crystal=name, frame="axes", shift=False), b + "; one atom", budget=150))
    for size, length, small in ((-6, -4, False), (-2, 4, True), (5, -6, True), (0, 6, False)):
        for name in ("tetra-P4/mmm", "monoclinic-Pm", "ortho-P212121"):
            us.append(Unit(f"magnitude-{size}-{name}", linear, dict(crystal=name, frame="axes", shift=True, size=size, length=length, small=small), b + f"; tensors 10^{size} and direction lengths 10^{length} times ordinary ones" + ("; amplitudes 0.001 to 0.01" if small else ""), budget=100))
    for i, (name, vec, order, amps) in enumerate(NONLIN):
        us.append(Unit(f"nonlinear-{i}-{name}", nonlinear, dict(crystal=name, vec=vec, order=order, amps=amps), b + "; interpolation orders 1 to 3", budget=150))
    for name, n in MODES.items():
        for k in range(n):
            us.append(Unit(f"mode-{k}-{name}", nonlinear, dict(crystal=name, vec=k, order=1 + (k + n) % 2, amps=[10, 20][: 1 + k % 2]), b + "; general collective displacements kept or reversed by every operation", budget=150))
    return us + layouts(us, "linear-monoclinic-P2/m-axes", "linear-ortho-P212121-axes", "mode-0-monoclinic-P21/c")
