"""X01: predictions and spectra do not depend on how the same crystal is described."""
import numpy as rnp

from checks.crystals import CRYSTALS, S, Crystal
from checks import g03, g06
from checks.models import *

CELLS = [[[1, 1, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [-1, 0, 1]], [[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[1, 1, 1], [0, 1, 1], [0, 0, 1]], [[-1, 0, 0], [0, -1, 0], [0, 0, 1]]]
AXES = [[1, 2, 0], [1, 0, 2], [2, 1, 0]]


class Other:
    """A second description: atoms reordered, lattice vectors replaced, origin moved, frame rotated."""

    def __init__(self, env, n, kind, deep=False):
        self.env, self.n = env, n
        self.order = list(range(n))
        self.u = self.v = rnp.eye(3)
        self.t = [0.0, 0.0, 0.0]
        self.q = None
        if kind in ("order", "all"):
            self.order = [n - 1] + list(range(n - 1))
        if kind == "order":
            self.order = env.perm("order", n) if n < 4 else env.pick("order", [list(range(n))[::-1], self.order, [1, 0] + list(range(2, n)), [(3 * k + 1) % n for k in range(n)] if n % 3 else [(5 * k + 1) % n for k in range(n)]])
        if kind == "cell":
            self.u = rnp.array(env.pick("cell", CELLS), float)
        if kind == "axes":
            self.u = rnp.eye(3)[env.pick("axes", AXES)]
        if kind == "all":
            self.u = rnp.array(CELLS[1], float)
        if kind == "relabelled":
            self.u = rnp.eye(3)[env.pick("axes", AXES)]
            self.q = env.array(self.u.tolist())
        self.v = rnp.round(rnp.linalg.inv(self.u))
        if kind in ("origin", "all"):
            self.t = env.pick("origin", [[0.25, 0, 0.5], [0.03125, 0.9375, 0.375]])
        if kind == "rotated":
            self.q = env.rot("th", env.pick("axis", ["x", "y", "z"]))
        if kind in ("turned", "all"):
            self.q = env.array(env.pick("frame", [[[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[-1, 0, 0], [0, 0, 1], [0, 1, 0]]] + ([[[0.6, 0.8, 0], [-0.8, 0.6, 0], [0, 0, 1]]] if n > 3 or kind == "turned" and deep else [])))

    def lattice(self, lat):
        lat = self.env.array(self.u.tolist()) @ self.env.array(lat)
        return lat if self.q is None else lat @ self.q.T

    def atoms(self, items):
        return [items[k] for k in self.order]

    def reference(self, pos):
        p = rnp.array(pos, float) @ self.v + rnp.array(self.t)
        p = (p - rnp.floor(p))[self.order]
        return p.tolist()

    def positions(self, pos):
        """Of a configuration (fractional, symbolic)."""
        p = self.env.array(pos) @ self.env.array(self.v.tolist()) + self.env.array(self.t)
        return self.env.array([list(p[k]) for k in self.order])

    def cart(self, u):
        """A Cartesian displacement."""
        u = self.vector(u)
        return self.env.array([list(u[k]) for k in self.order])

    def vector(self, u):
        u = self.env.array(u)
        return u if self.q is None else u @ self.q.T

    def tensor(self, t):
        if self.q is None:
            return t
        return self.q @ t @ self.q.T

    def tensors(self, ts):
        return self.env.array([self.tensor(t) for t in ts])


def free(env, art, kind, lattice, deep):
    """Any tensors; two degrees of freedom; a cell without symmetry."""
    n = 3
    o = Other(env, n, kind, deep)
    rs = env.imp("ramannoodle.structure._reference")
    nums, lat = [22, 8, 16], LATTICES[lattice]
    cls = model_classes(env)[int(art)]
    p0 = env.symten("ref")
    a = cls(rs.ReferenceStructure(list(nums), env.array(lat), env.array(POS[:n])), p0)
    b = cls(rs.ReferenceStructure(o.atoms(nums), o.lattice(lat), env.array(o.reference(POS[:n]))), o.tensor(p0))
    h = env.real("h", 0.05, 0.2)
    amps = env.array([-h, h])
    if art:
        us = [[[2, 1, 2], [0, 0, 0], [0, 0, 0]], [[0, 0, 0], [0, 0, 0], [0, 3, 4]], [[-2, 2, 1], [0, 0, 0], [0, 0, 0]]]
    else:
        us = [[[1, 0, 2], [0, 2, 0], [0, 0, 0]], [[0, 0, 0], [0, 0, 1], [2, 2, 0]]]
    env_us = [unit_of(env, u) for u in us]
    for k, u in enumerate(env_us):
        p = env.symten(f"p{k}", 2)
        if art:
            i = next(i for i in range(n) if any(us[k][i]))
            a.add_art(i, u[i], amps, p)
            b.add_art(o.order.index(i), o.vector(u[i]), amps, o.tensors(p))
        else:
            a.add_dof(u, amps, p, 1)
            b.add_dof(o.cart(u), amps, o.tensors(p), 1)
    ts = [env.real(f"t{k}", -0.3, 0.3) for k in range(len(us))]
    confs = [at(env, lattice, n, [(ts[k], u)]) for k, u in enumerate(env_us)] + [at(env, lattice, n, list(zip(ts, env_us)))]
    got = b.calc_polarizabilities(env.array([o.positions(c) for c in confs]))
    want = a.calc_polarizabilities(env.array(confs))
    for k in range(len(confs)):
        env.close(f"prediction {k}", got[k], o.tensor(want[k]))
    if art:
        for i in range(n):
            env.eq(f"degrees of freedom of atom {i}", list(b.get_dof_indexes(o.order.index(i))), list(a.get_dof_indexes(i)))
    k = len(us) - 1
    got = b.get_masked_model([k]).calc_polarizabilities(env.array([o.positions(confs[-1])]))
    env.close("masked", got[0], o.tensor(a.get_masked_model([k]).calc_polarizabilities(env.array([confs[-1]]))[0]))
    # spectra
    ph = env.get("ramannoodle.dynamics._phonon.Phonons")
    tr = env.get("ramannoodle.dynamics._trajectory.Trajectory")
    li = inv3(env, env.array(lat))
    d = [u @ li for u in env_us]
    dd = [env.array([list(x[k]) for k in o.order]) @ env.array(o.v.tolist()) for x in d]
    w = env.array([env.c(100 * (k + 1)) for k in range(len(d))])
    s1 = ph(env.array(POS[:n]), w, env.array(d)).get_raman_spectrum(a)
    s2 = ph(env.array(o.reference(POS[:n])), w, env.array(dd)).get_raman_spectrum(b)
    for k in range(len(d)):
        env.close(f"Raman tensor {k}", s2.raman_tensors[k], o.tensor(s1.raman_tensors[k]))
    m1 = tr(env.array(confs), 1.0).get_raman_spectrum(a).polarizability_ts
    m2 = tr(env.array([o.positions(c) for c in confs]), 1.0).get_raman_spectrum(b).polarizability_ts
    for k in range(len(confs)):
        env.close(f"series {k}", m2[k], o.tensor(m1[k]))


def symmetric(env, crystal, kind):
    """Crystals with symmetry: tensors of a symmetry-respecting linear response, added for as many atoms as necessary."""
    cr = Crystal(crystal, not crystal.startswith(("cubic", "rutile", "tetra-P4mm")))
    o = Other(env, cr.n, kind)
    rs = env.imp("ramannoodle.structure._reference")
    _, artm = model_classes(env)
    lat = cr.lattice.tolist()
    p0 = cr.invariant(env, env.symten("ref"))
    a = artm(rs.ReferenceStructure(list(cr.numbers), env.array(lat), env.array(cr.positions.tolist())), p0)
    b = artm(rs.ReferenceStructure(o.atoms(cr.numbers), o.lattice(lat), env.array(o.reference(cr.positions))), o.tensor(p0))
    resp = cr.linear(env, "A")
    h = env.real("amp", 0.05, 0.2)
    covered, us = [], []
    for i in range(cr.n):
        for k in range(3):
            u = rnp.zeros((cr.n, 3))
            u[i, k] = 1
            if any(abs((u * v).sum()) > 1e-6 for v in covered):
                continue
            covered += cr.orbit(u)
            if cr.reverses(u):
                amps, pols = [h], [p0 + resp[i][k] * h]
            else:
                amps, pols = [h, -h], [p0 + resp[i][k] * h, p0 - resp[i][k] * h]
            a.add_art(i, env.array(u[i].tolist()), env.array(amps), env.array(pols))
            b.add_art(o.order.index(i), o.vector(u[i].tolist()), env.array(amps), o.tensors(pols))
    env.eq("degrees of freedom", len(b.cart_basis_vectors), len(a.cart_basis_vectors))
    li = inv3(env, env.array(lat))
    i = env.choice("atom", cr.n) if cr.n < 6 else env.pick("atom", [0, 3, 5])
    disp = [[0, 0, 0] for _ in range(cr.n)]
    disp[i] = [env.real(f"d{k}", -0.3, 0.3) for k in range(3)]
    conf = env.array(cr.positions.tolist()) + env.array(disp) @ li
    env.close("prediction", eval_one(env, b, o.positions(conf)), o.tensor(eval_one(env, a, conf)))
    ea, eb = a.ref_structure.get_equivalent_atom_dict(), b.ref_structure.get_equivalent_atom_dict()
    ca = sorted(sorted([int(k)] + [int(x) for x in v]) for k, v in ea.items())
    cb = sorted(sorted(o.order[int(x)] for x in [k] + list(v)) for k, v in eb.items())
    env.eq("equivalent atoms", cb, ca)


def network(env, graph, kind, elements=False):
    """The same weights, a second description of the structure."""
    n, numbers, cutoff = g06.GRAPHS[graph]
    if elements:
        a, b = env.pick("elements", [[14, 22], [8, 16], [14, 6], [1, 9]])
        numbers = [a, b, b]
    o = Other(env, n, kind)
    rs = env.imp("ramannoodle.structure._reference")
    mean, dev = env.symten("mean"), env.symten("dev", None, 0.5, 3)
    out = []
    for k in range(2):
        if k:
            ref = rs.ReferenceStructure(o.atoms(numbers), o.lattice(LATTICES["tric"]), env.array(o.reference(g03.POS[:n])))
        else:
            ref = rs.ReferenceStructure(list(numbers), env.array(LATTICES["tric"]), env.array(g03.POS[:n]))
        env.torch.manual_seed(5)
        out.append(env.get(g06.CLS)(ref, cutoff, 3, 3, 1, 0.0, 5.0, mean, dev))
    c = g06.conf(env, graph, "c", coords=((0, 1),) if elements else ((env.choice("atom", n), env.choice("coordinate", 3 if n < 3 else 2)),))
    g03.separations(env, [c])
    if kind == "order":
        env.close("prediction", g06.one(env, out[1], o.positions(c)), g06.one(env, out[0], c))
    else:
        env.close("prediction", g06.one(env, out[1], o.positions(c)), g06.one(env, out[0], c), 1e-6)


KINDS = ["order", "cell", "axes", "origin", "turned", "rotated", "all"]
GOOD = ["triclinic-P-1", "monoclinic-P2/m", "monoclinic-P21/c", "ortho-P212121", "ortho-Pmm2", "tetra-P4/mmm", "rutile", "cubic-CsCl", "cubic-ReO3", "box-P-1"]
MORE = ["monoclinic-Pm", "ortho-Pmmm", "tetra-perovskite", "cubic-perovskite", "cubic-P23", "box-H2", "triclinic-P1"]
# settings in which the implementation applies the operations correctly (others: M03, F1)
SAME = {"triclinic-P-1": KINDS}
# known findings (F1)
FINDINGS = [("monoclinic-P2/m", "turned"), ("ortho-Pmm2", "axes"), ("rutile", "origin")]


def units(tier):
    deep = tier != "quick"
    us = []
    for art in (False, True):
        for kind in KINDS:
            if kind == "rotated" and not (art and deep):
                continue
            for lattice in ("tric", "left") if deep else ("tric",):
                us.append(Unit(f"free-{'art' if art else 'dof'}-{kind}-{lattice}", free, dict(art=art, kind=kind, lattice=lattice, deep=deep), "three atoms, all tensors and amplitudes, two or three degrees of freedom", stub_symmetry=True, budget=200))
    for g in ("pair", "same", "three", "path"):
        for kind in ("order", "axes", "origin"):
            if not deep and (g == "same" or g == "three" and kind != "order" or g == "path" and kind == "order"):
                continue
            us.append(Unit(f"network-{g}-{kind}", network, dict(graph=g, kind=kind), "one coordinate of one atom displaced, layers uninterpreted", stub_symmetry=True, budget=120))
    us.append(Unit("network-elements", network, dict(graph="path", kind="order", elements=True), "four pairs of elements in every order of three atoms", stub_symmetry=True, budget=120))
    for name in GOOD + (MORE if deep else []):
        big = name in ("rutile", "cubic-ReO3", "cubic-perovskite", "cubic-P23")
        for kind in ["order"] if big and not deep else SAME.get(name, ["order", "relabelled"] + (["origin"] if name.startswith(("mono", "ortho", "box")) else [])):
            if kind == "rotated":
                continue
            us.append(Unit(f"crystal-{name}-{kind}", symmetric, dict(crystal=name, kind=kind), "symmetry-respecting linear responses, one atom displaced anywhere", budget=200))
    for name, kind in FINDINGS:
        us.append(Unit(f"crystal-{name}-{kind}", symmetric, dict(crystal=name, kind=kind), "symmetry-respecting linear responses, one atom displaced anywhere", budget=60))
    return us
