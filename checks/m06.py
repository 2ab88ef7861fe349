"""M06: masking removes exactly the chosen degrees of freedom and nothing else."""
from checks.models import *

NUMBERS = [22, 8, 8]


def build(env, art, n=3):
    interp, artm = model_classes(env)
    ref = ref_structure(env, "tric", n, NUMBERS[:n])
    p0 = env.symten("ref")
    h = env.c(1, 10)
    amps = env.array([-h, h])
    model = (artm if art else interp)(ref, p0)
    lin, dirs = [], []
    if art:
        plan = [(0, [1, 0, 0]), (2, [0, 3, 4]), (1, [0, 0, 1]), (2, [0, 4, -3])]
        for k, (atom, d) in enumerate(plan):
            m = env.symten(f"A{k}")
            model.add_art(atom, env.array(d), amps, env.array([p0 - m * h, p0 + m * h]))
            lin.append(m)
            u = [[0] * 3 for _ in range(n)]
            u[atom] = d
            dirs.append(unit_of(env, u))
        moves = [[a] for a, _ in plan]
    else:
        z = [0, 0, 0]
        plan = [[[1, 0, 0], [1, 0, 0], z], [[1, 0, 0], [-1, 0, 0], z], [z, z, [1, 2, 2]], [z, [0, 0, 5], z]]
        for k, d in enumerate(plan):
            m = env.symten(f"A{k}")
            model.add_dof(env.array(d), amps, env.array([p0 - m * h, p0 + m * h]), 1)
            lin.append(m)
            dirs.append(unit_of(env, d))
        moves = [[0, 1], [0, 1], [2], [1]]
    return model, p0, lin, dirs, moves


def subset(env, name, n):
    return [k for k in range(n) if env.flag(f"{name}{k}")]


def masks(env, art):
    model, p0, lin, dirs, _ = build(env, art)
    t = [env.real(f"t{k}", -0.3, 0.3) for k in range(len(lin))]
    conf = at(env, "tric", 3, list(zip(t, dirs)))

    def want(off):
        w = p0
        for k in range(len(lin)):
            if k not in off:
                w = w + lin[k] * t[k]
        return w

    s = subset(env, "s", len(lin))
    rest = [k for k in range(len(lin)) if k not in s]
    order = s[::-1]
    a = model.get_masked_model(order)
    b = model.get_masked_model(rest)
    full = eval_one(env, model, conf)
    pa, pb = eval_one(env, a, conf), eval_one(env, b, conf)
    env.close("all", full, want([]))
    env.close("masked", pa, want(s))
    env.close("complement", pb, want(rest))
    env.close("split", pa + pb - p0, full)
    env.eq("mask", [bool(x) for x in a.mask], [k in s for k in range(len(lin))])
    env.eq("original mask", [bool(x) for x in model.mask], [False] * len(lin))
    env.eq("type kept", type(a) is type(model), True)
    # masking again replaces the earlier mask
    one = env.choice("again", len(lin))
    c = a.get_masked_model([one])
    env.close("replaced", eval_one(env, c, conf), want([one]))
    env.close("first masked model unchanged", eval_one(env, a, conf), want(s))
    none = a.get_masked_model([])
    env.close("empty mask", eval_one(env, none, conf), want([]))
    a.unmask()
    env.close("unmasked", eval_one(env, a, conf), want([]))
    env.close("others unaffected by unmasking", eval_one(env, c, conf), want([one]))
    env.close("complement unaffected", eval_one(env, b, conf), want(rest))


def repeated(env, art, length):
    """An index given more than once masks once."""
    model, p0, lin, dirs, moves = build(env, art)
    n = len(lin)
    t = [env.real(f"t{k}", -0.3, 0.3) for k in range(n)]
    conf = at(env, "tric", 3, list(zip(t, dirs)))
    idx = [env.choice(f"index{k}", n) for k in range(length)]
    a = model.get_masked_model(list(idx))

    def want(off):
        w = p0
        for k in range(n):
            if k not in off:
                w = w + lin[k] * t[k]
        return w

    env.eq("mask", [bool(x) for x in a.mask], [k in idx for k in range(n)])
    env.close("masked", eval_one(env, a, conf), want(idx))
    b = a.get_masked_model(list(idx))
    env.close("masked the same way again", eval_one(env, b, conf), want(idx))
    env.close("original", eval_one(env, model, conf), want([]))
    if art:
        atoms = [moves[k][0] for k in idx]
        off = [k for k in range(n) if moves[k][0] in atoms]
        env.eq("atoms given more than once", sorted(model.get_dof_indexes(atoms)), off)
        env.eq("and by symbol", sorted(model.get_dof_indexes(["O"] + atoms + ["O"])), [k for k in range(n) if k in off or moves[k][0] > 0])


def setter(env, art):
    """In-place masking with an array, and degrees of freedom added afterwards."""
    model, p0, lin, dirs, _ = build(env, art)
    t = [env.real(f"t{k}", -0.3, 0.3) for k in range(len(lin) + 1)]
    s = subset(env, "s", len(lin))
    model.mask = env.np.array([k in s for k in range(len(lin))])
    h = env.c(1, 10)
    m = env.symten("extra")
    z = [0, 0, 0]
    pols = env.array([p0 - m * h, p0 + m * h])
    if art:
        d = [[0, 1, 0], z, z]
        model.add_art(0, env.array(d[0]), env.array([-h, h]), pols)
    else:
        d = [[0, 0, 2], z, z]
        model.add_dof(env.array(d), env.array([-h, h]), pols, 1)
    env.eq("new degree of freedom is active", [bool(x) for x in model.mask], [k in s for k in range(len(lin))] + [False])
    conf = at(env, "tric", 3, list(zip(t, dirs + [unit_of(env, d)])))
    want = p0 + m * t[-1]
    for k in range(len(lin)):
        if k not in s:
            want = want + lin[k] * t[k]
    env.close("prediction", eval_one(env, model, conf), want)
    env.raises("wrong length", ValueError, setattr, model, "mask", env.np.array([True] * len(lin)))
    env.close("prediction kept", eval_one(env, model, conf), want)


def grown(env, art):
    """Degrees of freedom added to a masked model or to the original afterwards belong to that model alone."""
    model, p0, lin, dirs, _ = build(env, art)
    n = len(lin)
    s = subset(env, "s", 2)
    k = model.get_masked_model(s)
    h = env.c(1, 10)
    z = [0, 0, 0]
    new = [[[0, 1, 0], z, z], [[0, 0, 2], z, z]]
    m = [env.symten("x0"), env.symten("x1")]

    def add(target, i):
        pols = env.array([p0 - m[i] * h, p0 + m[i] * h])
        if art:
            target.add_art(0, env.array(new[i][0]), env.array([-h, h]), pols)
        else:
            target.add_dof(env.array(new[i]), env.array([-h, h]), pols, 1)

    t = [env.real(f"t{i}", -0.3, 0.3) for i in range(n + 2)]
    conf = at(env, "tric", 3, list(zip(t, dirs + [unit_of(env, d) for d in new])))

    def want(off, extra):
        w = p0
        for i in range(n):
            if i not in off:
                w = w + lin[i] * t[i]
        for i in extra:
            w = w + m[i] * t[n + i]
        return w

    first = env.choice("grown", 3)  # the masked model, the original, or both
    if first != 1:
        add(k, 0)
    if first != 0:
        add(model, 1)
    a, b = [0] if first != 1 else [], [1] if first != 0 else []
    env.eq("masked model's degrees of freedom", (len(k.cart_basis_vectors), len(k.mask)), (n + len(a),) * 2)
    env.eq("original's degrees of freedom", (len(model.cart_basis_vectors), len(model.mask)), (n + len(b),) * 2)
    env.close("masked model", eval_one(env, k, conf), want(s, a))
    env.close("original", eval_one(env, model, conf), want([], b))


def select(env):
    """Degrees of freedom by atom."""
    model, p0, lin, dirs, moves = build(env, True)
    symbols = ["Ti", "O", "O"]
    items, atoms = [], set()
    for k in range(3):
        if env.flag(f"index{k}"):
            items.append(k)
            atoms.add(k)
    for s in ("Ti", "O", "Zr"):
        if env.flag(f"symbol{s}"):
            items.insert(len(items) // 2, s)
            atoms |= {i for i in range(3) if symbols[i] == s}
    want = sorted(k for k in range(len(moves)) if set(moves[k]) & atoms)
    got = model.get_dof_indexes(items)
    env.eq("selected", sorted(got), want)
    if len(items) == 1:
        env.eq("single item", sorted(model.get_dof_indexes(items[0])), want)
    t = [env.real(f"t{k}", -0.3, 0.3) for k in range(len(lin))]
    conf = at(env, "tric", 3, list(zip(t, dirs)))
    w = p0
    for k in range(len(lin)):
        if k not in want:
            w = w + lin[k] * t[k]
    env.close("masked by atom", eval_one(env, model.get_masked_model(got), conf), w)


def names(env, numbers, symbols):
    """Selection by symbols that contain each other."""
    rs = env.imp("ramannoodle.structure._reference")
    ref = rs.ReferenceStructure(list(numbers), lattice_of(env, "tric"), env.array(POS[: len(numbers)]))
    chosen = [s for s in symbols if env.flag(s)]
    order = chosen if env.flag("forward") else chosen[::-1]
    have = [s.strip("*") for s in symbols if not s.endswith("*")]
    real = {s: [i for i, x in enumerate(numbers) if x == z] for s, z in zip(have, sorted(set(numbers), key=list(numbers).index))}
    want = sorted(i for s in chosen for i in real.get(s, []))
    asked = [s.strip("*") for s in order]
    env.eq("atoms", sorted(ref.get_atom_indexes(asked)), want)
    if len(asked) == 1:
        env.eq("single symbol", sorted(ref.get_atom_indexes(asked[0])), want)
    _, artm = model_classes(env)
    model = artm(ref, env.symten("ref"))
    amps, p = env.array([env.c(-1, 10), env.c(1, 10)]), env.symten("p", 2)
    atoms = list(range(len(numbers)))[::-1]
    for i in atoms:
        model.add_art(i, env.array([0, 1, 0]), amps, p)
    env.eq("degrees of freedom", sorted(model.get_dof_indexes(list(asked))), sorted(atoms.index(i) for i in want))


def directions(env):
    """Selection looks at the displacement of the atom, however small a component is."""
    _, artm = model_classes(env)
    ref = ref_structure(env, "cubic", 2)
    p0 = env.symten("ref")
    c, s = env.unit("th")
    env.assume(s > 0.05, c > 0.05)  # directions whose components cancel included
    z = env.c(0)
    model = artm(ref, p0)
    p = env.symten("p", 2)
    amps = env.array([env.c(-1, 10), env.c(1, 10)])
    model.add_art(1, env.array([c, s, z]), amps, p)
    model.add_art(1, env.array([-s, c, z]), amps, p)
    model.add_art(0, env.array([z, c, s]), amps, p)
    env.eq("atom 1", sorted(model.get_dof_indexes(1)), [0, 1])
    env.eq("atom 0", sorted(model.get_dof_indexes([0])), [2])
    env.eq("oxygen", sorted(model.get_dof_indexes("O")), [0, 1])
    env.eq("titanium", sorted(model.get_dof_indexes("Ti")), [2])
    spec = model.get_specification_tuples()
    env.eq("specification", [(a, len(list(e)), len(d)) for a, e, d in spec], [(0, 0, 1), (1, 0, 2)])
    env.close("direction", spec[1][2][0], env.array([c, s, z]))
    env.close("direction 2", spec[1][2][1], env.array([-s, c, z]))


def large(env, art, atoms):
    """Masks of all degrees of freedom of a larger cell, one of them free to be on or off."""
    interp, artm = model_classes(env)
    rs = env.imp("ramannoodle.structure._reference")
    n = 3 * atoms
    pos = [[(2 * k + 1) / 32, (3 * k + 1) % 16 / 16, (5 * k + 2) % 16 / 16] for k in range(atoms)]
    lat = lattice_of(env, "tric")
    ref = rs.ReferenceStructure([22 if k % 3 else 8 for k in range(atoms)], lat, env.array(pos))
    p0 = env.symten("ref")
    h = env.c(1, 10)
    probe = env.pick("probe", [0, n // 2, n - 1])
    lin = filled_tensors(env, n, [probe], name="A")
    model = (artm if art else interp)(ref, p0)
    for k in range(n):
        d = [[0, 0, 0] for _ in range(atoms)]
        d[k // 3][k % 3] = 1
        args = (env.array([-h, h]), env.array([p0 - lin[k] * h, p0 + lin[k] * h]))
        if art:
            model.add_art(k // 3, env.array(d[k // 3]), *args)
        else:
            model.add_dof(env.array(d), *args, 1)
    moves = [[env.c((3 * a + 7 * k) % 11 - 5, 60) for k in range(3)] for a in range(atoms)]
    moves[probe // 3][probe % 3] = env.real("x", -0.2, 0.2)
    conf = env.array(pos) + env.array(moves) @ inv3(env, lat)
    off = [k for k in range(n) if (k * k + k // 2) % 5 < 2 and k != probe] + ([probe] if env.flag("probe masked") else [])
    rest = [k for k in range(n) if k not in off]

    def want(hidden):
        w = p0
        for k in range(n):
            if k not in hidden:
                w = w + lin[k] * moves[k // 3][k % 3]
        return w

    a = model.get_masked_model(off[::-1])
    env.close("masked", eval_one(env, a, conf), want(off))
    env.close("complement", eval_one(env, model.get_masked_model(rest), conf), want(rest))
    env.close("original", eval_one(env, model, conf), want([]))
    env.eq("mask", [bool(x) for x in a.mask], [k in off for k in range(n)])
    if art:
        env.eq("atom", sorted(model.get_dof_indexes([atoms - 1, 0])), sorted({0, 1, 2, n - 3, n - 2, n - 1}))
        ti = [k for k in range(n) if (k // 3) % 3]
        env.eq("symbol", sorted(model.get_dof_indexes("Ti")), ti)
        env.close("without titanium", eval_one(env, model.get_masked_model(model.get_dof_indexes("Ti")), conf), want(ti))
    a.unmask()
    env.close("unmasked", eval_one(env, a, conf), want([]))


def units(tier):
    us = []
    for art in (False, True):
        n = "art" if art else "dof"
        us.append(Unit(f"masks-{n}", masks, dict(art=art), "every subset of four degrees of freedom, then every second mask; tensors and amplitudes symbolic", stub_symmetry=True, budget=200))
        us.append(Unit(f"repeated-{n}", repeated, dict(art=art, length=3 if tier == "quick" else 4), "every list of three (thorough four) of four indexes, repeated ones included", stub_symmetry=True, budget=120))
        us.append(Unit(f"setter-{n}", setter, dict(art=art), "every mask of four degrees of freedom", stub_symmetry=True, budget=120))
        us.append(Unit(f"grown-{n}", grown, dict(art=art), "every mask of two of four degrees of freedom, one more added to either model or both", stub_symmetry=True, budget=120))
    us.append(Unit("select", select, {}, "every combination of three indexes and three symbols", stub_symmetry=True, budget=200))
    # starred symbols are not in the structure
    for i, (numbers, symbols) in enumerate([([14, 16, 8, 14], ["Si", "S", "O", "Os*"]), ([27, 6, 8], ["Co", "C", "O", "o*"]), ([1, 2, 80, 7], ["H", "He", "Hg", "N", "Na*"])]):
        us.append(Unit(f"names-{i}", names, dict(numbers=numbers, symbols=symbols), "every combination of symbols that contain each other", stub_symmetry=True, budget=60))
    us.append(Unit("directions", directions, {}, "directions with a free angle", stub_symmetry=True, budget=100))
    for art in (False, True):
        us.append(Unit(f"large-{'art' if art else 'dof'}", large, dict(art=art, atoms=6), "six atoms with all eighteen degrees of freedom, about half of them masked, one free", stub_symmetry=True, budget=120))
    return us
