"""M08: summaries of a model state what it contains."""
import re

from checks.models import *
from checks.s04 import classes


def plain(text):
    return re.sub(r"\x1b\[[0-9;]*m", "", text)


def number(env, s):
    return env.parse_float(s) if env.symbolic else float(s)


def vectors(env, cell):
    return [[number(env, t) for t in re.split(r"[\s,]+", g.strip()) if t] for g in re.findall(r"\[([^\]]*)\]", cell)]


def table(env, text):
    rows = [[c.strip() for c in line.strip().strip("│|").split("│")] for line in text.splitlines() if "│" in line]
    head, rows = [c.lower() for c in rows[0]], rows[1:]
    col = {k: next(i for i, c in enumerate(head) if k in c) for k in ("index", "direction", "specified", "equivalent")}
    return [{k: r[i] for k, i in col.items()} for r in rows]


def attention(env, text, masked, total, dummy):
    notes = [line for line in plain(text).splitlines() if "ATTENTION" in line]
    about_mask = [line for line in notes if "mask" in line]
    env.eq("mask mentioned", len(about_mask), 1 if masked else 0)
    if masked:
        env.true("masked count", f"{masked}/{total} " in about_mask[0], about_mask[0])
    env.eq("dummy mentioned", len([line for line in notes if "dummy" in line]), 1 if dummy else 0)


def masked_versions(env, model, k):
    out = [(model, 0)]
    if k:
        s = env.pick("mask", [[k - 1], list(range(k)), []])
        m = model.get_masked_model(s)
        out.append((m, len(s)))
    return out


def art(env, n, dummy, part, deep, frame=None):
    """Atomic Raman tensors in any directions of any atoms."""
    reps = env.pick("classes", classes(n)) if part else list(range(n))
    env.equivalents(reps)
    ref = ref_structure(env, "cubic", n, [8] * n)
    _, artm = model_classes(env)
    model = artm(ref, env.symten("ref"), dummy)
    if frame:
        dirs = [unit_of(env, d) for d in env.pick("frame", frame)]
        small = env.real("small", 0.001, 1000)
    else:
        c, s = env.unit("th")
        env.assume(c > 0.05, s > 0.05)
        z = env.c(0)
        dirs = [env.array([c, s, z]), env.array([-s, c, z]), env.array([z, z, env.c(-1)])]
        small = 1
    amps, p = env.array([env.c(-1, 10), env.c(1, 10)]), env.symten("p", 2)
    have = [[] for _ in range(n)]
    count = 0
    # interleaved over the atoms
    atoms = [0, n - 1] if n > 1 else [0]
    for k in range(3):
        for a in atoms:
            if n > 2 and part and not deep and a and k == 1:
                continue
            if env.flag(f"atom{a} direction{k}"):
                model.add_art(a, dirs[k] * (small * (3 + a)), amps, p)
                have[a].append(dirs[k])
                count += 1
    want = [(r, [i for i in range(n) if reps[i] == r and i != r], have[r]) for r in sorted(set(reps))]
    for m, masked in masked_versions(env, model, count):
        spec = m.get_specification_tuples()
        env.eq("atoms and their equivalents", sorted((int(a), sorted(int(x) for x in e)) for a, e, _ in spec), [(a, e) for a, e, _ in want])
        rows = table(env, plain(repr(m)))
        env.eq("rows", sorted((int(r["index"]), int(r["equivalent"])) for r in rows), [(a, len(e)) for a, e, _ in want])
        by = {int(r["index"]): r for r in rows}
        for (a, _, d), (_, _, listed) in zip(want, sorted(spec, key=lambda t: int(t[0]))):
            env.eq(f"number of directions {a}", len(listed), len(d))
            for i, (x, y) in enumerate(zip(listed, d)):
                env.close(f"direction {a} {i}", x, y)
            env.eq(f"specified {a}", by[a]["specified"], f"{len(d)}/3")
            shown = vectors(env, by[a]["direction"])
            env.eq(f"directions shown {a}", len(shown), len(d))
            for i, (x, y) in enumerate(zip(shown, d)):
                env.close(f"direction shown {a} {i}", env.array(x), y, 2e-5)
        attention(env, repr(m), masked, count, dummy)


def interpolation(env, n, dummy):
    """Collective degrees of freedom."""
    ref = ref_structure(env, "tric", n)
    interp, _ = model_classes(env)
    model = interp(ref, env.symten("ref"), dummy)
    amps, p = env.array([env.c(-1, 10), env.c(1, 10)]), env.symten("p", 2)
    rows = []
    for i in range(n):
        for k in range(3):
            v = [[0, 0, 0] for _ in range(n)]
            v[i][k] = 1
            rows.append(v)
    count = 0
    for i, v in enumerate(rows):
        if i in (0, len(rows) - 1) and not env.flag(f"dof{i}"):
            continue
        if i == 1 and not env.flag("any"):
            break
        model.add_dof(env.array(v), amps, p, 1)
        count += 1
    for m, masked in masked_versions(env, model, count):
        text = plain(repr(m))
        first = text.splitlines()[0]
        env.true("degrees of freedom", re.search(rf"(?<!\d){count}/{3 * n}(?!\d)", first) is not None, first)
        attention(env, repr(m), masked, count, dummy)


FRAMES = [
    [[1, 1, 1], [1, -1, 0], [-1, -1, 2]],
    [[-2, 1, 2], [2, 2, 1], [1, -2, 2]],
    [[60, 1, 0], [-1, 60, 0], [0, 0, 1]],
]


def large(env, n):
    """Cells of more than ten atoms: two-digit indexes and counts."""
    reps = env.pick("classes", [list(range(n)), [k % 3 if k % 3 < 2 else 2 for k in range(n)], [0] * n, [k - k % 4 for k in range(n)]])
    env.equivalents(reps)
    rs = env.imp("ramannoodle.structure._reference")
    pos = [[(2 * k + 1) / 64, (3 * k + 1) % 32 / 32, (5 * k + 2) % 32 / 32] for k in range(n)]
    ref = rs.ReferenceStructure([8] * n, lattice_of(env, "cubic"), env.array(pos))
    _, artm = model_classes(env)
    model = artm(ref, env.symten("ref"))
    c, s = env.unit("th")
    env.assume(c > 0.05, s > 0.05)
    z = env.c(0)
    dirs = [env.array([c, s, z]), env.array([-s, c, z]), env.array([z, z, env.c(-1)])]
    amps, p = env.array([env.c(-1, 10), env.c(1, 10)]), env.symten("p", 2)
    own = sorted(set(reps))
    have = {a: [] for a in own}
    count = 0
    for k in range(3):
        for a in own[::-1]:
            if (a + k) % 4 == 3 or a == own[-1] and k == 1 and not env.flag("last"):
                continue
            model.add_art(a, dirs[k] * 2, amps, p)
            have[a].append(dirs[k])
            count += 1
    want = [(r, [i for i in range(n) if reps[i] == r and i != r]) for r in own]
    for m, masked in masked_versions(env, model, count):
        spec = sorted(m.get_specification_tuples(), key=lambda t: int(t[0]))
        env.eq("atoms and their equivalents", [(int(a), sorted(int(x) for x in e)) for a, e, _ in spec], want)
        rows = table(env, plain(repr(m)))
        env.eq("rows", sorted((int(r["index"]), int(r["equivalent"])) for r in rows), [(a, len(e)) for a, e in want])
        by = {int(r["index"]): r for r in rows}
        for a, _, listed in spec:
            d = have[int(a)]
            env.eq(f"specified {a}", (len(listed), by[int(a)]["specified"]), (len(d), f"{len(d)}/3"))
            shown = vectors(env, by[int(a)]["direction"])
            env.eq(f"directions shown {a}", len(shown), len(d))
            for x, y, v in zip(listed, d, shown):
                env.close(f"direction {a}", x, y)
                env.close(f"direction shown {a}", env.array(v), y, 2e-5)
        attention(env, repr(m), masked, count, False)


def large_dof(env, n):
    """Number of collective degrees of freedom in a larger cell."""
    rs = env.imp("ramannoodle.structure._reference")
    pos = [[(2 * k + 1) / 64, (3 * k + 1) % 32 / 32, (5 * k + 2) % 32 / 32] for k in range(n)]
    ref = rs.ReferenceStructure([8] * n, lattice_of(env, "tric"), env.array(pos))
    interp, _ = model_classes(env)
    model = interp(ref, env.symten("ref"))
    amps, p = env.array([env.c(-1, 10), env.c(1, 10)]), env.symten("p", 2)
    count = env.pick("number", [9, 10, 11, 3 * n - 1, 3 * n])
    for i in range(count):
        v = [[0, 0, 0] for _ in range(n)]
        v[i // 3][i % 3] = 1
        model.add_dof(env.array(v), amps, p, 1)
    for m, masked in masked_versions(env, model, count):
        first = plain(repr(m)).splitlines()[0]
        env.true("degrees of freedom", re.search(rf"(?<!\d){count}/{3 * n}(?!\d)", first) is not None, first)
        attention(env, repr(m), masked, count, False)


def units(tier):
    deep = tier != "quick"
    us = []
    for n, dummy, part in [(1, False, False), (2, False, True), (3, False, False), (2, True, False), (3, False, True)] + ([(4, False, True)] if deep else []):
        us.append(Unit(f"art-{n}-{int(dummy)}-{int(part)}", art, dict(n=n, dummy=dummy, part=part, deep=deep), "up to three orthogonal directions at a free angle on the first and last atom, every partition into equivalent atoms, three masks", stub_symmetry=True, budget=400 if deep else 150, max_paths=4000 if deep else 1200))  # fmt: skip
    for n in (1, 3):
        us.append(Unit(f"frames-{n}", art, dict(n=n, dummy=False, part=False, deep=deep, frame=FRAMES), "subsets of the directions of three oblique frames, any length, on the first and last atom", stub_symmetry=True, budget=200, max_paths=2000))  # fmt: skip
    for n in (1, 2, 4):
        for dummy in (False, True):
            us.append(Unit(f"dof-{n}-{int(dummy)}", interpolation, dict(n=n, dummy=dummy), "no, some or all degrees of freedom, three masks", stub_symmetry=True, budget=60))
    us.append(Unit("large-art", large, dict(n=12), "twelve atoms, four partitions, up to 36 directions at a free angle", stub_symmetry=True, budget=200))
    us.append(Unit("large-dof", large_dof, dict(n=5 if not deep else 12), "up to 3N collective degrees of freedom of five (thorough twelve) atoms", stub_symmetry=True, budget=150))
    return us
