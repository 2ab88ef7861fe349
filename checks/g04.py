"""G04: triplets of batches."""
from checks.common import *

CLS = "ramannoodle.pmodel.torch._utils.BatchTriplets"
# undirected edges of small graphs, and the number of their nodes
GRAPHS = {
    "pair": (2, [(0, 1)]),
    "path": (3, [(0, 1), (1, 2)]),
    "triangle": (3, [(0, 1), (0, 2), (1, 2)]),
    "star": (4, [(0, 3), (1, 3), (2, 3)]),
    "two": (4, [(0, 2), (1, 3)]),
    "lonely": (4, [(0, 1), (1, 3)]),
    "square": (4, [(0, 1), (1, 2), (2, 3), (0, 3)]),
}
SIZES = [1, 2, 3, 5]


def edge_list(graph):
    n, und = GRAPHS[graph]
    e = sorted([(a, b) for a, b in und] + [(b, a) for a, b in und])
    return n, e


def make(env, graph):
    n, e = edge_list(graph)
    t = env.torch.tensor([[0] * len(e), [a for a, _ in e], [b for _, b in e]])
    return env.get(CLS)(n, t), t, n, e


def lists(x):
    return [[int(v) for v in t] for t in x]


def expected(n, e, ref, size):
    """Reference triplets with the numbers of each structure."""
    m = len(e)
    step = [n, n, n, n, n, m, m]
    return [[v + s * step[k] for s in range(size) for v in ref[k]] for k in range(7)]


def which_edges(env, ends, nodes, one, two):
    """The two edge numbers of a triplet are its two edges, in the same order and orientation everywhere."""
    ok = set()
    for name, (p, q) in (("as listed", (one, two)), ("the other way round", (two, one))):
        for back in (False, True):
            e = [(b, a) for a, b in ends] if back else ends
            if all(e[p[t]] == (a, b) and e[q[t]] == (b, c) for t, (a, b, c) in enumerate(zip(*nodes))):
                ok.add(name)
    env.true("edge numbers of the triplets are their edges", bool(ok) or not nodes[0])
    env.true("ends of a triplet differ", all(a != c for a, _, c in zip(*nodes)))


def reference(env, ref, n, e):
    """The reference triplets are the paths of two edges of the graph, described consistently."""
    env.eq("seven tensors", len(ref), 7)
    i, j, ni, nj, nk, ji, kj = ref
    first = list(zip(i, j))
    env.true("pairs are the edges", first == [(b, a) for a, b in e] or first == [(a, b) for a, b in e])
    ends = list(zip(i, j))
    which_edges(env, ends, (ni, nj, nk), ji, kj)
    paths = set(zip(ni, nj, nk))
    env.eq("each triplet once", len(paths), len(ni))
    want = {(a, b, d) for a, b in e for c, d in e if b == c and a != d}
    env.eq("all triplets", paths, want)


def history(env, graph, steps):
    m, t, n, e = make(env, graph)
    keep = lists(t)
    ref = lists(env.get(CLS)(n, t).get_triplets(1))
    reference(env, ref, n, e)
    given = []
    for k in range(steps):
        size = env.pick(f"size{k}", SIZES[: 3 if steps > 2 else 4])
        got = m.get_triplets(size) if env.flag(f"position{k}") else m.get_triplets(batch_size=size)
        given.append((size, got, lists(got)))
        env.eq(f"request {k}", given[-1][2], expected(n, e, ref, size))
    for k, (size, got, was) in enumerate(given):
        env.eq(f"result {k} stays", lists(got), was)
    env.eq("edges kept", lists(t), keep)


def consistent(env, count):
    """Triplets agree with the edges of the batched graph (real graph of a real batch)."""
    g = env.get("ramannoodle.pmodel.torch._utils._radius_graph_pbc")
    n = 3
    move = [[0, 0, 0] for _ in range(n)]
    move[0][1] = env.real("x", -0.05, 0.05)
    p = env.array(POS[:n]) + env.array(move)
    lat, cutoff = lattice_of(env, "tric"), env.c(7, 2)
    one = g(env.tensor(env.array([lat])), env.tensor(env.array([p])), cutoff)[0]
    many = g(env.tensor(env.array([lat] * count)), env.tensor(env.array([p] * count)), cutoff)[0]
    first = env.pick("first", [1, 2, 4])
    m = env.get(CLS)(n, one)
    m.get_triplets(first)
    got = lists(m.get_triplets(count))
    e = lists(many)
    env.eq("edges of the batch", sorted([tuple(sorted(x)) for x in zip(got[0], got[1])]), sorted([tuple(sorted(x)) for x in zip(e[1], e[2])]))
    env.true("same order of edges", [set(x) for x in zip(got[0], got[1])] == [set(x) for x in zip(e[1], e[2])])
    ends = list(zip(e[1], e[2]))
    which_edges(env, ends, got[2:5], got[5], got[6])
    for t in range(len(got[2])):
        env.eq("inside one structure", len({got[k][t] // n for k in (2, 3, 4)}), 1)


def two_objects(env):
    """Different graphs do not share anything."""
    a, _, na, ea = make(env, env.pick("a", ["path", "triangle", "star"]))
    b, _, nb, eb = make(env, env.pick("b", ["square", "pair"]))
    ra, rb = lists(a.get_triplets(1)), lists(b.get_triplets(1))
    for k in range(3):
        x = env.flag(f"which{k}")
        size = env.pick(f"size{k}", [1, 2, 3])
        if x:
            env.eq("first object", lists(a.get_triplets(size)), expected(na, ea, ra, size))
        else:
            env.eq("second object", lists(b.get_triplets(size)), expected(nb, eb, rb, size))


def large(env, nodes):
    """Larger graphs and batches, sizes growing and shrinking."""
    und = [(k, (k + 1) % nodes) for k in range(nodes)] + [(0, nodes // 2), (1, nodes - 2)]
    GRAPHS["large"] = (nodes, [tuple(sorted(x)) for x in und])
    m, t, n, e = make(env, "large")
    ref = lists(env.get(CLS)(n, t).get_triplets(1))
    reference(env, ref, n, e)
    sizes = env.pick("sizes", [[40, 7, 41, 1], [1, 110, 109, 2, 111], [12, 13, 12, 11], [64, 65, 63]])
    got = [(s, m.get_triplets(s)) for s in sizes]
    for s, g in got:
        env.eq("triplets of a batch", lists(g), expected(n, e, ref, s))


def units(tier):
    deep = tier != "quick"
    us = [Unit("two objects", two_objects, {}, "two graphs, three requests in any interleaving", budget=150, max_paths=2000)]
    for g in GRAPHS:
        us.append(Unit(f"history-{g}", history, dict(graph=g, steps=2 if not deep else 3), "every sequence of requests with sizes 1, 2, 3, 5", budget=150 if not deep else 500, max_paths=2000))
    us.append(Unit("history3-triangle", history, dict(graph="triangle", steps=3), "every sequence of three requests with sizes 1, 2, 3", budget=150, max_paths=2000))
    us.append(Unit("history4-path", history, dict(graph="path", steps=4 if deep else 3), "every sequence of requests with sizes 1, 2, 3", budget=150 if not deep else 600, max_paths=4000))
    for c in (2, 3):
        us.append(Unit(f"edges-{c}", consistent, dict(count=c), f"graph of {c} structures of three atoms", budget=60))
    for nodes in (8, 13) if not deep else (8, 13, 24):
        us.append(Unit(f"large-{nodes}", large, dict(nodes=nodes), f"graph of {nodes} nodes, batches of up to 111 in four histories", budget=150))
    return us
