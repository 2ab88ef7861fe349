"""G07: splitting configurations into batches."""
from checks.common import *

FN = "ramannoodle.pmodel.torch._utils.batch_positions"


def split(env, n, atoms):
    pos = env.arr("x", (n, atoms, 3), -2, 2)
    keep = pos.copy()
    size = env.choice("size", n + 3) + 1
    parts = list(env.get(FN)(pos, size))
    env.eq("number of pieces", len(parts), -(-n // size))
    at = 0
    for k, p in enumerate(parts):
        m = p.shape[0]
        env.true("piece is not empty", m > 0)
        env.true("piece size", m == size or k == len(parts) - 1 and m < size)
        env.eq("piece shape", tuple(p.shape[1:]), (atoms, 3))
        env.close("piece", p, keep[at : at + m])
        at += m
    env.eq("everything is covered", at, n)
    env.close("argument kept", pos, keep)


def keyword(env):
    """Two series at a time, and sizes given by name."""
    a, b = env.arr("a", (3, 1, 3)), env.arr("b", (4, 2, 3))
    fn = env.get(FN)
    x, y = iter(fn(a, batch_size=2)), iter(fn(positions=b, batch_size=3))
    got = [next(x), next(y), next(x), next(y)]
    for g, w in zip(got, (a[:2], b[:3], a[2:], b[3:])):
        env.close("interleaved", g, w)
    env.raises("first is finished", StopIteration, next, x)
    env.raises("second is finished", StopIteration, next, y)


def wrong(env):
    shape = env.pick("shape", [(3,), (2, 3), (2, 2, 2), (2, 2, 4), (1, 2, 2, 3)])
    env.raises("wrong shape", ValueError, lambda: list(env.get(FN)(env.np.zeros(shape), 2)))


def large(env, n):
    """Long series, one free coordinate, batch sizes around divisors and the length."""
    size = env.pick("size", [1, 2, 7, 99, 100, 101, n // 2, n // 2 + 1, n - 1, n, n + 1, 10 * n])
    pos = filled(env, (n, 2, 3), -2, 2, free=[5 * n], name="x")
    parts = list(env.get(FN)(pos, size))
    env.eq("number of pieces", len(parts), -(-n // size))
    at = 0
    for k, p in enumerate(parts):
        m = p.shape[0]
        env.true("piece size", m == size or k == len(parts) - 1 and 0 < m < size)
        env.close("piece", p, pos[at : at + m])
        at += m
    env.eq("everything is covered", at, n)


def units(tier):
    us = [Unit("two series", keyword, {}, "three and four configurations"), Unit("wrong shapes", wrong, {}, "every listed wrong shape")]
    for n in range(1, 7) if tier == "quick" else range(1, 13):
        us.append(Unit(f"split-{n}", split, dict(n=n, atoms=2), f"{n} configurations, batch sizes 1 to {n + 3}"))
    for n in (40, 250) if tier == "quick" else (40, 250, 1100):
        us.append(Unit(f"large-{n}", large, dict(n=n), f"{n} configurations, twelve batch sizes"))
    return us
