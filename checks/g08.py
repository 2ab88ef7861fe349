"""G08: one training epoch."""
from checks.common import *

FN = "ramannoodle.pmodel.torch._train.train_single_epoch"
DS = "ramannoodle.dataset.torch._dataset.PolarizabilityDataset"
LR = (1, 8)


class World:
    """A model with one weight whose training can be followed exactly."""

    def __init__(self, env, weight, few=False):
        self.env, self.w, self.grad = env, weight, env.c(0)
        env.follow_shuffle(few)
        self.training = env.flag("mode before")
        self.log = []


class Model:
    """out[s, c] = w * (x coordinate of the first atom) + c; the sample's tag is its y coordinate."""

    def __init__(self, world):
        self.world = world
        self.training = world.training

    def train(self, mode=True):
        self.training = bool(mode)
        return self

    def eval(self):
        return self.train(False)

    def parameters(self):
        return iter(())

    def __call__(self, lattice, atomic_numbers, positions):
        return self.forward(lattice, atomic_numbers, positions)

    def forward(self, lattice, atomic_numbers, positions):
        w, env = self.world, self.world.env
        n = positions.shape[0]
        env.eq("lattices of the batch", tuple(lattice.shape), (n, 3, 3))
        env.eq("numbers of the batch", tuple(atomic_numbers.shape), (n, 2))
        x, tags = [], []
        for s in range(n):
            p = positions[s]
            x.append(entry(env, p[0, 0]))
            tags.append(int(round(64 * concrete(env, p[0, 1]))))
        w.log.append(("forward", self.training, tags, w.w))
        return env.tensor(env.array([[w.w * v + c for c in range(6)] for v in x]))


def entry(env, t):
    a = t.detach() if hasattr(t, "detach") else t
    return a.item()


def concrete(env, t):
    return float(entry(env, t))


class Loss:
    def __init__(self, world, value, grad):
        self.world, self.value, self.grad = world, value, grad

    def backward(self, *a, **k):
        self.world.log.append(("backward", self.value))
        self.world.grad = self.world.grad + self.grad

    def __float__(self):
        return float(self.value)

    def __vsym_float__(self):
        return self.value

    def item(self):
        return self.value

    def detach(self):
        return self

    cpu = clone = detach
    requires_grad = True


class LossFunction:
    """Sum over samples and components of (out - wanted) * (slot + 1), divided by the size of the batch: linear, so every gradient is exact."""

    def __init__(self, world):
        self.world = world

    def __call__(self, out, wanted):
        env, w = self.world.env, self.world
        n = out.shape[0]
        env.eq("one prediction for each wanted value", tuple(out.shape), tuple(wanted.shape))
        value, grad = env.c(0), env.c(0)
        for s in range(n):
            for c in range(6):
                o, t = entry(env, out[s, c]), entry(env, wanted[s, c])
                value = value + (o - t) * (c + 1)
                grad = grad + (o - c - t) * (c + 1)
        w.log.append(("loss", n))
        return Loss(w, value / n, grad / n)

    forward = __call__


class Optimizer:
    def __init__(self, world):
        self.world = world
        self.param_groups = []

    def step(self, closure=None):
        w = self.world
        w.log.append(("step", w.grad))
        w.w = w.w - w.grad * w.env.c(*LR)

    def zero_grad(self, *a, **k):
        self.world.log.append(("zero",))
        self.world.grad = self.world.env.c(0)


def data(env, name, n, first):
    """Samples with their tag in one coordinate and symbolic values elsewhere; the targets are the polarizabilities themselves."""
    xs = [env.real(f"{name}x{k}", 0, 1) for k in range(n)]
    ts = [env.real(f"{name}t{k}", -2, 2) for k in range(n)]
    pos = env.array([[[xs[k], env.c(first + k, 64), 0], [0.5, 0.5, 0.5]] for k in range(n)])
    pol = env.array([[[ts[k], k, 1], [k, ts[k] + 1, 2], [1, 2, ts[k] * 2]] for k in range(n)])
    ds = env.get(DS)(lattice_of(env, "tric"), [22, 8], pos, pol)
    one = env.array([[1.0] * 3] * 3)
    ds.scale_polarizabilities(one - one, one)
    vec = [[ts[k], ts[k] + 1, ts[k] * 2, env.c(k), env.c(1), env.c(2)] for k in range(n)]
    return ds, {first + k: (xs[k], vec[k]) for k in range(n)}


def batch_loss(env, w, samples):
    value, grad = env.c(0), env.c(0)
    for x, vec in samples:
        for c in range(6):
            value = value + (w * x + c - vec[c]) * (c + 1)
            grad = grad + (w * x - vec[c]) * (c + 1)
    return value / len(samples), grad / len(samples)


def follow(env, world, model, start, info, vinfo, size, result, label):
    """Replays the recorded events against the definition of an epoch."""
    w = start
    seen, losses, vseen, vlosses = [], [], [], []
    outs = []
    pending, used = None, False
    for ev in world.log:
        if ev[0] == "forward":
            _, training, tags, at = ev
            if all(t in info for t in tags):
                env.true(f"{label}: training mode while training", training)
                env.true(f"{label}: batch size", 0 < len(tags) <= size)
                env.true(f"{label}: validation comes last", not vseen)
                env.close(f"{label}: weight used", at, w)
                seen += tags
                loss, grad = batch_loss(env, w, [info[t] for t in tags])
                losses.append(loss)
                pending = grad
            else:
                env.true(f"{label}: batches are not mixed", all(t in vinfo for t in tags))
                env.true(f"{label}: evaluation mode while validating", not training)
                env.close(f"{label}: weight used for validation", at, w)
                vseen += tags
                vlosses.append(batch_loss(env, w, [vinfo[t] for t in tags])[0])
        elif ev[0] == "step":
            env.true(f"{label}: an update follows a training batch", pending is not None and not vseen)
            env.close(f"{label}: gradient of the batch alone", ev[1], pending)
            w = w - pending * env.c(*LR)
            pending = None
    env.true(f"{label}: every batch updates the weight", pending is None)
    env.eq(f"{label}: every training sample once", sorted(seen), sorted(info))
    env.eq(f"{label}: every validation sample once", sorted(vseen), sorted(vinfo))
    env.eq(f"{label}: number of batches", len(losses), -(-len(info) // size))
    env.close(f"{label}: final weight", world.w, w)
    env.eq(f"{label}: three results", len(result), 3)
    env.close(f"{label}: training loss", result[0], mean(env, losses))
    env.close(f"{label}: validation loss", result[1], mean(env, vlosses))
    env.eq(f"{label}: shape of the variance", tuple(result[2].shape), (6,))
    return w


def mean(env, v):
    t = v[0]
    for x in v[1:]:
        t = t + x
    return t / len(v)


def epoch(env, ntrain, nval, epochs):
    fn = env.get(FN)
    start = env.real("w", -1, 1)
    world = World(env, start)
    model = Model(world)
    train, info = data(env, "a", ntrain, 0)
    val, vinfo = data(env, "b", nval, ntrain)
    size = 1 + env.choice("size", ntrain + 1)
    for k in range(epochs):
        world.log = []
        result = fn(model, train, val, size, Optimizer(world), LossFunction(world))
        start = follow(env, world, model, start, info, vinfo, size, result, f"epoch {k}")
    for ds, table in ((train, info), (val, vinfo)):
        for t, row in zip(sorted(table), range(len(table))):
            env.close("samples kept", ds[row][2][0, 0], table[t][0], 1e-5)


class Plain:
    """Map-style data of concrete size."""

    def __init__(self, env, xs, ts, first):
        t = env.tensor
        self.items = []
        for k, (x, y) in enumerate(zip(xs, ts)):
            pos = env.array([[x, env.c(first + k, 64), 0], [0.5, 0.5, 0.5]])
            self.items.append((t(lattice_of(env, "tric")), env.torch.tensor([22, 8]), t(pos), t(env.array([y, 0, 0, 0, 0, 1]))))

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]


def many(env, nval):
    """More validation samples than are evaluated at a time."""
    fn = env.get(FN)
    start = env.real("w", -1, 1)
    world = World(env, start)
    xs = [env.real("a0", 0, 1)]
    vx = [env.real(f"b{k}", 0, 1) if k in (0, nval - 1) else env.c(k, 512) for k in range(nval)]
    ts = [env.real("t", -2, 2)]
    vt = [env.c(k % 7, 8) for k in range(nval)]
    z, o = env.c(0), env.c(1)
    info = {0: (xs[0], [ts[0], z, z, z, z, o])}
    vinfo = {1 + k: (vx[k], [vt[k], z, z, z, z, o]) for k in range(nval)}
    result = fn(Model(world), Plain(env, xs, ts, 0), Plain(env, vx, vt, 1), 4, Optimizer(world), LossFunction(world))
    follow(env, world, None, start, info, vinfo, 4, result, "many")


def large(env, ntrain, nval, sizes, spots):
    """Many samples, the listed ones free; three orders."""
    fn = env.get(FN)
    start = env.real("w", -1, 1)
    world = World(env, start, few=True)
    size = env.pick("size", sizes)

    def sets(name, n, first):
        xs = [env.real(f"{name}{k}", 0, 1) if k in spots else env.c((7 * k + 3) % 64, 64) for k in range(n)]
        ts = [env.real(f"{name}t{k}", -2, 2) if k == spots[0] else env.c(k % 9 - 4, 4) for k in range(n)]
        return xs, ts

    (xs, ts), (vx, vt) = sets("a", ntrain, 0), sets("b", nval, ntrain)
    z, o = env.c(0), env.c(1)
    info = {k: (xs[k], [ts[k], z, z, z, z, o]) for k in range(ntrain)}
    vinfo = {ntrain + k: (vx[k], [vt[k], z, z, z, z, o]) for k in range(nval)}
    result = fn(Model(world), Plain(env, xs, ts, 0), Plain(env, vx, vt, ntrain), size, Optimizer(world), LossFunction(world))
    follow(env, world, None, start, info, vinfo, size, result, "large")


def units(tier):
    deep = tier != "quick"
    us = []
    for nt, nv in [(1, 1), (2, 2), (3, 2)] + ([(4, 3)] if deep else []):
        us.append(Unit(f"epoch-{nt}-{nv}", epoch, dict(ntrain=nt, nval=nv, epochs=1), f"{nt} training and {nv} validation samples, every order and batch size", budget=150, max_paths=2000))
    us.append(Unit("two epochs", epoch, dict(ntrain=2, nval=2, epochs=2), "two epochs", budget=150, max_paths=2000))
    for n in (100, 102):
        us.append(Unit(f"validation-{n}", many, dict(nval=n), f"{n} validation samples", budget=150))
    us.append(Unit("large-23", large, dict(ntrain=23, nval=37, sizes=[5, 7, 22, 32], spots=(0, 20)), "23 training and 37 validation samples, four batch sizes, three orders", budget=150))
    us.append(Unit("large-130", large, dict(ntrain=130, nval=7, sizes=[64, 100, 128, 200], spots=(0, 6)), "130 training samples, four batch sizes, three orders", budget=150))
    return us
