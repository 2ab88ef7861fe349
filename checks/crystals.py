"""Concrete crystals and their symmetry, computed independently of the library."""
import math

import numpy as rnp

H = math.sqrt(3) / 2
S = 0.15625  # origin shift that keeps atoms away from cell boundaries


def _hex(a, c):
    return [[a, 0, 0], [-a / 2, a * H, 0], [0, 0, c]]


CRYSTALS = {
    "triclinic-P-1": ([22, 8, 8], [[4, 0, 0], [1, 5, 0], [-1, 0.5, 6]], [[0.0, 0.0, 0.0], [0.25, 0.125, 0.375], [-0.25, -0.125, -0.375]]),
    "triclinic-P1": ([22, 8], [[4, 0, 0], [1, 5, 0], [-1, 0.5, 6]], [[0.0, 0.0, 0.0], [0.25, 0.125, 0.375]]),
    "monoclinic-P2/m": ([22, 8, 8], [[4, 0, 0], [0, 5, 0], [1, 0, 6]], [[0.0, 0.0, 0.0], [0.25, 0.0, 0.375], [-0.25, 0.0, -0.375]]),
    "monoclinic-Pm": ([22, 8], [[4, 0, 0], [0, 5, 0], [1, 0, 6]], [[0.0, 0.0, 0.0], [0.25, 0.0, 0.375]]),
    "monoclinic-P21/c": ([14] * 4, [[4, 0, 0], [0, 5, 0], [1, 0, 6]], [[0.125, 0.25 - 0.0625, 0.375], [-0.125, 0.6875, 0.125], [-0.125, -0.1875, -0.375], [0.125, -0.6875 + 1, -0.125]]),
    "ortho-Pmmm": ([22, 8], [[4, 0, 0], [0, 5, 0], [0, 0, 6]], [[0.0, 0.0, 0.0], [0.5, 0.5, 0.5]]),
    "ortho-P212121": ([14] * 4, [[4, 0, 0], [0, 5, 0], [0, 0, 6]], [[0.125, 0.1875, 0.3125], [0.375, 0.8125, 0.8125], [0.875, 0.6875, 0.1875], [0.625, 0.3125, 0.6875]]),
    "ortho-Pmm2": ([22, 8], [[4, 0, 0], [0, 5, 0], [0, 0, 6]], [[0.0, 0.0, 0.0], [0.5, 0.5, 0.375]]),
    "tetra-P4/mmm": ([22, 8], [[4, 0, 0], [0, 4, 0], [0, 0, 5]], [[0.0, 0.0, 0.0], [0.5, 0.5, 0.5]]),
    "tetra-P4mm": ([22, 8], [[4, 0, 0], [0, 4, 0], [0, 0, 5]], [[0.0, 0.0, 0.0], [0.5, 0.5, 0.375]]),
    "tetra-perovskite": ([22, 8, 8, 8], [[4, 0, 0], [0, 4, 0], [0, 0, 5]], [[0.0, 0.0, 0.0], [0.5, 0, 0], [0, 0.5, 0], [0, 0, 0.5]]),
    "rutile": ([22, 22, 8, 8, 8, 8], [[4, 0, 0], [0, 4, 0], [0, 0, 3]], [[0, 0, 0], [0.5, 0.5, 0.5], [0.3125, 0.3125, 0], [-0.3125, -0.3125, 0], [0.8125, 0.1875, 0.5], [0.1875, 0.8125, 0.5]]),
    "cubic-CsCl": ([55, 17], [[4, 0, 0], [0, 4, 0], [0, 0, 4]], [[0.0, 0.0, 0.0], [0.5, 0.5, 0.5]]),
    "cubic-sc": ([55], [[4, 0, 0], [0, 4, 0], [0, 0, 4]], [[0.0, 0.0, 0.0]]),
    "ortho-one": ([55], [[4, 0, 0], [0, 5, 0], [0, 0, 6]], [[0.0, 0.0, 0.0]]),
    "cubic-ReO3": ([75, 8, 8, 8], [[4, 0, 0], [0, 4, 0], [0, 0, 4]], [[0.0, 0.0, 0.0], [0.5, 0, 0], [0, 0.5, 0], [0, 0, 0.5]]),
    "cubic-perovskite": ([22, 38, 8, 8, 8], [[4, 0, 0], [0, 4, 0], [0, 0, 4]], [[0.0, 0.0, 0.0], [0.5, 0.5, 0.5], [0.5, 0, 0], [0, 0.5, 0], [0, 0, 0.5]]),
    "cubic-NaCl": ([11] * 4 + [17] * 4, [[4, 0, 0], [0, 4, 0], [0, 0, 4]], [[0, 0, 0], [0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0], [0.5, 0.5, 0.5], [0.5, 0, 0], [0, 0.5, 0], [0, 0, 0.5]]),
    "cubic-P23": ([14] * 4, [[4, 0, 0], [0, 4, 0], [0, 0, 4]], [[0.1875, 0.1875, 0.1875], [0.1875, -0.1875, -0.1875], [-0.1875, 0.1875, -0.1875], [-0.1875, -0.1875, 0.1875]]),
    # molecules in large boxes: atoms close to each other on the scale of the cell
    "box-P-1": ([22, 22, 1, 1], [[20, 0, 0], [0, 21, 0], [0, 0, 22]], [[0.125, 0.25, 0.375], [-0.125, -0.25, -0.375], [0.125, 0.25, 0.40625], [-0.125, -0.25, -0.40625]]),
    "box-H2": ([1, 1], [[64, 0, 0], [0, 70, 0], [0, 0, 80]], [[0.00390625, 0, 0], [-0.00390625, 0, 0]]),
    # outside the range in which the implementation is right (see DESIGN.md, F1)
    "hex-hcp": ([12, 12], _hex(3.0, 5.0), [[1 / 3, 2 / 3, 0.25], [2 / 3, 1 / 3, 0.75]]),
    "hex-wurtzite": ([30, 30, 8, 8], _hex(3.0, 5.0), [[1 / 3, 2 / 3, 0], [2 / 3, 1 / 3, 0.5], [1 / 3, 2 / 3, 0.375], [2 / 3, 1 / 3, 0.875]]),
    "trigonal": ([34, 34, 34], _hex(3.0, 5.0), [[0.21875, 0, 1 / 3], [0, 0.21875, 2 / 3], [-0.21875, -0.21875, 0]]),
    "fcc-primitive": ([14, 14], [[0, 2, 2], [2, 0, 2], [2, 2, 0]], [[0, 0, 0], [0.25, 0.25, 0.25]]),
    "tetra-P41": ([14] * 4, [[3, 0, 0], [0, 3, 0], [0, 0, 5]], [[0.125, 0.1875, 0], [-0.1875, 0.125, 0.25], [-0.125, -0.1875, 0.5], [0.1875, -0.125, 0.75]]),
    "trigonal-P31": ([14] * 3, _hex(3.0, 5.0), [[0.125, 0.25, 0], [-0.25, -0.125, 1 / 3], [0.125, -0.125, 2 / 3]]),
}


class Crystal:
    def __init__(self, name, shift=True):
        import spglib

        numbers, lattice, pos = CRYSTALS[name]
        self.numbers = list(numbers)
        self.lattice = rnp.array(lattice, float)
        p = rnp.array(pos, float) + (rnp.array([S, 2 * S, S]) if shift else 0.0)
        self.positions = p - rnp.floor(p)
        self.n = len(numbers)
        d = spglib.get_symmetry((self.lattice, self.positions, self.numbers), symprec=1e-5)
        self.ops = []
        lt = self.lattice.T
        for r, t in zip(d["rotations"], d["translations"]):
            cart = lt @ r @ rnp.linalg.inv(lt)
            perm = []
            for x in self.positions:
                y = r @ x + t
                dd = self.positions - y
                dd -= rnp.round(dd)
                k = [i for i in range(self.n) if rnp.abs(dd[i]).max() < 1e-4]
                assert len(k) == 1
                perm.append(k[0])
            near = rnp.round(cart)
            cart = near if rnp.abs(cart - near).max() < 1e-9 else cart
            key = (tuple(perm), tuple(rnp.round(cart, 6).ravel() + 0.0))
            if key not in [o[2] for o in self.ops]:
                self.ops.append((cart, perm, key))
        self.ops = [(c, p) for c, p, _ in self.ops]

    def image(self, op, u):
        c, p = op
        out = rnp.zeros((self.n, 3))
        for i in range(self.n):
            out[p[i]] = c @ u[i]
        return out

    def reverses(self, u):
        return any(rnp.abs(self.image(o, u) + u).max() < 1e-6 for o in self.ops)

    def orbit(self, u):
        """Greedy orthogonal part of the orbit of a unit displacement (parent first)."""
        out = [u]
        for o in self.ops:
            v = self.image(o, u)
            if all(abs((v * w).sum()) < 1e-6 for w in out):
                out.append(v)
        return out

    def clean(self, u):
        """All images are collinear or orthogonal to each other."""
        out = self.orbit(u)
        for o in self.ops:
            v = self.image(o, u)
            m = max(abs((v * w).sum()) for w in out)
            if m < 1 - 1e-6:
                return False
        return True

    def modes(self):
        """Collective displacements of general direction that every operation keeps or reverses."""
        keys = [(tuple(p), tuple(rnp.round(c, 5).ravel() + 0.0)) for c, p in self.ops]

        def times(a, b):
            return keys.index((tuple(a[1][b[1][i]] for i in range(self.n)), tuple(rnp.round(a[0] @ b[0], 5).ravel() + 0.0)))

        m = len(self.ops)
        table = [[times(a, b) for b in self.ops] for a in self.ops]
        g = rnp.array([[((7 * i + 3 * k) % 5 + 1) * (-1.0) ** (i * k) for k in range(3)] for i in range(self.n)])
        out = []
        for bits in range(1 << (m - 1)):
            chi = [1] + [1 - 2 * (bits >> k & 1) for k in range(m - 1)]
            if any(chi[table[i][j]] != chi[i] * chi[j] for i in range(m) for j in range(m)):
                continue
            u = sum(x * self.image(o, g) for x, o in zip(chi, self.ops))
            if rnp.abs(u).max() > 1e-9:
                out.append(u)
        return out

    def structure(self, env):
        rs = env.imp("ramannoodle.structure._reference")
        return rs.ReferenceStructure(list(self.numbers), env.array(self.lattice.tolist()), env.array(self.positions.tolist()))

    def rotate(self, env, op, t):
        """C t C^T with exact coefficients."""
        return env.array(op[0].tolist()) @ t @ env.array(op[0].T.tolist())

    def invariant(self, env, t):
        """Average of a tensor over the group."""
        out = None
        seen = {}
        for c, _ in self.ops:
            seen.setdefault(tuple(rnp.round(c, 9).ravel() + 0.0), c)
        for c in seen.values():
            x = env.array(c.tolist()) @ t @ env.array(c.T.tolist())
            out = x if out is None else out + x
        return out / env.c(len(seen))

    def linear(self, env, name):
        """A symbolic linear map displacement -> tensor that respects the symmetry: A[atom][k] (3x3)."""
        raw = [[env.symten(f"{name}{i}{k}") for k in range(3)] for i in range(self.n)]
        out = [[None] * 3 for _ in range(self.n)]
        for c, p in self.ops:
            cm, ct = env.array(c.tolist()), env.array(c.T.tolist())
            rot = {}
            for i in range(self.n):
                for k in range(3):
                    for l in range(3):
                        if abs(c[l, k]) < 1e-12:
                            continue
                        if (i, k) not in rot:
                            rot[i, k] = cm @ raw[i][k] @ ct
                        x = rot[i, k] * cm[l, k]
                        j = p[i]
                        out[j][l] = x if out[j][l] is None else out[j][l] + x
        q = env.c(len(self.ops))
        return [[t / q for t in row] for row in out]
