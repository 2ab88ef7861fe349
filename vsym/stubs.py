"""Switchable replacements used identically in symbolic and concrete runs."""

STATE = {"identity": False, "equivalent": None}


def equivalents(n):
    """Representatives of the atoms (chosen by the harness, otherwise every atom its own)."""
    e = STATE["equivalent"]
    return list(range(n)) if e is None or len(e) != n else list(e)


class _DS(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError as e:
            raise AttributeError(k) from e


def install_concrete(spglib):
    """Harness units with symbolic cells use the trivial symmetry group in both modes."""
    import numpy as np

    for name in ("get_symmetry", "get_symmetry_dataset"):
        real = getattr(spglib, name)

        def f(cell, *a, _real=real, _name=name, **k):
            if STATE["identity"]:
                n = len(cell[2])
                d = {"rotations": np.eye(3, dtype="intc")[None], "translations": np.zeros((1, 3)), "equivalent_atoms": np.array(equivalents(n), dtype="intc")}
                return d if _name == "get_symmetry" else _DS(d)
            return _real(cell, *a, **k)

        setattr(spglib, name, f)
