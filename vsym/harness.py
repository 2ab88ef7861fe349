"""Units: one symbolic exploration each."""

from __future__ import annotations

import importlib
from dataclasses import dataclass, field


@dataclass
class Unit:
    name: str
    fn: object
    params: dict = field(default_factory=dict)
    bounds: str = ""
    budget: float = 60.0
    max_paths: int = 300
    stub_symmetry: bool = False
    replay_cap: int = 40
    mode: str = "sym"  # or "fp"


def units(prop, tier):
    mod = importlib.import_module(f"checks.{prop.lower()}")
    us = mod.units(tier)
    names = [u.name for u in us]
    assert len(set(names)) == len(names), "duplicate unit names"
    assert all(callable(u.fn) for u in us), "not a function"
    return us


_cache = {}


def find_unit(prop, name, tier):
    k = (prop, tier)
    if k not in _cache:
        _cache[k] = {u.name: u for u in units(prop, tier)}
    return _cache[k][name]
