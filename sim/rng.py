"""Seed derivation.  Every random choice of a run comes from a generator derived
from the run's seed and a name, so dropping one part of a plan (while minimising)
never shifts the choices made elsewhere."""
import hashlib
import random


def derive(*keys) -> int:
    h = hashlib.sha256("\x1f".join(repr(k) for k in keys).encode()).digest()
    return int.from_bytes(h[:8], "big")


def rng(*keys) -> random.Random:
    return random.Random(derive(*keys))


def unit(*keys) -> float:
    return (derive(*keys) >> 11) / float(1 << 53)
