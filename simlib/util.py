"""Small shared helpers."""

from __future__ import annotations

import hashlib
import random


class Violation(Exception):
    """A property does not hold on this execution."""

    def __init__(self, kind: str, detail: str):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = detail


class Skip(Exception):
    """This run cannot be judged (for example an unsupported kernel primitive)."""


def h64(*parts) -> int:
    m = hashlib.blake2b(digest_size=8)
    for p in parts:
        m.update(p if isinstance(p, bytes) else repr(p).encode())
        m.update(b"\0")
    return int.from_bytes(m.digest(), "big")


def rng(*parts) -> random.Random:
    return random.Random(h64(*parts))


def zipf_choice(r: random.Random, n: int) -> int:
    """Small indices more often."""
    return min(int(n * r.random() ** 2), n - 1)
