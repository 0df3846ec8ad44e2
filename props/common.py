"""Shared helpers for harnesses (also executed concretely in replays)."""

import asyncio


def chunks(seq, n):
    seq = list(seq)
    return [seq[i : i + n] for i in range(0, len(seq), n)]


def le(E, v, n, signed=False):
    """Reference little-endian bytes of v, written with shifts only."""
    if v is not None and signed:
        v = v + (1 << (8 * n))
    return bytes([(v >> (8 * i)) & 0xFF for i in range(n)])


def be(E, v, n, signed=False):
    return le(E, v, n, signed)[::-1]


def from_le(E, data, signed=False):
    v = 0
    for i, b in enumerate(data):
        v = v | (b << (8 * i))
    if signed and len(data):
        top = 1 << (8 * len(data) - 1)
        v = E.ite(v >= top, v - (top << 1), v)
    return v
