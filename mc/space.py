"""
Finite configuration spaces.

A space is an ordered dict of dimensions; the first value of each is its default.  ``deviations``
enumerates *every* assignment that differs from the default in at most ``k`` dimensions (all values of
those dimensions); ``product`` enumerates a full cartesian product over some dimensions with the rest at
their defaults.  Both are exhaustive within their bound.
"""
from __future__ import annotations

from itertools import combinations, product as iproduct


def default(dims: dict) -> dict:
    return {k: v[0] for k, v in dims.items()}


def deviations(dims: dict, k: int, base: dict | None = None, valid=None) -> list[dict]:
    base = dict(default(dims), **(base or {}))
    names = list(dims)
    out = []
    for r in range(k + 1):
        for sub in combinations(names, r):
            alts = [[v for v in dims[n] if v != base[n]] for n in sub]
            for vals in iproduct(*alts):
                case = dict(base)
                case.update(zip(sub, vals))
                if valid is None or valid(case):
                    out.append(case)
    return out


def product(dims: dict, over: list[str] | None = None, base: dict | None = None, valid=None):
    base = dict(default(dims), **(base or {}))
    over = list(dims) if over is None else over
    out = []
    for vals in iproduct(*[dims[n] for n in over]):
        case = dict(base)
        case.update(zip(over, vals))
        if valid is None or valid(case):
            out.append(case)
    return out


def unique(cases: list) -> list:
    import json

    seen, out = set(), []
    for c in cases:
        key = json.dumps(c, sort_keys=True, default=str)
        if key not in seen:
            seen.add(key)
            out.append(c)
    return out
