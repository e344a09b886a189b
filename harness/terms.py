"""Evaluates the terms printed by Formulas.tla over exact rationals.

Nothing here knows any formula: the terms come from the specification.
"""

from __future__ import annotations

import math
from fractions import Fraction
from typing import Any


def _ew(f, a, b):
    if isinstance(a, list) or isinstance(b, list):
        n = len(a) if isinstance(a, list) else len(b)
        aa = a if isinstance(a, list) else [a] * n
        bb = b if isinstance(b, list) else [b] * n
        if len(aa) != len(bb):
            raise ValueError("vector lengths differ")
        return [f(x, y) for x, y in zip(aa, bb)]
    return f(a, b)


def _e1(f, a):
    return [f(x) for x in a] if isinstance(a, list) else f(a)


def _sqrt(x):
    if isinstance(x, Fraction):
        if x < 0:
            return float("nan")
        n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
        if n * n == x.numerator and d * d == x.denominator:
            return Fraction(n, d)
        return math.sqrt(x)
    return math.sqrt(x) if x >= 0 else float("nan")


def ev(t: Any, env: dict[str, Any]) -> Any:
    op = t[0]
    if op == "n":
        return float(t[1]) if env.get("_float") else Fraction(t[1])
    if op == "v":
        return env[t[1]]
    if op == "sum":
        a = ev(t[1], env)
        return float(a.sum()) if env.get("_float") else sum(a, Fraction(0))
    if op == "lmax":
        return max(ev(t[1], env))
    if op == "lmin":
        return min(ev(t[1], env))
    if op == "sqrt":
        return _e1(_sqrt, ev(t[1], env))
    if op == "abs":
        return _e1(abs, ev(t[1], env))
    if op == "cosd":
        return _e1(lambda x: math.cos(math.radians(x)), ev(t[1], env))
    if op == "sind":
        return _e1(lambda x: math.sin(math.radians(x)), ev(t[1], env))
    if op == "if":
        c = ev(t[1], env)
        a, b = ev(t[2], env), ev(t[3], env)
        if isinstance(c, list):
            n = len(c)
            a = a if isinstance(a, list) else [a] * n
            b = b if isinstance(b, list) else [b] * n
            return [x if k > 0 else y for k, x, y in zip(c, a, b)]
        return a if c > 0 else b
    if op == "at":
        return ev(t[1], env)[t[2] - 1]
    a, b = ev(t[1], env), ev(t[2], env)
    if op == "add":
        return _ew(lambda x, y: x + y, a, b)
    if op == "sub":
        return _ew(lambda x, y: x - y, a, b)
    if op == "mul":
        return _ew(lambda x, y: x * y, a, b)
    if op == "div":
        return _ew(lambda x, y: x / y if y != 0 else Fraction(0), a, b)
    if op == "max":
        return _ew(max, a, b)
    if op == "min":
        return _ew(min, a, b)
    if op == "atan2d":
        return _ew(lambda x, y: math.degrees(math.atan2(x, y)), a, b)
    raise ValueError(f"unknown term {op}")


def run_defs(defs: list[dict[str, Any]], env: dict[str, Any]) -> dict[str, Any]:
    for d in defs:
        env[d["name"]] = ev(d["term"], env)
    return env
