"""Operations usable in specifications: the same text runs on symbolic and on concrete values."""
from __future__ import annotations

import math

import numpy as np

from . import term as tm
from .sym import Sym, lift, toreal, wrap, tobool


def _anysym(*xs):
    return any(isinstance(x, Sym) for x in xs)


def exp(x):
    return x.exp() if isinstance(x, Sym) else math.exp(x)


def log(x):
    return x.log() if isinstance(x, Sym) else math.log(x)


def power(b, e):
    if _anysym(b, e):
        return wrap(tm.power(toreal(b), toreal(e)))
    return float(b) ** float(e)


def ite(c, a, b):
    if isinstance(c, Sym):
        if c.t.op == "b":
            return a if c.t.args[0] else b
        return wrap(tm.ite(tobool(c), toreal(a), toreal(b)))
    return a if c else b


def maximum(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = wrap(tm.maximum(toreal(r), toreal(x))) if _anysym(r, x) else max(r, x)
    return r


def minimum(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = wrap(tm.minimum(toreal(r), toreal(x))) if _anysym(r, x) else min(r, x)
    return r


def and_(*bs):
    if _anysym(*bs):
        return wrap(tm.and_(*[tobool(b) for b in bs]))
    return all(bool(b) for b in bs)


def or_(*bs):
    if _anysym(*bs):
        return wrap(tm.or_(*[tobool(b) for b in bs]))
    return any(bool(b) for b in bs)


def not_(b):
    if _anysym(b):
        return wrap(tm.not_(tobool(b)))
    return not b


def implies(a, b):
    return or_(not_(a), b)


def eq(a, b):
    if _anysym(a, b):
        return wrap(tm.eq(toreal(a), toreal(b)))
    return a == b


def arr(x):
    """list of scalars -> array of the mode."""
    from .sym import arr as sarr, has_sym

    if has_sym(x):
        return sarr(x)
    return np.array(x, dtype=float)
