"""Model of random: any value of the documented range."""
import random as _real
import z3

from . import core
from .sym import SInt, SReal, zint


def randint(a, b):
    c = core.CUR
    if c is None or not c.symbolic:
        return _real.randint(a, b)
    t = z3.Int(c.fresh_name("randint"))
    c.add(z3.And(t >= zint(a), t <= zint(b)))
    return SInt(t)


def random():
    c = core.CUR
    if c is None or not c.symbolic:
        return _real.random()
    t = z3.Real(c.fresh_name("random"))
    c.add(z3.And(t >= 0, t < 1))
    return SReal(t)


def randrange(a, b=None):
    if b is None:
        a, b = 0, a
    return randint(a, b - 1)
