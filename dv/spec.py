"""vocabulary of the specifications in props/"""
import terms as t
from terms import land, lor, lnot, ite, between, imin, imax, iabs, TRUE, FALSE
from vc import *
from drive import Job


def imp(a, b):
    return t.implies(a, b)


def allof(*xs):
    return land(*xs)


def lit(v, ty):
    """C++ literal of type ty"""
    n, s = bits(ty), signed(ty)
    if s:
        if v == -(1 << 63):
            return "(-9223372036854775807LL - 1)"
        return "(%dLL)" % v
    return "(%dULL)" % v


def fits(x, k):
    return between(tmin(k), x, tmax(k))
