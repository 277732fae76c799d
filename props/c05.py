"""C05 checked bitwise operations"""
from spec import *
from c02 import checked_case


def bw(R, f):
    n = bits(R)

    def spec(e, c, val, *a):
        return [("succeeds", t.ieq(c, OK)),
                ("the bits of the built-in operator", t.eq(t.extract(e.out[1], n - 1, 0), f(*e.a[:len(a)]))),
                ("the value is that bit pattern in R", fits(val, R))]
    return spec


def job(tier):
    cs = []
    for R in ALL + CHARS:
        cs += [checked_case("bitwise_or", R, 2, bw(R, t.bor)), checked_case("bitwise_and", R, 2, bw(R, t.band)),
               checked_case("bitwise_xor", R, 2, bw(R, t.bxor)),
               checked_case("bitwise_not", R, 1, bw(R, lambda a: t.bxor(a, t.bv(-1, a.sort))))]
    return Job("C05", cs, chunk=6)
