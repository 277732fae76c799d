"""C04 checked shifts"""
from spec import *
from c02 import checked_case

SHIFT = (NEGVAL, NEGSH, BIGSH)


def iserr(c):
    return lor(*[t.ieq(c, k) for k in SHIFT])


def lsh(R):
    w = bits(R)

    def spec(e, c, val, x, k):
        r = t.ishl(x, k)
        okc = land(t.ile(0, k), t.ilt(k, w))
        must = lor(t.ieq(k, 0), land(t.igt(x, 0), okc, fits(r, R)))
        forbid = lor(t.ilt(k, 0), t.ile(w, k), land(t.ilt(x, 0), lnot(t.ieq(k, 0))), land(okc, lnot(fits(r, R))))
        return [("a valid shift succeeds", imp(must, t.ieq(c, OK))),
                ("success only with exactly t * 2^u", imp(t.ieq(c, OK), land(okc, t.ieq(val, r)))),
                ("an invalid shift is a shift error", imp(forbid, iserr(c))),
                ("nothing but success or a shift error", lor(t.ieq(c, OK), iserr(c)))]
    return spec


def rsh(R):
    w = bits(R)

    def spec(e, c, val, x, k):
        okc = land(t.ile(0, k), t.ilt(k, w))
        must = land(t.igt(x, 0), okc)
        forbid = lor(t.ilt(k, 0), t.ile(w, k), t.ilt(x, 0))
        return [("a valid shift succeeds", imp(must, t.ieq(c, OK))),
                ("success only with exactly floor(t / 2^u)", imp(t.ieq(c, OK), land(okc, t.ieq(val, t.ishr(x, k))))),
                ("an invalid shift is a shift error", imp(forbid, iserr(c))),
                ("nothing but success or a shift error", lor(t.ieq(c, OK), iserr(c)))]
    return spec


def job(tier):
    cs = []
    for R in ALL + CHARS:
        cs += [checked_case("left_shift", R, 2, lsh(R)), checked_case("right_shift", R, 2, rsh(R))]
    return Job("C04", cs, chunk=3)
