"""C03 checked divide, modulus"""
from spec import *
from c02 import checked_case


def div(R):
    def spec(e, c, val, x, y):
        q = t.itdiv(x, y)
        z = t.ieq(y, 0)
        return [("divisor zero => domain error", imp(z, t.ieq(c, DOM))),
                ("representable => exactly the truncated quotient",
                 imp(land(lnot(z), fits(q, R)), land(t.ieq(c, OK), t.ieq(val, q)))),
                ("quotient not representable => positive overflow",
                 imp(land(lnot(z), lnot(fits(q, R))), t.ieq(c, POS)))]
    return spec


def mod(R):
    def spec(e, c, val, x, y):
        z = t.ieq(y, 0)
        return [("divisor zero => domain error", imp(z, t.ieq(c, DOM))),
                ("otherwise exactly the remainder of truncated division",
                 imp(lnot(z), land(t.ieq(c, OK), t.ieq(val, t.itmod(x, y)))))]
    return spec


def job(tier):
    cs = []
    for R in ALL + CHARS:
        cs += [checked_case("divide", R, 2, div(R)), checked_case("modulus", R, 2, mod(R))]
    return Job("C03", cs, chunk=3)
