"""C02 checked add, subtract, minus, multiply;  also used by C03-C05"""
from spec import *


def checked_case(op, R, nargs, spec):
    """spec(e, x, y) -> list of (label, Bool) over e.o(0) = code and val"""
    nm = "%s_%s" % (op, R)
    Rc = cpp(R)
    ps = ", ".join("%s %s" % (Rc, p) for p in "tu"[:nargs])
    code = 'extern "C" void H_%s(%s, u64 * out){ hv::oc(checked::%s<%s>(%s), out); }\n' % (
        nm, ps, op, Rc, ", ".join("tu"[:nargs]))

    def posts(e):
        val = t.bval(e.out[1], signed(R))
        return [("returns normally", e.normal)] + spec(e, e.o(0), val, *e.A[:nargs])
    return Case(nm, code, [Arg(R)] * nargs, posts, nout=2, meta=False, fn="checked::%s<%s>" % (op, Rc))


def arith(R, f):
    def spec(e, c, val, *a):
        x = f(*a)
        return [("representable => exactly the mathematical result", imp(fits(x, R), land(t.ieq(c, OK), t.ieq(val, x)))),
                ("result above the maximum => positive overflow", imp(t.igt(x, tmax(R)), t.ieq(c, POS))),
                ("result below the minimum => negative overflow", imp(t.ilt(x, tmin(R)), t.ieq(c, NEG)))]
    return spec


def job(tier):
    cs = []
    for R in ALL + CHARS:
        cs += [checked_case("add", R, 2, arith(R, t.iadd)), checked_case("subtract", R, 2, arith(R, t.isub)),
               checked_case("multiply", R, 2, arith(R, t.imul)), checked_case("minus", R, 1, arith(R, t.ineg))]
    return Job("C02", cs, chunk=6)
