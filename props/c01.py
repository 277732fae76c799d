"""C01 checked conversion"""
from spec import *


def ranges(R):
    a, b = tmin(R), tmax(R)
    rs = [(5, 100), (0, 0), (0, 100), (b - 1, b), (a, a + 1), (1, b)]
    if signed(R):
        rs += [(-100, 100), (-7, -3), (a, -1), (-1, 0), (a + 1, b - 1)]
    return sorted({r for r in rs if a <= r[0] <= r[1] <= b})


def cast_spec(R, T, L, H):
    def spec(e, c, val, x):
        low = t.ieq(c, NEG) if not (signed(T) and not signed(R)) else lor(t.ieq(c, NEG), t.ieq(c, DOM))
        return [("representable => exactly the value", imp(between(L, x, H), land(t.ieq(c, OK), t.ieq(val, x)))),
                ("above the maximum => positive overflow", imp(t.igt(x, H), t.ieq(c, POS))),
                ("below the minimum => negative overflow / domain error", imp(t.ilt(x, L), low))]
    return spec


def cast_case(R, T, k=None, rg=None):
    nm = "cast%s_%s_%s" % ("" if k is None else k, R, T)
    Rc, Tc = cpp(R), cpp(T)
    L, H = rg or (tmin(R), tmax(R))
    if rg is None:
        call = "checked::cast<%s>(t)" % Rc
    else:
        call = "(heterogeneous_checked_operation<%s, (%s)%s, (%s)%s, %s>::cast(t))" % (
            Rc, Rc, lit(L, R), Rc, lit(H, R), Tc)
    code = 'extern "C" void H_%s(%s t, u64 * out){ hv::oc(%s, out); }\n' % (nm, Tc, call)

    def posts(e):
        return [("returns normally", e.normal)] + cast_spec(R, T, L, H)(e, e.o(0), t.bval(e.out[1], signed(R)), e.A[0])
    return Case(nm, code, [Arg(T)], posts, nout=2, meta=False, note="range [%d,%d]" % (L, H),
                fn="checked cast %s -> %s [%d,%d]" % (Tc, Rc, L, H), cover="normal")


def job(tier):
    cs = [cast_case(R, T) for R in ALL + CHARS for T in ALL + CHARS]
    cs += [cast_case(R, T, k, rg) for R in ALL + CHARS for T in (ALL + CHARS if R in ALL else ALL[3:]) for k, rg in enumerate(ranges(R))]
    return Job("C01", cs, chunk=80)
