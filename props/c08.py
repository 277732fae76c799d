"""C08 arithmetic on checked results"""
from spec import *
import c02, c03

MK = '''
template<class T> static checked_result<T> mk(unsigned char code, T v){
    return code == 0 ? checked_result<T>(v)
                     : checked_result<T>(static_cast<safe_numerics_error>(code), "operand");
}
'''


class Op:
    """an operand that may be an error: code, value; extended number"""

    def __init__(self, code, v):
        self.c, self.v = code, v
        self.val, self.pos, self.neg = t.ieq(code, OK), t.ieq(code, POS), t.ieq(code, NEG)
        self.ovf = lor(self.pos, self.neg)
        self.ind = lnot(lor(self.val, self.ovf))
        # sign of the extended number
        self.gt0 = lor(self.pos, land(self.val, t.igt(v, 0)))
        self.lt0 = lor(self.neg, land(self.val, t.ilt(v, 0)))
        self.eq0 = land(self.val, t.ieq(v, 0))


def isind(c):
    return lnot(lor(t.ieq(c, OK), t.ieq(c, POS), t.ieq(c, NEG)))


def exact(R, c, val, x):
    """value if representable, else the overflow in its direction"""
    return ite(t.igt(x, tmax(R)), t.ieq(c, POS), ite(t.ilt(x, tmin(R)), t.ieq(c, NEG),
                                                    land(t.ieq(c, OK), t.ieq(val, x))))


def zero(c, val):
    return land(t.ieq(c, OK), t.ieq(val, 0))


def addsub(R, sign):
    def spec(e, c, val, a, b):
        bp, bn = (b.pos, b.neg) if sign > 0 else (b.neg, b.pos)
        x = t.iadd(a.v, b.v) if sign > 0 else t.isub(a.v, b.v)
        up, dn = lor(a.pos, bp), lor(a.neg, bn)
        return [("two values: the exact result or the overflow in its direction",
                 imp(land(a.val, b.val), exact(R, c, val, x))),
                ("an indeterminate operand gives an indeterminate error", imp(lor(a.ind, b.ind), isind(c))),
                ("infinity minus infinity is indeterminate",
                 imp(land(lnot(a.ind), lnot(b.ind), up, dn), isind(c))),
                ("an overflow above stays above", imp(land(lnot(a.ind), lnot(b.ind), up, lnot(dn)), t.ieq(c, POS))),
                ("an overflow below stays below", imp(land(lnot(a.ind), lnot(b.ind), dn, lnot(up)), t.ieq(c, NEG)))]
    return spec


def mul(R):
    def spec(e, c, val, a, b):
        ok = land(lnot(a.ind), lnot(b.ind))
        inf = land(ok, lor(a.ovf, b.ovf))
        same = lor(land(a.gt0, b.gt0), land(a.lt0, b.lt0))
        opp = lor(land(a.gt0, b.lt0), land(a.lt0, b.gt0))
        return [("two values: the exact result or the overflow in its direction",
                 imp(land(a.val, b.val), exact(R, c, val, t.imul(a.v, b.v)))),
                ("an indeterminate operand gives an indeterminate error", imp(lnot(ok), isind(c))),
                ("an overflow times zero is zero", imp(land(inf, lor(a.eq0, b.eq0)), zero(c, val))),
                ("equal signs: positive overflow", imp(land(inf, same), t.ieq(c, POS))),
                ("opposite signs: negative overflow", imp(land(inf, opp), t.ieq(c, NEG)))]
    return spec


def div(R):
    def spec(e, c, val, a, b):
        ok = land(lnot(a.ind), lnot(b.ind))
        vv = land(a.val, b.val)
        return [("two values: the exact quotient or the overflow in its direction",
                 imp(land(vv, lnot(b.eq0)), exact(R, c, val, t.itdiv(a.v, b.v)))),
                ("an indeterminate operand gives an indeterminate error", imp(lnot(ok), isind(c))),
                ("zero divided by zero is indeterminate", imp(land(a.eq0, b.eq0), isind(c))),
                ("division of a non-zero number by zero overflows in its direction",
                 imp(land(ok, b.eq0), land(imp(a.gt0, t.ieq(c, POS)), imp(a.lt0, t.ieq(c, NEG))))),
                ("a value divided by an overflow is zero", imp(land(a.val, b.ovf), zero(c, val))),
                ("an overflow divided by a non-zero value overflows with the product of the signs",
                 imp(land(a.ovf, b.val, lnot(b.eq0)),
                     t.ieq(c, ite(lor(land(a.pos, b.gt0), land(a.neg, b.lt0)), t.ic(POS), t.ic(NEG))))),
                ("overflows of the same sign: indeterminate", imp(lor(land(a.pos, b.pos), land(a.neg, b.neg)), isind(c))),
                ("overflows of opposite signs: an error, not a positive overflow",
                 imp(lor(land(a.pos, b.neg), land(a.neg, b.pos)), land(lnot(t.ieq(c, OK)), lnot(t.ieq(c, POS)))))]
    return spec


def mod(R):
    def spec(e, c, val, a, b):
        ok = land(lnot(a.ind), lnot(b.ind))
        return [("two values: exactly the remainder of truncated division",
                 imp(land(a.val, b.val, lnot(b.eq0)), land(t.ieq(c, OK), t.ieq(val, t.itmod(a.v, b.v))))),
                ("an indeterminate operand gives an indeterminate error", imp(lnot(ok), isind(c))),
                ("remainder of a division by zero is indeterminate", imp(land(ok, b.eq0), isind(c))),
                ("a value modulo an overflow is the value", imp(land(a.val, b.ovf), land(t.ieq(c, OK), t.ieq(val, a.v)))),
                ("overflow modulo overflow is indeterminate", imp(land(a.ovf, b.ovf), isind(c)))]
    return spec


def neg(R):
    def spec(e, c, val, a):
        return [("a value: the exact negative or the overflow in its direction",
                 imp(a.val, exact(R, c, val, t.ineg(a.v)))),
                ("overflows change direction", land(imp(a.pos, t.ieq(c, NEG)), imp(a.neg, t.ieq(c, POS)))),
                ("indeterminate stays indeterminate", imp(a.ind, isind(c)))]
    return spec


def shx(x, k):
    """x * 2^k for k >= 0, x / 2^-k truncated toward zero for k < 0"""
    up, dn = t.ige(k, 0), t.ilt(k, 0)
    m = iabs(x)
    l = t.ishl(x, ite(up, imin(k, t.ic(70)), t.ic(0)))
    q = t.ishr(m, ite(dn, imin(t.ineg(k), t.ic(70)), t.ic(0)))
    return l, ite(t.ilt(x, 0), t.ineg(q), q)


def shift(R, left):
    """multiplication / truncating division by 2^u; a negative count shifts the other way"""
    def spec(e, c, val, a, b):
        vv = land(a.val, b.val)
        k = b.v if left else t.ineg(b.v)
        up, dn = t.ige(k, 0), t.ilt(k, 0)
        x, q = shx(a.v, k)
        binf, bzero = (b.pos, b.neg) if left else (b.neg, b.pos)
        # the representable minimum, reached by a left shift, may count as an overflow below
        atmin = land(t.ieq(x, tmin(R)), t.ilt(a.v, 0), t.ieq(c, NEG))
        return [("two values: exactly t*2^u or the overflow in its direction",
                 imp(land(vv, up), lor(exact(R, c, val, x), atmin))),
                ("two values: exactly t/2^u truncated toward zero", imp(land(vv, dn), land(t.ieq(c, OK), t.ieq(val, q)))),
                ("zero stays zero", imp(a.eq0, zero(c, val))),
                ("an indeterminate operand gives an indeterminate error",
                 imp(land(lnot(a.eq0), lor(a.ind, b.ind)), isind(c))),
                ("shifting a non-zero value by plus infinity overflows in its direction",
                 imp(land(a.val, binf), land(imp(t.igt(a.v, 0), t.ieq(c, POS)), imp(t.ilt(a.v, 0), t.ieq(c, NEG))))),
                ("shifting a value by minus infinity gives zero", imp(land(a.val, bzero), zero(c, val))),
                ("an overflow shifted by anything but minus infinity keeps its direction",
                 imp(land(lnot(b.ind), lnot(bzero)), land(imp(a.pos, t.ieq(c, POS)), imp(a.neg, t.ieq(c, NEG))))),
                ("an overflow shifted by minus infinity is indeterminate", imp(land(a.ovf, bzero), isind(c)))]
    return spec


def bit(R, f):
    n = bits(R)

    def spec(e, c, val, a, b):
        return [("two values: the bits of the built-in operator",
                 imp(land(a.val, b.val), land(t.ieq(c, OK), t.eq(t.extract(e.out[1], n - 1, 0), f(e.a[1], e.a[3]))))),
                ("an error operand gives an indeterminate error", imp(lor(lnot(a.val), lnot(b.val)), isind(c)))]
    return spec


def case(name, sym, R, spec, n=2):
    nm = "cr_%s_%s" % (name, R)
    Rc = cpp(R)
    if n == 2:
        code = ('extern "C" void H_%s(unsigned char ct, %s t, unsigned char cu, %s u, u64 * out)'
                '{ hv::oc(mk<%s>(ct, t) %s mk<%s>(cu, u), out); }\n' % (nm, Rc, Rc, Rc, sym, Rc))
    else:
        code = ('extern "C" void H_%s(unsigned char ct, %s t, u64 * out){ hv::oc(%smk<%s>(ct, t), out); }\n'
                % (nm, Rc, sym, Rc))

    def posts(e):
        ops = [Op(e.A[2 * k], e.A[2 * k + 1]) for k in range(n)]
        val = t.bval(e.out[1], signed(R))
        return [("returns normally", e.normal)] + spec(e, e.o(0), val, *ops)
    return Case(nm, code, [Arg("uc", 0, 10), Arg(R)] * n, posts, nout=2, meta=False,
                fn="operator%s(checked_result<%s>%s)" % (sym, Rc, ", ..." if n == 2 else ""))


def job(tier):
    cs = []
    for R in ALL + CHARS:
        cs += [case("add", "+", R, addsub(R, 1)), case("sub", "-", R, addsub(R, -1)), case("mul", "*", R, mul(R)),
               case("div", "/", R, div(R)), case("mod", "%", R, mod(R)), case("neg", "-", R, neg(R), 1),
               case("shl", "<<", R, shift(R, True)), case("shr", ">>", R, shift(R, False)),
               case("or", "|", R, bit(R, t.bor)), case("and", "&", R, bit(R, t.band)), case("xor", "^", R, bit(R, t.bxor))]
    return Job("C08", cs, header=MK, chunk=6, contracts=True)
