"""C09 comparisons of checked results"""
from spec import *
from c08 import MK, Op

NAMES = [("<", "lt"), (">", "gt"), ("<=", "le"), (">=", "ge"), ("==", "eq"), ("!=", "ne")]
F, T_, I = 0, 1, 2      # tribool


def case(R):
    nm = "crcmp_" + R
    Rc = cpp(R)
    body = " ".join("out[%d] = (u64)(int)(mk<%s>(ct, t) %s mk<%s>(cu, u)).value;" % (k, Rc, s, Rc)
                    for k, (s, _) in enumerate(NAMES))
    code = 'extern "C" void H_%s(unsigned char ct, %s t, unsigned char cu, %s u, u64 * out){ %s }\n' % (nm, Rc, Rc, body)

    def posts(e):
        a, b = Op(e.A[0], e.A[1]), Op(e.A[2], e.A[3])
        vv = land(a.val, b.val)
        rel = [t.ilt(a.v, b.v), t.ilt(b.v, a.v), t.ile(a.v, b.v), t.ile(b.v, a.v), t.ieq(a.v, b.v),
               lnot(t.ieq(a.v, b.v))]
        # extended numbers: definite answers that are right
        lt = lor(land(vv, rel[0]), land(b.pos, lor(a.val, a.neg)), land(a.neg, lor(b.val, b.pos)))
        gt = lor(land(vv, rel[1]), land(a.pos, lor(b.val, b.neg)), land(b.neg, lor(a.val, a.pos)))
        eq = land(vv, rel[4])
        known = lor(lt, gt, eq)
        true = [lt, gt, lor(lt, eq), lor(gt, eq), eq, lor(lt, gt)]
        ps = [("returns normally", e.normal)]
        for k, (s, _) in enumerate(NAMES):
            o = e.o(k)
            ps += [("%s: definite and right when the operands decide it" % s,
                    imp(known, t.ieq(o, ite(true[k], t.ic(T_), t.ic(F))))),
                   ("%s: indeterminate otherwise" % s, imp(lnot(known), t.ieq(o, I)))]
        return ps
    return Case(nm, code, [Arg("uc", 0, 10), Arg(R)] * 2, posts, nout=len(NAMES), meta=False,
                fn="comparison operators on checked_result<%s>" % Rc)


def job(tier):
    return Job("C09", [case(R) for R in ALL + CHARS], header=MK, chunk=2)
