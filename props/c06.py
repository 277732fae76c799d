"""C06 safe_compare"""
from spec import *

OPS = {"less_than": lambda x, y: t.ilt(x, y), "greater_than": lambda x, y: t.ilt(y, x),
       "less_than_equal": lambda x, y: t.ile(x, y), "greater_than_equal": lambda x, y: t.ile(y, x),
       "equal": lambda x, y: t.ieq(x, y), "not_equal": lambda x, y: lnot(t.ieq(x, y))}


def case(T, U):
    nm = "cmp_%s_%s" % (T, U)
    body = "".join("out[%d] = safe_compare::%s(t, u); " % (k, o) for k, o in enumerate(OPS))
    code = 'extern "C" void H_%s(%s t, %s u, u64 * out){ %s }\n' % (nm, cpp(T), cpp(U), body)

    def posts(e):
        return [("returns normally", e.normal)] + [
            ("%s is the mathematical relation" % o, t.eq(e.out[k], ite(f(*e.A), t.bv(1, 64), t.bv(0, 64))))
            for k, (o, f) in enumerate(OPS.items())]
    return Case(nm, code, [Arg(T), Arg(U)], posts, nout=len(OPS), meta=False,
                fn="safe_compare::{%s}<%s,%s>" % (",".join(OPS), cpp(T), cpp(U)))


def job(tier):
    return Job("C06", [case(T, U) for T in ALL + CHARS for U in ALL + CHARS], chunk=16)
