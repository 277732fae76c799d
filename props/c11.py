"""C11 interval predicates"""
from spec import *

H = '''
template<class T> static u64 tri(const boost::logic::tribool & t){ return t ? 1 : ! t ? 0 : 2; }
static u64 tr(const boost::logic::tribool & t){ return t ? 1 : ! t ? 0 : 2; }
static u64 tr(bool t){ return t ? 1 : 0; }
'''


def case(name, R, checked, expr, n, post, note=""):
    """n values: interval t(a0,a1) and, if n == 4, interval u(a2,a3); if n == 3, the value a2"""
    nm = "ip_%s_%s%s" % (name, R, "_checked" if checked else "")
    Rc = cpp(R)
    B = "checked_result<%s>" % Rc if checked else Rc
    body = "const %s b0(a0), b1(a1); const interval<%s> t(b0, b1);" % (B, B)
    if n == 4:
        body += " const %s b2(a2), b3(a3); const interval<%s> u(b2, b3);" % (B, B)
    if n == 3:
        body += " const %s x(a2);" % B
    code = 'extern "C" void H_%s(%s, u64 * out){ %s out[0] = tr(%s); }\n' % (
        nm, ", ".join("%s a%d" % (Rc, k) for k in range(n)), body, expr)

    def pre(e):
        p = t.ile(e.A[0], e.A[1])
        return land(p, t.ile(e.A[2], e.A[3])) if n == 4 else p

    def posts(e):
        return [("returns normally", e.normal)] + post(e.o(0, False), *e.A)
    return Case(nm, code, [Arg(R)] * n, posts, meta=False, pre=pre, pre_args=True,
                fn="%s on interval<%s>" % (expr, B))


def exact(f, what):
    def post(r, *a):
        return [("definitely true exactly when " + what, t.iff(t.ieq(r, 1), f(*a))),
                ("definitely false exactly when not", t.iff(t.ieq(r, 0), lnot(f(*a))))]
    return post


def three(true_, false_):
    """definite answers only when they are right, and whenever the bounds decide"""
    def post(r, *a):
        return [("definitely true only if it holds for all members", imp(t.ieq(r, 1), true_(*a))),
                ("definitely false only if it holds for no members", imp(t.ieq(r, 0), false_(*a))),
                ("true, false or indeterminate", t.ile(r, 2))]
    return post


def job(tier):
    cs = []
    lt = lambda a, b, c, d: t.ilt(b, c)        # every member of t < every member of u
    gt = lambda a, b, c, d: t.ilt(d, a)
    nolt = lambda a, b, c, d: t.ile(d, a)      # no member of t < any member of u
    nogt = lambda a, b, c, d: t.ile(b, c)
    le = lambda a, b, c, d: t.ile(b, c)
    ge = lambda a, b, c, d: t.ile(d, a)
    for R in ALL:
        for ck in (False, True):
            cs += [
                case("includes", R, ck, "t.includes(x)", 3, exact(lambda a, b, x: between(a, x, b), "the value is a member")),
                case("excludes", R, ck, "t.excludes(x)", 3, exact(lambda a, b, x: lnot(between(a, x, b)), "the value is no member")),
                case("includesi", R, ck, "t.includes(u)", 4, exact(lambda a, b, c, d: land(t.ile(a, c), t.ile(d, b)), "it is a sub-interval")),
                case("excludesi", R, ck, "t.excludes(u)", 4, exact(lambda a, b, c, d: lor(t.ilt(d, a), t.ilt(b, c)), "there is no common member")),
                case("intersect", R, ck, "intersect(t, u)", 4, exact(lambda a, b, c, d: land(t.ile(c, b), t.ile(a, d)), "there is a common member")),
                case("lt", R, ck, "t < u", 4, three(lt, nolt)),
                case("gt", R, ck, "t > u", 4, three(gt, nogt)),
                case("le", R, ck, "t <= u", 4, three(le, gt)),
                case("ge", R, ck, "t >= u", 4, three(ge, lt)),
            ]
        eq = lambda a, b, c, d: land(t.ieq(a, c), t.ieq(b, d))
        cs += [case("eq", R, False, "t == u", 4, exact(eq, "the bounds are equal")),
               case("ne", R, False, "t != u", 4, exact(lambda *a: lnot(eq(*a)), "the bounds differ"))]
    return Job("C11", cs, header=H, chunk=30, contracts=True)
