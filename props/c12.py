"""C12 construction, assignment, conversion"""
from safeops import *


def overlap(lo, hi, a):
    return not (a.hi < lo or hi < a.lo)


def spec(lo, hi, tsigned, a, obj):
    def posts(e):
        x = e.A[-1]
        c = e.code
        inr = between(lo, x, hi)
        asg = signed(a.ty) or isinstance(a, En) and bits(a.ty) < 32      # enumerations promote
        low = t.ieq(c, NEG) if not (asg and not tsigned) else lor(t.ieq(c, NEG), t.ieq(c, DOM))
        v = t.bval(e.out[0], tsigned)
        L = [("a value of the target's range is taken over unchanged", imp(inr, land(e.normal, t.ieq(v, x)))),
             ("any other value is refused", imp(lnot(inr), e.threw)),
             ("above the maximum is positive overflow", imp(land(e.threw, t.igt(x, hi)), t.ieq(c, POS))),
             ("below the minimum is negative overflow or domain error", imp(land(e.threw, t.ilt(x, lo)), low))]
        if obj:
            L += [("the target holds the value", imp(inr, t.ieq(e.after[0], x))),
                  ("a refused assignment leaves the target as it was", imp(e.threw, t.ieq(e.after[0], e.A[0])))]
        return L
    return posts


def construct(S, a, p="n", e="s", form=0):
    nm = "ctor%d_%s_from_%s_%s%s" % (form, S.tag(), a.tag(), p, e)
    P, X = POL[p], EXC[e]
    if form == 0:
        body = a.decl("A_" + nm, "x", "t") + " B_%s y(x);" % nm
    elif form == 1:
        body = a.decl("A_" + nm, "x", "t") + " B_%s y = x;" % nm
    else:
        body = a.decl("A_" + nm, "x", "t") + " B_%s y{x};" % nm
    code = head(nm, a, S, P, X) + 'extern "C" void H_%s(%s t, u64 * out){ %s out[0] = hv::ov(y); }\n' % (nm, cpp(a.ty), body)
    return Case(nm, code, [a.arg()], spec(S.lo, S.hi, signed(S.ty), a, False), meta=False, fn="construct %s from %s" % (S.tag(), a.tag()))


def assign(S, a, p="n", e="s"):
    nm = "asgn_%s_from_%s_%s%s" % (S.tag(), a.tag(), p, e)
    P, X = POL[p], EXC[e]
    code = head(nm, a, S, P, X) + ('extern "C" void H_%s(B_%s & y, %s t, u64 * out){ %s B_%s & r = (y = x); out[0] = hv::ov(r); }\n'
                                   % (nm, nm, cpp(a.ty), a.decl("A_" + nm, "x", "t"), nm))
    return Case(nm, code, [S.arg(kind="obj", cls="B_" + nm), a.arg()], spec(S.lo, S.hi, signed(S.ty), a, True), meta=False,
                fn="assign %s from %s" % (S.tag(), a.tag()))


def convert(R, a, p="n", e="s", implicit=False):
    nm = "conv%d_%s_from_%s_%s%s" % (implicit, R, a.tag(), p, e)
    P, X = POL[p], EXC[e]
    get = "%s r = x;" % cpp(R) if implicit else "%s r = static_cast<%s>(x);" % (cpp(R), cpp(R))
    code = head(nm, a, bi(R), P, X) + 'extern "C" void H_%s(%s t, u64 * out){ %s %s out[0] = (u64)r; }\n' % (nm, cpp(a.ty), a.decl("A_" + nm, "x", "t"), get)
    return Case(nm, code, [a.arg()], spec(tmin(R), tmax(R), signed(R), a, False), meta=False, fn="convert %s to %s" % (a.tag(), cpp(R)))


TARGETS = [rs(-100, 100), rs(0, 100), rs(-7, -3), ru(5, 300), ru(0, 60000), rs(-(1 << 31), 1 << 40), ru(1, 1 << 63), rs(-(1 << 63), -1),
           rg("i", 10, 20), rg("i", -1000000, 5), rg("u", 7, 1 << 31), rg("ull", 0, (1 << 64) - 2), rg("ll", -5, 1 << 62), rg("c", -3, 99), rg("us", 1, 65535)]


def job(tier):
    cs = []
    S8 = [sf(k) for k in ALL + CHARS]
    for S in S8 + TARGETS + GRID:
        src = [bi(k) for k in ALL + CHARS + ["b"]] + ENUMS + PROMOTED + [sf(k) for k in ALL + CHARS] + TARGETS + GRID
        for n, a in enumerate(src):
            if not overlap(S.lo, S.hi, a):
                continue
            m = len(cs)
            p = "na"[m % 2]
            e = "sl"[(m // 2) % 2]
            cs.append(construct(S, a, p, e, m % 3))
            if S.tag() != a.tag():
                cs.append(assign(S, a, p, e))
    for R in ALL + CHARS + ["b"]:
        for n, a in enumerate([sf(k) for k in ALL + CHARS] + TARGETS + GRID):
            if overlap(tmin(R), tmax(R), a):
                for k in (0, 1) if tier == "quick" else (0, 1, 2, 3):
                    cs.append(convert(R, a, "na"[(n + k) % 2], "sl"[(n // 2 + k // 2) % 2], bool((n // 3 + k) % 2)))
    return Job("C12", cs, chunk=60, contracts=True)
