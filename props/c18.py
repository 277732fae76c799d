"""C18 every safe value lies inside the range its type declares"""
from safeops import *
import c13, c14, c15, c16
from c12 import TARGETS, overlap


def declared(op, a, b):
    def posts(e):
        lo, hi = e.declared()
        bl, bh = e.rlim()
        return [("the declared range is a range of the base type", t.boolc(bl <= lo <= hi <= bh)),
                ("every value returned lies in the declared range", imp(e.normal, between(lo, e.res(), hi)))]
    return posts


def keeps(S, ret=True):
    def posts(e):
        L = [("the object stays inside its declared range, also when an error is reported", between(S.lo, e.after[0], S.hi))]
        if ret:
            L.append(("so does the returned value", imp(e.normal, between(S.lo, t.bval(e.out[0], signed(S.ty)), S.hi))))
        return L
    return posts


def objcase(nm, S, args, body, posts, p, e, cls="", params=""):
    code = "typedef %s S_%s;\n%s" % (S.cls(POL[p], EXC[e]), nm, cls)
    code += 'extern "C" void H_%s(S_%s & x%s, u64 * out){ %s }\n' % (nm, nm, params, body)
    return Case(nm, code, [S.arg(kind="obj", cls="S_" + nm)] + args, posts, meta=False, fn=nm)


def incdec(S, form, p="n", e="s", posts=None):
    nm = "%s_%s_%s%s" % ({"++x": "preinc", "--x": "predec", "x++": "postinc", "x--": "postdec"}[form], S.tag(), p, e)
    return objcase(nm, S, [], "out[0] = hv::ov(%s);" % form, posts(S, form), p, e)


def compound(op, S, b, p="n", e="s", posts=None):
    nm = "%s_eq_%s_%s_%s%s" % (op, S.tag(), b.tag(), p, e)
    P, X = POL[p], EXC[e]
    cls = "typedef %s B_%s;\n" % (b.cls(P, X), nm)
    cls += "META(%s, std::decay<decltype(std::declval<S_%s const &>() %s std::declval<B_%s const &>())>::type)\n" % (nm, nm, OPC[op], nm)
    c = objcase(nm, S, [b.arg()], b.decl("B_" + nm, "b", "u") + " auto && r = (x %s= b); out[0] = hv::ov(r);" % OPC[op], posts(op, S, b), p, e, cls,
                ", %s u" % cpp(b.ty))
    c.meta = True
    return c


def job(tier):
    cs = []
    f = declared
    for op, R in (("add", c13.RANGES), ("sub", c13.RANGES), ("mul", c13.RANGES), ("div", c14.RANGES), ("mod", c14.RANGES),
                  ("shl", c15.RANGES), ("shr", c15.RANGES), ("or", c16.RANGES), ("and", c16.RANGES), ("xor", c16.RANGES)):
        for i, A in enumerate(W8):
            for j, B in enumerate(W8):
                for p in "na":
                    v = [(sf(A), sf(B)), (sf(A), bi(B)), (bi(A), sf(B))]
                    for k, (a, b) in enumerate(v):
                        if tier == "quick" and k == (i + 2 * j + (p == "n")) % 3:
                            continue
                        cs.append(binop(op, a, b, p, "s", f))
        for a, b, p, e in grid(tier, 3, len(op)):
            cs.append(binop(op, a, b, p, 's', f))
        for a, b, p, e in extra(tier, 8, ord(op[0]) + ord(op[-1])):
            cs.append(binop(op, a, b, p, 's', f))
        for n, (a, b, p, e) in enumerate(odd("quick", len(op))):
            if (n % 2 or tier != "quick") and (op not in ("shl", "shr") or not isinstance(a, En)):
                cs.append(binop(op, a, b, p, "s", f))
        for n, (a, b) in enumerate(R):
            for p in "na":
                cs.append(binop(op, a, b, p, "s", f))
                if a.safe:
                    cs.append(binop(op, b, a, p, "s", f))
        for A in ("sc", "us", "i", "ull"):
            cs.append(binop(op, sf(A), sf("i"), "c", "s", f))
            cs.append(binop(op, rs(-3, 9), sf(A), "c", "s", f))
        for a, b in c16.MIX:
            for p in "na":
                if op == "div" or op == "mod" or True:
                    cs.append(binop(op, a, b, p, "s", f))
    for a in [sf(k) for k in ALL + CHARS] + GRID:
        for op in "-+~":
            for p in "na":
                cs.append(unary(op, a, p, "s", lambda o, a: declared(o, a, None)))
    for S in TARGETS:
        for form in ("++x", "--x", "x++", "x--"):
            cs.append(incdec(S, form, "na"[len(cs) % 2], "s", lambda S, f: keeps(S)))
        for op in ("add", "sub", "mul", "div", "mod", "shl", "shr", "or", "and", "xor"):
            for b in (bi("i"), rs(-3, 9)):
                c = None
                p = "na"[len(cs) % 2]
                if possible(op, S, b):
                    cs.append(compound(op, S, b, p, "s", lambda op, S, b: keeps(S)))
    for S in TARGETS + [sf("sc"), sf("u")]:
        for a in [bi(k) for k in ALL + CHARS + ["b"]] + ENUMS + TARGETS[:6]:
            if overlap(S.lo, S.hi, a):
                import c12
                c = c12.assign(S, a, "na"[len(cs) % 2], "s")
                c.posts = keeps(S)
                cs.append(c)
    return Job("C18", cs, chunk=60, contracts=True)


def possible(op, S, b):
    """the result's declared range meets S's range (else the conversion back is a compile-time error)"""
    if op in ("div", "mod", "shr") and not (S.lo <= 1 and S.hi >= 0):
        if op == "mod" or op == "shr":
            return S.lo <= 1
    return True
