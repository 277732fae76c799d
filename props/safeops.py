"""Instances and specifications shared by the properties about safe operators."""
from spec import *

POL = {"n": "native", "a": "automatic", "c": "cpp<8,16,32,64,64>", "d": "cpp<8,16,16,32,64>", "z": "cpp<8,16,16,16,32>"}
EXC = {"s": "strict_exception_policy", "l": "loose_exception_policy",
       "i": "exception_policy<ignore_exception, ignore_exception, ignore_exception, ignore_exception>",
       "t": "exception_policy<throw_exception, throw_exception, throw_exception, throw_exception>"}
SHIFT = (NEGVAL, NEGSH, BIGSH)
OPC = {"add": "+", "sub": "-", "mul": "*", "div": "/", "mod": "%", "shl": "<<", "shr": ">>", "or": "|", "and": "&",
       "xor": "^", "lt": "<", "gt": ">", "le": "<=", "ge": ">=", "eq": "==", "ne": "!="}


class O:
    """operand: base type, range (None: whole type), safe or built in"""

    def __init__(self, ty, lo=None, hi=None, safe=True):
        self.ty, self.safe = ty, safe
        self.lo = tmin(ty) if lo is None else lo
        self.hi = tmax(ty) if hi is None else hi
        self.full = self.lo == tmin(ty) and self.hi == tmax(ty)

    def cls(self, P, E):
        if not self.safe:
            return cpp(self.ty)
        if self.full:
            return "safe<%s, %s, %s>" % (cpp(self.ty), P, E)
        return "safe_base<%s, (%s)%s, (%s)%s, %s, %s>" % (cpp(self.ty), cpp(self.ty), lit(self.lo, self.ty),
                                                     cpp(self.ty), lit(self.hi, self.ty), P, E)

    def arg(self, **k):
        return Arg(self.ty, self.lo, self.hi, **k)

    def decl(self, cls, var, src):
        return "%s %s(%s);" % (cls, var, src)

    def tag(self):
        if not self.safe:
            return self.ty
        if self.full:
            return "S" + self.ty
        f = lambda v: ("m%d" % -v) if v < 0 else str(v)
        return "r%s_%s_%s" % (self.ty, f(self.lo), f(self.hi))


class En(O):
    """unscoped enumeration: key of its underlying type, or x, y (not fixed, values 0..1023, -512..511);
    c + key: class that converts to that type"""

    def __init__(self, k):
        super().__init__(*({"x": ("i", 0, 1023), "y": ("i", -512, 511)}.get(k) or (k if k in TYPES else k[1:],)), safe=False)
        self.k = k

    def cls(self, P, E):
        return "hv::En_" + self.k

    def tag(self):
        return "E" + self.k

    def decl(self, cls, var, src):
        return "%s %s = static_cast<%s>(%s);" % (cls, var, cls, src)


ENUMS = [En(k) for k in ("sc", "s", "i", "u", "ll", "ull", "x", "y", "ci", "cu", "cll", "cull")]
PROMOTED = [En("uc"), En("us")]     # their values promote to int


class Lit(O):
    """safe literal N; pol: with explicit policies"""

    def __init__(self, n, pol=False, u=False, make=False):
        super().__init__(urange_type(n) if u else srange_type(n, n), n, n)
        self.n, self.pol, self.u, self.make = n, pol, u, make

    def cls(self, P, E):
        pe = ", %s, %s" % (P, E) if self.pol else ""
        if self.make:
            return "std::decay<decltype(make_safe_literal(%s%s))>::type" % (self.make, pe or ", void, void")
        return "safe_%s_literal<%s%s>" % ("unsigned" if self.u else "signed", lit(self.n, "ull" if self.u else "ll"), pe)

    def tag(self):
        return ("M" if self.make else "") + ("U" if self.u else "L") + (("m%d" % -self.n) if self.n < 0 else str(self.n)) + ("p" if self.pol else "")

    def decl(self, cls, var, src):
        return "%s %s; (void)%s;" % (cls, var, src)


def sf(ty):
    return O(ty)


def bi(ty):
    return O(ty, safe=False)


def rg(ty, lo, hi):
    return O(ty, lo, hi)


def srange_type(lo, hi):
    for k in ("sc", "s", "i", "l"):
        if tmin(k) <= lo and hi <= tmax(k):
            return k


def urange_type(hi):
    for k in ("uc", "us", "u", "ul"):
        if hi <= tmax(k):
            return k


def rs(lo, hi):
    """safe_signed_range<lo, hi>"""
    return O(srange_type(lo, hi), lo, hi)


def ru(lo, hi):
    return O(urange_type(hi), lo, hi)


def exact(op, x, y):
    return {"add": t.iadd, "sub": t.isub, "mul": t.imul, "div": t.itdiv, "mod": t.itmod, "shl": t.ishl,
            "shr": t.ishr}[op](x, y)


def head(nm, a, b, P, E, expr=None):
    return ("typedef %s A_%s;\ntypedef %s B_%s;\n" % (a.cls(P, E), nm, b.cls(P, E), nm))


def binop(op, a, b, p="n", e="s", posts=None, pre="", **kw):
    """a OP b"""
    nm = "%s_%s_%s_%s%s" % (op, a.tag(), b.tag(), p, e)
    if pre:
        nm = pre + nm
    P, X = POL[p], EXC[e]
    expr = "(std::declval<A_%s const &>() %s std::declval<B_%s const &>())" % (nm, OPC[op], nm)
    cmp_ = op in ("lt", "gt", "le", "ge", "eq", "ne")
    code = head(nm, a, b, P, X)
    if not cmp_:
        code += "META(%s, typename std::decay<decltype%s>::type)\n" % (nm, expr)
        code = code.replace("typename std::decay", "std::decay")
    code += ('extern "C" void H_%s(%s t, %s u, u64 * out){ %s %s out[0] = hv::ov(a %s b); }\n'
             % (nm, cpp(a.ty), cpp(b.ty), a.decl("A_" + nm, "a", "t"), b.decl("B_" + nm, "b", "u"), OPC[op]))
    return Case(nm, code, [a.arg(), b.arg()], posts(op, a, b) if posts else None, meta=not cmp_,
                fn="%s %s %s (%s, %s)" % (a.cls("", "").replace(", , ", "").replace(", ", ",") if a.safe else cpp(a.ty), OPC[op],
                                          b.cls("", "").replace(", , ", "").replace(", ", ",") if b.safe else cpp(b.ty), P.split("<")[0], {"s": "strict", "l": "loose", "i": "ignore", "t": "throw"}.get(e, e)), **kw)


def arith(op, a, b):
    """exact or throws; throws only if the result or an operand does not fit the result type"""
    def posts(e):
        x, y = e.A
        lo, hi = e.rlim()
        r = exact(op, x, y)
        c = e.code
        inr = lambda v: between(lo, v, hi)
        ops = land(inr(x), inr(y))
        dlo, dhi = e.declared()
        if op in ("add", "sub", "mul"):
            dom = TRUE
        elif op in ("div", "mod"):
            dom = lnot(t.ieq(y, 0))
        ok = land(ops, dom, imp(dom, inr(r)))
        above = lor(t.igt(x, hi), t.igt(y, hi), land(ops, dom, t.igt(r, hi)))
        below = lor(t.ilt(x, lo), t.ilt(y, lo), land(ops, dom, t.ilt(r, lo)))
        L = [("returns normally only with the exact result", imp(e.normal, land(dom, t.ieq(e.res(), r)))),
             ("throws only if the result or an operand is not representable", imp(e.threw, lnot(ok))),
             ("positive overflow means above the maximum", imp(land(e.threw, t.ieq(c, POS)), above)),
             ("negative overflow means below the minimum", imp(land(e.threw, t.ieq(c, NEG)), below))]
        if op in ("div", "mod"):
            L.append(("a zero divisor is a domain error", imp(land(ops, lnot(dom)), land(e.threw, t.ieq(c, DOM)))))
        L.append(("the code is an arithmetic one", imp(e.threw, lor(t.ieq(c, POS), t.ieq(c, NEG), t.ieq(c, DOM)))))
        L.append(("domain error only for a negative operand or zero divisor",
                  imp(land(e.threw, t.ieq(c, DOM)), lor(t.ilt(x, lo), t.ilt(y, lo), lnot(dom)))))
        L.append(("the result lies in the declared range", imp(e.normal, between(dlo, e.res(), dhi))))
        return L
    return posts


def unary(op, a, p="n", e="s", posts=None):
    nm = "%s_%s_%s%s" % ({"-": "neg", "+": "pos", "~": "not"}[op], a.tag(), p, e)
    P, X = POL[p], EXC[e]
    code = "typedef %s A_%s;\n" % (a.cls(P, X), nm)
    code += "META(%s, std::decay<decltype(%s std::declval<A_%s const &>())>::type)\n" % (nm, op, nm)
    code += ('extern "C" void H_%s(%s t, u64 * out){ %s out[0] = hv::ov(%s a); }\n' % (nm, cpp(a.ty), a.decl("A_" + nm, "a", "t"), op))
    return Case(nm, code, [a.arg()], posts(op, a), fn="unary %s on %s (%s)" % (op, a.tag(), P))


# ---- families of operand pairs
W8 = ["sc", "uc", "s", "us", "i", "u", "ll", "ull"]


# ranges of every shape: negative, up to zero, mixed, from zero, positive, single values, the ends of the types
GRID = [rg("sc", -100, 0), rg("sc", -7, -3), rg("uc", 0, 9), rg("uc", 200, 255), rg("s", -300, 5), rg("us", 0, 32),
        rg("i", -(1 << 31), 0), rg("i", -5, (1 << 31) - 1), rg("i", 0, (1 << 31) - 1), rg("i", -(1 << 31), -1),
        rg("u", 0, (1 << 31) - 1), rg("u", 1 << 31, (1 << 32) - 1), rg("u", 1, 31), rg("ll", -(1 << 63), 0),
        rg("ll", -1, (1 << 63) - 1), rg("ll", -(1 << 40), 1 << 35), rg("ull", 0, (1 << 63) - 1), rg("ull", 1 << 63, (1 << 64) - 1),
        rg("ull", 1, 63), rg("s", 0, 0), rg("ll", 1, 1), rg("i", -1, -1), rg("i", 7, 7), rg("l", 10, 1 << 33)]


def grid(tier, share=1, phase=0):
    """(a, b, promotion, exception): pairs of GRID; the quick tier takes 1/share of them, with one policy each"""
    for i, a in enumerate(GRID):
        for j, b in enumerate(GRID):
            for k, p in enumerate("na"):
                e = "sl"[(i + j // 2) % 2]
                if tier == "quick" and ((i + j + k) % 2 or (i * 7 + j // 2 + phase) % share):
                    continue
                yield a, b, p, e


def odd(tier, phase=0, more=True):
    """pairs with an enumeration or a bool as the other operand"""
    S = [sf("i"), sf("sc"), sf("u"), sf("ull"), sf("us"), sf("ll"), rs(-100, 100), ru(1, 31), rg("i", 7, 7)]
    for i, b in enumerate(ENUMS + (PROMOTED if more else []) + [bi("b")]):
        for j, a in enumerate(S):
            for k, p in enumerate("nad"):
                if p == "d" and b.ty == "b" or tier == "quick" and (i + j * 2 + k + phase) % 3:
                    continue
                yield (a, b, p, "sl"[(i + j) % 2]) if (i + j // 2) % 3 else (b, a, p, "sl"[(i + j) % 2])


def extra(tier, share=1, phase=0, pols="cdz"):
    """pairs of whole types and ranges under the promotion policies of other targets (cpp<...>)"""
    P = [sf(k) for k in W8] + GRID
    n = 0
    for i, a in enumerate(P):
        for j, b in enumerate(P + [bi(k) for k in W8]):
            for k, p in enumerate(pols):
                n += 1
                if (i + j * 2 + k + phase) % len(pols) if tier != "quick" else (i * 5 + j * 7 + k * 3 + n // 97 + phase) % (len(pols) * share):
                    continue
                yield (a, b, p, "sl"[(i + j) % 2]) if (i + j + phase) % 2 or not b.safe else (b, a, p, "sl"[(i + j) % 2])
