"""C17 comparisons of safe values"""
from safeops import *
from c16 import usual, emulated

REL = {"lt": lambda x, y: t.ilt(x, y), "gt": lambda x, y: t.igt(x, y), "le": lambda x, y: t.ile(x, y),
       "ge": lambda x, y: t.ile(y, x), "eq": lambda x, y: t.ieq(x, y), "ne": lambda x, y: lnot(t.ieq(x, y))}


def lim(n, s):
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if s else (0, (1 << n) - 1)


def cmpspec(p):
    def f(op, a, b):
        if p != "a":
            lo, hi = lim(*(usual(None, a.ty, b.ty) if p == "n" else emulated(p, a.ty, b.ty)))
            never = a.lo >= lo and b.lo >= lo
        else:
            # automatic compares in the widest unsigned type if both types are unsigned, else in the widest signed one
            lo, hi = (min(a.lo, b.lo), max(a.hi, b.hi))
            never = not (signed(a.ty) or signed(b.ty)) or (lo >= -(1 << 63) and hi < 1 << 63)
            # the policy compares mixed signs in the widest signed type
            if not never:
                lo, hi = lim(64, True)

        def posts(e):
            x, y = e.A
            L = [("returns normally only with the truth", imp(e.normal, t.iff(lnot(t.eq(e.out[0], t.bv(0, 64))), REL[op](x, y)))),
                 ("the answer is 0 or 1", imp(e.normal, lor(t.eq(e.out[0], t.bv(0, 64)), t.eq(e.out[0], t.bv(1, 64)))))]
            if never:
                L.append(("never throws", e.normal))
            else:
                L.append(("throws only for an operand outside the comparison type",
                          imp(e.threw, lor(lnot(between(lo, x, hi)), lnot(between(lo, y, hi))))))
            return L
        return posts
    return f


RANGES = [
    (rs(-100, 100), rs(-100, 100)), (rs(0, 100), rs(-10, 200)), (ru(0, 10), ru(5, 300)), (ru(0, 10), ru(11, 300)), (ru(0, 10), ru(10, 300)),
    (rs(-(1 << 31), 1 << 40), rs(-1, 1)), (ru(1, (1 << 63)), ru(0, 2)), (rs(-5, -2), rs(-9, 4)), (rs(-5, -2), ru(3, 40)), (rs(-5, 3), ru(3, 40)),
    (ru(1 << 31, 1 << 32), rs(-3, 3)), (rs(-(1 << 63), -1), rs(0, 5)), (ru(0, (1 << 64) - 2), ru(0, 1)), (rs(-5, -2), rs(-2, -1)),
    (rg("i", 0, 1 << 20), rg("u", 0, 2047)), (rg("sc", -3, 3), rg("ull", 2, 9)), (rg("u", 10, 20), rg("u", 0, 10)), (rg("i", 7, 7), rg("i", 7, 7)),
    (rg("ull", 1 << 63, (1 << 64) - 1), rg("ll", -7, 5)), (rg("ull", 0, (1 << 64) - 1), rg("ll", -7, -5)), (sf("ull"), ru(3, 9)), (rg("i", -5, 5), rg("u", 1 << 31, (1 << 32) - 1)),
    (rg("i", 1, 5), rg("u", 1 << 31, (1 << 32) - 1)),
]
MIX = [(rs(-100, 100), bi("i")), (bi("ull"), rs(-5, 5)), (ru(0, 1000), bi("us")), (sf("i"), rs(-1, 1)), (ru(0, 7), sf("ull")),
       (sf("i"), ru(0, 15)), (bi("i"), ru(0, 255)), (bi("ll"), rs(0, 100)), (sf("u"), rs(-3, -1)), (rs(200, 300), bi("uc")), (ru(300, 400), bi("sc"))]


def job(tier):
    cs = []
    OPS = ("lt", "gt", "le", "ge", "eq", "ne")
    for oi, op in enumerate(OPS):
        for i, A in enumerate(W8):
            for j, B in enumerate(W8):
                for p in "na":
                    v = [(sf(A), sf(B)), (sf(A), bi(B)), (bi(A), sf(B))]
                    for k, (a, b) in enumerate(v):
                        cs.append(binop(op, a, b, p, "s", cmpspec(p)))
        for A in ("c", "l", "ul", "w", "c2", "c4"):
            for p in "na":
                cs.append(binop(op, sf(A), sf("i"), p, "s", cmpspec(p)))
                cs.append(binop(op, bi("u"), sf(A), p, "l", cmpspec(p)))
        for a, b, p, e in odd(tier, oi, False):
            cs.append(binop(op, a, b, p, e, cmpspec(p)))
        for a, b, p, e in grid(tier, 2, oi):
            cs.append(binop(op, a, b, p, e, cmpspec(p)))
        for a, b, p, e in extra(tier, 8, oi):
            cs.append(binop(op, a, b, p, e, cmpspec(p)))
        for a, b in RANGES:
            for p in "na":
                cs.append(binop(op, a, b, p, "s", cmpspec(p)))
                cs.append(binop(op, b, a, p, "l", cmpspec(p)))
        for a, b in MIX:
            for p in "na":
                cs.append(binop(op, a, b, p, "s", cmpspec(p)))
    return Job("C17", cs, chunk=40, contracts=True)
