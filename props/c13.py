"""C13 safe +, -, *, unary minus"""
from safeops import *

RANGES = [
    (rs(-100, 100), rs(-100, 100)), (rs(0, 100), rs(-10, 200)), (ru(0, 10), ru(5, 300)), (ru(3, 60000), ru(0, 60000)),
    (rs(-(1 << 31), 1 << 40), rs(-1, 1)), (ru(1, (1 << 63)), ru(0, 2)), (rs(-5, -2), rs(-9, 4)), (rs(-5, -2), ru(3, 40)),
    (ru(1 << 31, 1 << 32), rs(-3, 3)), (rs(-(1 << 63), -1), rs(0, 5)), (ru(0, (1 << 64) - 2), ru(0, 1)),
    (rg("i", -1000, 46340), rg("i", 0, 46340)), (rg("i", 0, 1 << 20), rg("u", 0, 2047)), (rg("ll", 0, 1 << 32), rg("ll", 0, (1 << 31) - 1)),
    (rg("sc", -3, 3), rg("ull", 2, 9)), (rg("ull", 0, 1 << 40), rg("ll", -7, 1 << 20)), (rg("u", 10, 20), rg("u", 0, 10)),
]


def neg(op, a):
    def posts(e):
        x = e.A[0]
        lo, hi = e.rlim()
        r = t.ineg(x) if op == "-" else x
        ok = between(lo, r, hi)
        # unary minus is 0 - x: x must be representable in the type of that subtraction
        return [("returns normally only with the exact result", imp(e.normal, t.ieq(e.res(), r))),
                ("throws only if the result or the operand is not representable", imp(e.threw, lnot(land(ok, between(lo, x, hi))))),
                ("positive overflow means above the maximum", imp(land(e.threw, t.ieq(e.code, POS)), lor(t.igt(r, hi), t.igt(x, hi)))),
                ("negative overflow means below the minimum", imp(land(e.threw, t.ieq(e.code, NEG)), t.ilt(r, lo))),
                ("the code is an overflow", imp(e.threw, lor(t.ieq(e.code, POS), t.ieq(e.code, NEG)))),
                ("the result lies in the declared range", imp(e.normal, between(e.declared()[0], e.res(), e.declared()[1])))]
    return posts


def job(tier):
    cs = []
    for op in ("add", "sub", "mul"):
        for i, A in enumerate(W8):
            for j, B in enumerate(W8):
                for p in "na":
                    v = [(sf(A), sf(B)), (sf(A), bi(B)), (bi(A), sf(B))]
                    for k, (a, b) in enumerate(v):
                        cs.append(binop(op, a, b, p, "s", arith))
        for A in ("c", "l", "ul", "w", "c2", "c4"):
            for p in "na":
                cs.append(binop(op, sf(A), sf("i"), p, "s", arith))
                cs.append(binop(op, bi("u"), sf(A), p, "l", arith))
        for a, b, p, e in odd(tier, len(op)):
            cs.append(binop(op, a, b, p, e, arith))
        for a, b, p, e in grid(tier):
            cs.append(binop(op, a, b, p, e, arith))
        for a, b, p, e in extra(tier, 4, len(op)):
            cs.append(binop(op, a, b, p, e, arith))
        for a, b in RANGES:
            for p in "na":
                cs.append(binop(op, a, b, p, "s", arith))
                cs.append(binop(op, b, a, p, "l", arith))
                if tier != "quick":
                    cs.append(binop(op, a, b, p, "l", arith))
        for a, b in [(rs(-100, 100), bi("i")), (bi("ull"), rs(-5, 5)), (ru(0, 1000), bi("us")), (sf("i"), rs(-1, 1)), (ru(0, 7), sf("ull"))]:
            for p in "na":
                cs.append(binop(op, a, b, p, "s", arith))
    for A in ALL + CHARS:
        for p in "na":
            cs.append(unary("-", sf(A), p, "s", neg))
            cs.append(unary("+", sf(A), p, "s", neg))
    for k, a in enumerate(GRID):
        for p in "na":
            cs.append(unary("-", a, p, "sl"[k % 2], neg))
            cs.append(unary("+", a, p, "sl"[k % 2], neg))
    for a in (rs(-100, 100), ru(1, 10), rs(-128, 5), ru(0, 1 << 40), rs(-(1 << 63), 0), ru(1 << 40, 1 << 63)):
        for p in "na":
            cs.append(unary("-", a, p, "s", neg))
            cs.append(unary("+", a, p, "s", neg))
    return Job("C13", cs, chunk=40, contracts=True)
