"""C14 safe / and %"""
from safeops import *

RANGES = [
    (rs(-100, 100), rs(-100, 100)), (rs(-100, 100), rs(1, 7)), (rs(0, 100), rs(-10, -2)), (ru(0, 10), ru(5, 300)),
    (ru(3, 60000), ru(0, 60000)), (rs(-(1 << 31), 1 << 40), rs(-1, 1)), (ru(1, (1 << 63)), ru(1, 2)), (rs(-5, -2), rs(-9, 4)),
    (rs(-5, -2), ru(3, 40)), (rs(-128, 127), rs(-1, -1)), (rs(-(1 << 31), -1), rs(-1, 0)), (rs(-(1 << 63), -1), rs(-3, 0)),
    (rs(-7, 7), rs(1, 10**12)), (bi("i"), rg("ll", 1, 10**12)), (sf("i"), rg("ll", 1, 10**12)), (sf("us"), ru(7, 1 << 40)),
    (rg("i", 0, 1 << 20), rg("u", 0, 2047)), (rg("u", 10, 1 << 31), rg("i", -7, 7)), (rg("sc", -3, 3), rg("ull", 2, 9)),
    (rg("ull", 0, 1 << 63), rg("ll", -7, 1 << 20)), (sf("ll"), rs(1, 100)), (sf("ull"), ru(3, 1 << 50)), (sf("sc"), rs(-1, -1)),
    (sf("i"), rs(-1, -1)), (sf("ll"), rs(-1, -1)), (rs(-100, -50), rs(-7, -3)), (rs(20, 30), rs(25, 26)), (rs(0, 5), rs(0, 5)),
    (rs(10, 20), rs(0, 3)), (rs(10, 20), rs(-3, 0)), (rs(-20, 20), rs(0, 3)), (rs(-20, -10), rs(-3, 0)),
]


def job(tier):
    cs = []
    for op in ("div", "mod"):
        for i, A in enumerate(W8):
            for j, B in enumerate(W8):
                for p in "na":
                    v = [(sf(A), sf(B)), (sf(A), bi(B)), (bi(A), sf(B))]
                    for k, (a, b) in enumerate(v):
                        cs.append(binop(op, a, b, p, "s", arith))
        for A in ("c", "l", "ul", "w", "c2", "c4"):
            for p in "na":
                cs.append(binop(op, sf(A), sf("i"), p, "s", arith))
                cs.append(binop(op, bi("u"), sf(A), p, "l", arith))
        for a, b, p, e in odd(tier, ord(op[0])):
            cs.append(binop(op, a, b, p, e, arith))
        for a, b, p, e in grid(tier):
            cs.append(binop(op, a, b, p, e, arith))
        for a, b, p, e in extra(tier, 4, ord(op[0])):
            cs.append(binop(op, a, b, p, e, arith))
        for a, b in RANGES:
            for p in "na":
                cs.append(binop(op, a, b, p, "s", arith))
                if a.safe:
                    cs.append(binop(op, b, a, p, "l", arith))
        for a, b in [(rs(-100, 100), bi("i")), (bi("ull"), rs(-5, 5)), (ru(0, 1000), bi("us")), (sf("i"), rs(-1, 1)), (ru(0, 7), sf("ull")),
                     (bi("ll"), ru(2, 7)), (bi("i"), rs(-7, -1))]:
            for p in "na":
                cs.append(binop(op, a, b, p, "s", arith))
    return Job("C14", cs, chunk=20, contracts=True)
