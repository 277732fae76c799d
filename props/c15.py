"""C15 safe << and >>"""
from safeops import *


def shift(op, a, b):
    def posts(e):
        x, k = e.A
        lo, hi = e.rlim()
        w = e.meta[0]
        dlo, dhi = e.declared()
        c = e.code
        inr = lambda v: between(lo, v, hi)
        ops = land(inr(x), inr(k))
        inw = land(t.ile(0, k), t.ilt(k, w))
        r = exact(op, x, k)
        bad = lnot(inw) if op == "shl" else lor(lnot(inw), t.ilt(x, 0))
        good = land(t.igt(x, 0), ops, inw, inr(r))
        iss = lor(*[t.ieq(c, s) for s in SHIFT])
        return [("returns normally only with the exact result", imp(e.normal, land(ops, inw, t.ieq(e.res(), r)))),
                ("an invalid shift throws", imp(bad, e.threw)),
                ("a valid shift of a positive value does not throw", imp(good, e.normal)),
                ("a shift error if the operands are representable", imp(land(e.threw, ops), iss)),
                ("otherwise a shift error or a conversion error", imp(e.threw, lor(iss, t.ieq(c, POS), t.ieq(c, NEG), t.ieq(c, DOM)))),
                ("the result lies in the declared range", imp(e.normal, between(dlo, e.res(), dhi)))]
    return posts


RANGES = [
    (rs(0, 100), rs(0, 3)), (rs(0, 100), ru(0, 3)), (ru(0, 100), rs(0, 3)), (rs(0, 0), rs(0, 100)), (rs(0, 0), rs(-3, 3)), (rs(-1, 1), rs(0, 3)),
    (rs(0, 1), rs(0, 200)), (rs(0, 100), rs(-3, 3)), (rs(1, 100), rs(-3, -1)), (rs(-100, 100), rs(-2, 5)), (rs(-100, -1), rs(0, 3)),
    (ru(0, 10), ru(5, 30)), (ru(3, 60000), ru(0, 60)), (rs(-(1 << 31), 1 << 40), rs(-1, 1)), (ru(1, (1 << 63)), ru(1, 2)),
    (ru(0, 1), ru(31, 33)), (ru(0, 1), ru(63, 64)), (ru(1, 1), ru(0, 63)), (rs(1, 1), rs(0, 62)), (rs(1, 1), rs(0, 63)),
    (rs(0, 127), ru(7, 8)), (rg("i", 0, 3), rg("i", 0, 29)), (rg("i", 0, 3), rg("i", 0, 30)), (rg("i", 1000, 2000), rg("i", 0, 31)),
    (rg("i", 1000, 2000), rg("i", 0, 32)), (rg("i", 0, 2000), rg("i", -1, 5)), (rg("ll", 5, 1 << 50), rg("sc", 0, 63)), (rg("u", 0, 1 << 20), rg("i", 3, 31)),
    (rg("i", -8, 8), rg("i", 0, 5)), (rg("ull", 0, (1 << 64) - 1), rg("uc", 0, 64)), (ru(0, 0), ru(0, 64)), (ru(5, 9), ru(64, 200)), (sf("i"), rg("ull", 0, 1 << 40)),
    (rg("i", 5, 9), rg("ull", 0, 1 << 40)),
]


def job(tier):
    cs = []
    for op in ("shl", "shr"):
        for i, A in enumerate(W8):
            for j, B in enumerate(W8):
                for p in "na":
                    v = [(sf(A), sf(B)), (sf(A), bi(B)), (bi(A), sf(B))]
                    for k, (a, b) in enumerate(v):
                        cs.append(binop(op, a, b, p, "s", shift))
        for A in ("c", "l", "ul", "w", "c2", "c4"):
            for p in "na":
                cs.append(binop(op, sf(A), sf("i"), p, "s", shift))
                cs.append(binop(op, bi("u"), sf(A), p, "t", shift))
        for a, b, p, e in odd(tier, ord(op[2])):
            if not isinstance(a, En):      # << of an enumeration is not an operator of the library
                cs.append(binop(op, a, b, p, 'st'[e == 'l'], shift))
        for a, b, p, e in grid(tier):
            cs.append(binop(op, a, b, p, 'st'[e == 'l'], shift))
        for a, b, p, e in extra(tier, 4, ord(op[2])):
            cs.append(binop(op, a, b, p, 'st'[e == 'l'], shift))
        for a, b in RANGES:
            for p in "na":
                cs.append(binop(op, a, b, p, "s", shift))
                cs.append(binop(op, b, a, p, "t", shift))
        for a, b in [(rs(-100, 100), bi("i")), (bi("ull"), rs(-5, 5)), (ru(0, 1000), bi("us")), (sf("i"), rs(-1, 1)), (ru(0, 7), sf("ull")),
                     (bi("ll"), ru(2, 7)), (bi("i"), rs(-7, -1)), (bi("i"), rs(0, 7)), (bi("uc"), rs(0, 32)), (bi("sc"), rs(0, 32)), (sf("us"), rs(0, 31))]:
            for p in "na":
                cs.append(binop(op, a, b, p, "s", shift))
    return Job("C15", cs, chunk=20, contracts=True)
