"""C16 safe | & ^ ~"""
from safeops import *


def usual(P, A, B):
    """result base type of the built-in operator on A and B: (bits, signed)"""
    pr = lambda k: (32, True) if bits(k) < 32 else (bits(k), signed(k))
    (n, s), (m, u) = pr(A), pr(B)
    if n == m:
        return (n, s and u)
    return (n, s) if n > m else (m, u)


SIZES = {"c": (8, 16, 32, 64, 64), "d": (8, 16, 16, 32, 64), "z": (8, 16, 16, 16, 32)}


def emulated(pol, A, B):
    """(width, signedness) on a machine with the policy's sizes; promotion to at least the width of int"""
    w = SIZES[pol][2]
    pr = lambda k: (max(w, bits(k)), signed(k))
    (n, s), (m, u) = pr(A), pr(B)
    if n == m:
        return (n, s and u)
    return (n, s) if n > m else (m, u)


def conv(a, sg, n):
    if a.sort >= n:
        return t.extract(a, n - 1, 0) if a.sort > n else a
    return t.sext(a, n) if sg else t.zext(a, n)


def bit(op, a, b, rtype=lambda A, B: usual(None, A, B)):
    f = {"or": t.bor, "and": t.band, "xor": t.bxor}[op]

    def posts(e):
        n, sg = e.meta[0], bool(e.meta[1])
        x, y = conv(e.a[0], signed(a.ty), n), conv(e.a[1], signed(b.ty), n)
        r = f(x, y)
        want = t.bval(r, sg)
        L = [("returns normally", e.normal), ("the value of the built-in operator on the result type", t.ieq(e.res(), want))]
        L.append(("the result type is that of the built-in operator",
                  t.boolc((n, sg) == rtype(a.ty, b.ty))))
        L.append(("the result lies in the declared range", imp(e.normal, between(e.declared()[0], e.res(), e.declared()[1]))))
        return L
    return posts


def complement(op, a):
    def posts(e):
        n, sg = e.meta[0], bool(e.meta[1])
        x = conv(e.a[0], signed(a.ty), n)
        want = t.bval(t.bxor(x, t.bv(-1, n)), sg)
        return [("returns normally", e.normal), ("the value of the built-in operator on the promoted operand", t.ieq(e.res(), want)),
                ("the result type is that of the built-in operator", t.boolc((n, sg) == usual(None, a.ty, a.ty))),
                ("the result lies in the declared range", imp(e.normal, between(e.declared()[0], e.res(), e.declared()[1])))]
    return posts


RANGES = [
    (rs(-100, 100), rs(-100, 100)), (rs(0, 100), rs(-10, 200)), (ru(0, 10), ru(5, 300)), (ru(3, 60000), ru(0, 60000)),
    (rs(-(1 << 31), 1 << 40), rs(-1, 1)), (ru(1, (1 << 63)), ru(0, 2)), (rs(-5, -2), rs(-9, 4)), (rs(-5, -2), ru(3, 40)),
    (ru(1 << 31, 1 << 32), rs(-3, 3)), (rs(-(1 << 63), -1), rs(0, 5)), (ru(0, (1 << 64) - 2), ru(0, 1)), (rs(-5, -2), rs(-9, -4)),
    (rg("i", 0, 1 << 20), rg("u", 0, 2047)), (rg("sc", -3, 3), rg("ull", 2, 9)), (rg("u", 10, 20), rg("u", 0, 10)),
    (rs(0, 8), rs(0, 7)), (rs(0, 8), rs(0, 8)), (rg("i", -5, 5), rg("u", 0, 10)),
]
MIX = [(rs(-100, 100), bi("i")), (bi("ull"), rs(-5, 5)), (ru(0, 1000), bi("us")), (sf("i"), rs(-1, 1)), (ru(0, 7), sf("ull")),
       (sf("i"), ru(0, 15)), (bi("i"), ru(0, 255)), (bi("ll"), rs(0, 100)), (sf("u"), rs(-3, -1))]


def cases(tier, posts):
    cs = []
    for op in ("or", "and", "xor"):
        for i, A in enumerate(W8):
            for j, B in enumerate(W8):
                for p in "na":
                    v = [(sf(A), sf(B)), (sf(A), bi(B)), (bi(A), sf(B))]
                    for k, (a, b) in enumerate(v):
                        cs.append(binop(op, a, b, p, "s", posts))
        for A in ("c", "l", "ul", "w", "c2", "c4"):
            for p in "na":
                cs.append(binop(op, sf(A), sf("i"), p, "s", posts))
                cs.append(binop(op, bi("u"), sf(A), p, "l", posts))
        for a, b, p, e in odd(tier, ord(op[0])):
            if p == "d" and any(isinstance(x, En) and bits(x.ty) < 32 for x in (a, b)):
                continue        # promotes to the int of the compiler, not the policy's
            cs.append(binop(op, a, b, p, e, lambda o, a, b, p=p: posts(o, a, b, lambda A, B: emulated(p, A, B) if p == "d" else usual(p, A, B))))
        for a, b, p, e in grid(tier):
            cs.append(binop(op, a, b, p, e, posts))
        for a, b, p, e in extra(tier, 4, ord(op[0])):
            cs.append(binop(op, a, b, p, e, lambda o, a, b, p=p: posts(o, a, b, lambda A, B: emulated(p, A, B))))
        for a, b in RANGES:
            for p in "na":
                cs.append(binop(op, a, b, p, "s", posts))
                cs.append(binop(op, b, a, p, "l", posts))
        for a, b in MIX:
            for p in "na":
                cs.append(binop(op, a, b, p, "s", posts))
    for a in [sf(k) for k in ALL + CHARS] + GRID:
        for k, p in enumerate("na"):
            cs.append(unary("~", a, p, "sl"[(len(cs) + k) % 2], lambda o, a: complement(o, a)))
    return cs


def job(tier):
    return Job("C16", cases(tier, bit), chunk=40, contracts=True)
