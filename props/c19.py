"""C19 promotion policies give the documented result types"""
from safeops import *
import c13, c14, c15, c16
from c16 import emulated

TID = {"c": 1, "sc": 2, "uc": 3, "s": 4, "us": 5, "i": 6, "u": 7, "l": 8, "ul": 9, "ll": 10, "ull": 11}
RANK = {"i": 0, "u": 0, "l": 1, "ul": 1, "ll": 2, "ull": 2}
UNS = {"i": "u", "l": "ul", "ll": "ull"}
OPS = ("add", "sub", "mul", "div", "mod", "shl", "shr", "or", "and", "xor")


def builtin(op, A, B):
    """type of the built-in operator ([expr.arith.conv], [conv.prom], [expr.shift])"""
    pr = lambda k: "i" if bits(k) < 32 else k
    a, b = pr(A), pr(B)
    if op in ("shl", "shr") or a == b:
        return a
    if signed(a) == signed(b):
        return a if RANK[a] >= RANK[b] else b
    s, u = (a, b) if signed(a) else (b, a)
    if RANK[u] >= RANK[s]:
        return u
    return s if bits(s) > bits(u) else UNS[s]


def native(op, a, b):
    def posts(e):
        return [("the base type of the result is that of the built-in operator", t.boolc(e.meta[4] == TID[builtin(op, a.ty, b.ty)]))]
    return posts


def emul(pol):
    def f(op, a, b):
        def posts(e):
            return [("the base type of the result is that of the emulated machine",
                     t.boolc((e.meta[0], bool(e.meta[1])) == emulated(pol, a.ty, b.ty)))]
        return posts
    return f


def tdiv(x, y):
    q = abs(x) // abs(y)
    return q if (x < 0) == (y < 0) else -q


def exact_range(op, a, b):
    """hull of the exact results, None if there are none"""
    if op in ("add", "sub", "mul"):
        f = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y}[op]
        v = [f(x, y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
    elif op == "div":
        ys = [y for y in (b.lo, b.hi, -1, 1) if b.lo <= y <= b.hi and y]
        v = [tdiv(x, y) for x in (a.lo, a.hi) for y in ys]
    elif op == "mod":
        m = max(abs(b.lo), abs(b.hi)) - 1
        if m < 0:
            return None
        v = [max(-m, min(0, a.lo)), min(m, max(0, a.hi))]
        if 0 <= a.lo and a.hi < (0 if b.lo <= 0 <= b.hi else min(abs(b.lo), abs(b.hi))):
            v = [a.lo, a.hi]
    else:
        klo, khi = max(0, b.lo), min(63, b.hi)
        if klo > khi:
            return None
        if op == "shr" and a.hi < 0:
            return None
        f = (lambda x, k: x << k) if op == "shl" else (lambda x, k: x >> k)
        v = [f(x, k) for x in (a.lo if op == "shl" else max(0, a.lo), a.hi) for k in (klo, khi)]
    return (min(v), max(v)) if v else None


def fits_widest(op, a, b):
    """the operands and the exact results fit the widest type of the result's signedness"""
    sa, sb = signed(a.ty), signed(b.ty)
    sg = sa if op in ("shl", "shr") else True if op == "sub" else sa or sb
    T = "ll" if sg else "ull"
    inr = lambda lo, hi: tmin(T) <= lo and hi <= tmax(T)
    r = exact_range(op, a, b)
    if r is None or not inr(*r) or not inr(a.lo, a.hi):
        return None
    if op not in ("shl", "shr") and not inr(b.lo, b.hi):
        return None
    return r


def auto(op, a, b):
    r = fits_widest(op, a, b)

    def posts(e):
        x, y = e.A
        w = e.meta[0]
        dlo, dhi = e.declared()
        bl, bh = e.rlim()
        if op in ("div", "mod"):
            bad = t.ieq(y, 0)
        elif op in ("shl", "shr"):
            bad = lor(t.ilt(y, 0), t.ile(w, y), t.ilt(x, 0), land(t.ieq(x, 0), t.ile(w - 1, y)))
        else:
            bad = FALSE
        return [("the result type and its declared range hold every exact result",
                 t.boolc(bl <= dlo <= r[0] and r[1] <= dhi <= bh)),
                ("never throws except for a zero divisor or an invalid shift", imp(e.threw, bad))]
    return posts


def job(tier):
    cs = []
    for op in OPS:
        for i, A in enumerate(ALL):
            for j, B in enumerate(ALL):
                v = [(sf(A), sf(B)), (sf(A), bi(B)), (bi(A), sf(B))]
                for k, (a, b) in enumerate(v):
                    if tier == "quick" and k != (i + j + len(op)) % 3:
                        continue
                    cs.append(binop(op, a, b, "n", "s", native))
                    if (i + j + k) % 2 == 0 or tier != "quick":
                        cs.append(binop(op, a, b, "c", "s", emul("c")))
                    if A in W8 and B in W8 and ((i + 2 * j + k) % 3 == 0 or tier != "quick"):
                        for p in "dz":
                            cs.append(binop(op, a, b, p, "s", emul(p)))
        R = {"add": c13, "sub": c13, "mul": c13, "div": c14, "mod": c14, "shl": c15, "shr": c15}.get(op, c16).RANGES
        for a, b in R:
            cs.append(binop(op, a, b, "n", "s", native))
            cs.append(binop(op, a, b, "c", "s", emul("c")))
        for a, b, p, e in odd("thorough", len(op), False):
            if isinstance(a, En) and op in ("shl", "shr"):
                continue
            if p == "n":
                cs.append(binop(op, a, b, "n", "s", native))
            elif p == "a" and op in ("add", "sub", "mul", "div", "mod") and fits_widest(op, a, b):
                cs.append(binop(op, a, b, "a", "s", auto))
        for a, b, p, e in grid(tier, 5, len(op)):
            if p == "n":
                cs.append(binop(op, a, b, "n", "s" if op[0:2] == "sh" else e, native))
            elif op not in ("or", "and", "xor") and fits_widest(op, a, b):
                cs.append(binop(op, a, b, "a", "s" if op[0:2] == "sh" else e, auto))
        for a, b, p, e in extra(tier, 16, len(op)):
            cs.append(binop(op, a, b, p, "s" if op[0:2] == "sh" else e, emul(p)))
        if op in ("or", "and", "xor"):
            continue
        pairs = [(sf(A), sf(B)) for A in W8 for B in W8] + [(sf(A), bi(B)) for A in W8 for B in W8]
        pairs += [(bi(A), rs(-3, 100)) for A in W8] + [(ru(0, 3), sf(A)) for A in W8] + [(rs(1, 9), sf(A)) for A in W8]
        for a, b in R:
            pairs.append((a, b))
            if a.safe:
                pairs.append((b, a))
        for a, b in pairs:
            if fits_widest(op, a, b):
                cs.append(binop(op, a, b, "a", "st"[len(cs) % 2], auto))
    return Job("C19", cs, chunk=60, contracts=True)
