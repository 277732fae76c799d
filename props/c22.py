"""C22 safe literals"""
from safeops import *
import c12, c13, c14, c15, c16, c17, c18, c19
from c12 import overlap

SGN = [0, 1, -1, 2, 5, 7, -7, 31, 42, 63, 100, 127, -127, -128, 128, -129, 200, 255, 256, 1000, 32767, -32768, 32768, 40000, -40000,
       65535, 65536, 99999, (1 << 31) - 1, -(1 << 31) + 1, -(1 << 31), 1 << 31, (1 << 32) - 1, 1 << 32, -(1 << 40) - 3, 1 << 47, (1 << 63) - 1, -(1 << 63) + 1]
UNS = [0, 1, 3, 8, 100, 127, 128, 200, 255, 256, 32767, 32768, 65535, 65536, 99999, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 50) + 7,
       (1 << 63) - 1, 1 << 63, (1 << 64) - 1]
ARITH = {"add": arith, "sub": arith, "mul": arith, "div": arith, "mod": arith, "shl": c15.shift, "shr": c15.shift,
         "or": c16.bit, "and": c16.bit, "xor": c16.bit}
CMP = ("lt", "gt", "le", "ge", "eq", "ne")


def fits(n, k):
    return tmin(k) <= n <= tmax(k)


def itself(L):
    """the literal: its value, its limits, its type"""
    nm = "lit_" + L.tag()
    code = "typedef %s A_%s;\nMETA(%s, A_%s)\n" % (L.cls("native", "strict_exception_policy"), nm, nm, nm)
    code += ('extern "C" void H_%s(u64 * out){ A_%s a; out[0] = hv::ov(a); out[1] = hv::ov(std::numeric_limits<A_%s>::min()); '
             'out[2] = hv::ov(std::numeric_limits<A_%s>::max()); out[3] = hv::ov(std::numeric_limits<A_%s>::lowest()); out[4] = hv::ov(+a); out[5] = is_safe<A_%s>::value; }\n' % (nm, nm, nm, nm, nm, nm))

    def posts(e):
        sg = bool(e.meta[1])
        lo, hi = e.declared()
        return [("denotes exactly N", land(e.normal, t.ieq(e.o(0, sg), L.n))),
                ("its range holds only N", t.boolc(lo == L.n == hi)),
                ("so do the limits at run time", land(t.ieq(e.o(1, sg), L.n), t.ieq(e.o(2, sg), L.n), t.ieq(e.o(3, sg), L.n))),
                ("unary plus is the literal", t.ieq(e.o(4, sg), L.n)),
                ("the stored type can hold it", t.boolc(e.rlim()[0] <= L.n <= e.rlim()[1])),
                ("is a safe type", t.ieq(e.o(5), 1))]
    return Case(nm, code, [], posts, nout=6, fn="literal %s" % L.tag())


def un(op, L, p="n"):
    r = -L.n if op == "-" else ~L.n
    c = unary(op, L, p, "s", lambda op, a: lambda e: [
        ("the exact result", land(e.normal, t.ieq(e.res(), r))),
        ("its range holds only the result", t.boolc(e.declared()[0] == r == e.declared()[1]))])
    return c


def job(tier):
    cs = []
    Q = tier == "quick"
    LS = [Lit(n) for n in SGN] + [Lit(n, u=True) for n in UNS]
    LM = [Lit(n, make=lit(n, k)[1:-1] if signed(k) else "%dU" % n, u=not signed(k)) for n, k in
          [(5, "ll"), (-5, "ll"), (1000, "ll"), (-(1 << 40), "ll"), (7, "u"), (60000, "u"), ((1 << 32) - 1, "u")]]
    for L in LS + LM + [Lit(n, True) for n in (3, -200)]:
        cs.append(itself(L))
        cs.append(un("-", L)) if not L.u and L.n != tmin(L.ty) or L.n == 0 else 0
        if not L.u:
            cs.append(un("~", L))
        for i, k in enumerate(ALL):
            if fits(L.n, k):
                if Q and (i + len(cs)) % 2:
                    continue
                for imp_ in (False, True):
                    cs.append(c12.convert(k, L, "n", "s", imp_))
    T = [sf(k) for k in ALL + CHARS] + c12.TARGETS
    for i, S in enumerate(T):
        for j, L in enumerate(LS):
            if not overlap(S.lo, S.hi, L) or Q and (i + j) % 3:
                continue
            p = "na"[(i + j) % 2]
            cs.append(c12.construct(S, L, p, "sl"[j % 2], j % 3))
            cs.append(c12.assign(S, L, p, "s"))
    small = [Lit(n) for n in (0, 1, -1, 5, -7, 31, 100, -128, 200, 40000, -40000, -(1 << 31), 1 << 40)] + \
            [Lit(n, u=True) for n in (0, 1, 8, 200, 65535, 1 << 31, (1 << 63) + 5)]
    for oi, op in enumerate(list(ARITH) + list(CMP)):
        for i, S in enumerate([sf(k) for k in W8] + c12.TARGETS[:9:2]):
            for j, L in enumerate(small):
                for pi, p in enumerate("na"):
                    if (op in ("div", "mod")) and L.n == 0 and 0:
                        continue
                    if Q and (i + 2 * j + oi + 3 * pi) % 5:
                        continue
                    f = ARITH.get(op) or c17.cmpspec(p)
                    a, b = (S, L) if (i + j + pi) % 3 else (L, S)
                    cs.append(binop(op, a, b, p, "s", f))
    # literals with policies of their own: with built-in operands and with each other
    for oi, op in enumerate(list(ARITH) + list(CMP)):
        for i, k in enumerate(W8):
            for j, n in enumerate((1, 5, -7, 100, -128, 40000)):
                if Q and (i + j + oi) % 4:
                    continue
                p = "na"[(i + j) % 2]
                f = ARITH.get(op) or c17.cmpspec(p)
                a, b = (bi(k), Lit(n, True)) if (i + j) % 2 else (Lit(n, True), bi(k))
                cs.append(binop(op, a, b, p, "s", f))
        for i, (x, y) in enumerate(((5, 7), (-7, 3), (100, 100), (1 << 31, 2), (-128, 1))):
            for p in "na":
                if Q and (i + oi) % 2:
                    continue
                f = ARITH.get(op) or c17.cmpspec(p)
                cs.append(binop(op, Lit(x, True), Lit(y, True, u=y > 0 and i % 2 == 1), p, "s", f))
    return Job("C22", cs, chunk=40, contracts=True)
