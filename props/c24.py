"""C24 with errors ignored the operators behave like the built-in ones"""
from safeops import *
import c12, c13, c14, c15, c16, c20
from c12 import TARGETS, overlap
from c16 import conv
from c18 import objcase
import c18

ORDER = {"lt": t.ilt, "gt": t.igt, "le": t.ile, "ge": lambda x, y: t.ile(y, x), "eq": t.ieq,
         "ne": lambda x, y: lnot(t.ieq(x, y))}


def builtin(e, op, a, b, ta, tb, n, sg):
    """value of the built-in operator after conversion of the operands to the result type (n bits, signed sg),
    and the condition under which it is defined; a, b bit patterns of the types ta, tb"""
    x, y = conv(a, signed(ta), n), conv(b, signed(tb), n)
    X, Y = t.bval(x, sg), t.bval(y, sg)
    lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, (1 << n) - 1)
    k = t.bval(b, signed(tb))
    if op in ("or", "and", "xor"):
        f = {"or": t.bor, "and": t.band, "xor": t.bxor}[op]
        return t.bval(f(x, y), sg), TRUE
    if op in ("add", "sub", "mul"):
        if sg:
            r = exact(op, X, Y)
            return r, between(lo, r, hi)
        return t.U({"add": t.add, "sub": t.sub, "mul": t.mul}[op](x, y)), TRUE
    if op in ("div", "mod"):
        dz = lnot(t.ieq(Y, 0))
        r = exact(op, X, Y)
        if sg:
            q = exact("div", X, Y)
            return r, land(dz, between(lo, q, hi))
        return r, dz
    inw = land(t.ile(0, k), t.ilt(k, n))
    if op == "shl":
        if sg:
            r = t.ishl(X, k)
            return r, land(inw, t.ile(0, X), between(lo, r, hi))
        return t.U(t.shl(x, y)), inw
    r = t.ishr(X, k)
    return r, inw


def rtype(e):
    return e.meta[0], bool(e.meta[1])


def spec(op, a, b):
    if op in ORDER:
        def cposts(e):
            from c19 import builtin as bt
            T = bt("add", a.ty, b.ty)
            n, sg = bits(T), signed(T)
            x, y = (t.bval(conv(v, signed(k.ty), n), sg) for v, k in ((e.a[0], a), (e.a[1], b)))
            answer = lambda x, y: t.ieq(e.o(0), ite(ORDER[op](x, y), t.ic(1), t.ic(0)))
            if a.hi < b.lo or b.hi < a.lo:      # the ranges decide: the mathematical truth will do as well
                return [("returns", e.normal), ("the built-in comparison or the truth", lor(answer(x, y), answer(e.A[0], e.A[1])))]
            return [("returns", e.normal), ("the built-in comparison", answer(x, y))]
        return cposts

    def posts(e):
        r, d = builtin(e, op, e.a[0], e.a[1], a.ty, b.ty, *rtype(e))
        return [("returns", e.normal), ("the value of the built-in operator on the result type", t.ieq(e.res(), r))]
    return posts


def defined(op, a, b, k=0):
    return lambda e: builtin(e, op, e.a[k], e.a[k + 1], a.ty, b.ty, *rtype(e))[1]


def op2(op, a, b, p, e="i"):
    c = binop(op, a, b, p, e, spec)
    if op not in ORDER:
        c.pre = defined(op, a, b)
    return c


def un(op, a, p="n"):
    T = {"n": a.ty if bits(a.ty) >= 32 else "i"}

    def posts(op, a):
        def f(e):
            n, sg = rtype(e)
            x = conv(e.a[0], signed(a.ty), n)
            r = {"-": t.sub(t.bv(0, n), x), "+": x, "~": t.bxor(x, t.bv(-1, n))}[op]
            return [("returns", e.normal), ("the value of the built-in operator", t.ieq(e.res(), t.bval(r, sg)))]
        return f
    c = unary(op, a, p, "i", posts)
    if op == "-":
        def pre(e):
            n, sg = rtype(e)
            return lnot(t.ieq(e.A[0], -(1 << (n - 1)))) if sg else TRUE
        c.pre = pre
    return c


def wrapto(v, ty):
    """the value of type ty congruent to the mathematical value of the bit pattern v"""
    return t.bval(conv(v[0], v[1], bits(ty)), signed(ty))


def convspec(ty, a, obj=False):
    def posts(e):
        r = wrapto((e.a[-1], signed(a.ty)), ty)
        L = [("returns", e.normal), ("the value the built-in conversion gives", t.ieq(t.bval(e.out[0], signed(ty)), r))]
        if obj:
            L.append(("the object holds it", t.ieq(e.after[0], r)))
        return L
    return posts


def incspec(S, form):
    d = 1 if "++" in form else -1

    def posts(e):
        n = bits(S.ty)
        r = t.bval(t.add(e.a[0], t.bv(d, n)), signed(S.ty))
        ret = r if form[0] != "x" else e.A[0]
        return [("returns", e.normal), ("wraps as the built-in operator", t.ieq(e.after[0], r)),
                ("returns the new respectively the old value", t.ieq(t.bval(e.out[0], signed(S.ty)), ret))]
    return posts


def incdec(S, form, p="n"):
    c = c18.incdec(S, form, p, "i", lambda S, f: incspec(S, f))
    if signed(S.ty) and bits(S.ty) >= 32:
        c.pre = lambda e: lnot(t.ieq(e.A[0], tmax(S.ty) if "++" in form else tmin(S.ty)))
    return c


def cmpd(op, S, b, p="n"):
    def posts(op, S, b):
        def f(e):
            n, sg = rtype(e)
            r, d = builtin(e, op, e.a[0], e.a[1], S.ty, b.ty, n, sg)
            # the result, converted back to the type of the object
            w = wrapto((t.i2b(r, n), sg), S.ty)
            return [("returns", e.normal), ("the object holds the converted value of the built-in operator", t.ieq(e.after[0], w)),
                    ("and it is returned", t.ieq(t.bval(e.out[0], signed(S.ty)), w))]
        return f
    c = c18.compound(op, S, b, p, "i", posts)
    c.pre = defined(op, S, b)
    return c


def autodiv(op, a, b):
    """automatic policy: division and modulus are done in a type that holds both operands"""
    c = binop(op, a, b, "a", "i", lambda op, a, b: lambda e: [
        ("returns", e.normal), ("the exact result", t.ieq(e.res(), exact(op, e.A[0], e.A[1])))])

    def pre(e):
        lo, hi = e.rlim()
        T = "ll" if lo else "ull"
        x, y = e.A
        return land(lnot(t.ieq(y, 0)), fits(x, T), fits(y, T), fits(exact("div", x, y), T), between(lo, exact(op, x, y), hi))
    c.pre = pre
    return c


def job(tier):
    cs = []
    ops = ("add", "sub", "mul", "div", "mod", "shl", "shr", "or", "and", "xor") + tuple(ORDER)
    for oi, op in enumerate(ops):
        for i, A in enumerate(W8):
            for j, B in enumerate(W8):
                for p in "na":
                    if p == "a" and op in ORDER:
                        continue
                    v = [(sf(A), sf(B)), (sf(A), bi(B)), (bi(A), sf(B))]
                    for k, (a, b) in enumerate(v):
                        if tier == "quick" and (k != (i + j + oi) % 3 or (p == "a" and (i + 2 * j) % 3)):
                            continue
                        cs.append(autodiv(op, a, b) if p == 'a' and op in ('div', 'mod') else op2(op, a, b, p))
        # ranges, enumerations, classes that convert, bool
        for a, b, p, _ in grid(tier, 6, oi):
            if p == "a" and op in ORDER or op in ("shl", "shr") and (b.hi < 0 or b.lo > 63 or op == "shl" and a.hi < 0):
                continue        # not specified, never defined
            if op in ("div", "mod") and (b.lo == 0 == b.hi or p == "a" and max(a.lo, b.lo) >= 1 << 63):
                continue
            cs.append(autodiv(op, a, b) if p == "a" and op in ("div", "mod") else op2(op, a, b, p))
        for a, b, p, _ in odd(tier, oi):
            if p != "n" or isinstance(a, En) and op in ("shl", "shr"):
                continue
            cs.append(op2(op, a, b, p))
    for a in [sf(k) for k in ALL + CHARS]:
        for op in "-+~":
            cs.append(un(op, a))
    for S in [sf(k) for k in ALL + CHARS]:
        for a in [bi(k) for k in ALL + CHARS] + [sf(k) for k in ALL + CHARS]:
            c = c12.construct(S, a, "n", "i", len(cs) % 3)
            c.posts = convspec(S.ty, a)
            cs.append(c)
            if S.tag() != a.tag():
                c = c12.assign(S, a, "n", "i")
                c.posts = convspec(S.ty, a, True)
                cs.append(c)
        for R in ALL + CHARS:
            c = c12.convert(R, S, "n", "i", bool(len(cs) % 2))
            c.posts = convspec(R, S)
            cs.append(c)
        for form in ("++x", "--x", "x++", "x--"):
            cs.append(incdec(S, form))
    for S in [sf(k) for k in ALL + CHARS]:
        for oi, op in enumerate(ops[:10]):
            for k, b in enumerate((bi("i"), S, sf("us"), bi("ull"), sf("ll"), bi("sc"))):
                if tier != "quick" or (k + oi + len(S.ty)) % 3 == 0:
                    cs.append(cmpd(op, S, b))
    return Job("C24", cs, chunk=40, contracts=None)
