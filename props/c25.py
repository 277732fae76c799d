"""C25 with trapping policies a program compiles exactly if its operations cannot fail"""
from safeops import *
import c12, c18, c21

# Every instance gets a trapping policy of its own, so that a refusal by the compiler can be attributed
# to the instance: the library's trap_exception, only with a distinct type.
HEADER = """
template<class Tag> struct hv_trap : trap_exception { constexpr hv_trap() = default; };
template<class Tag> using strict_trap = exception_policy<hv_trap<Tag>, hv_trap<Tag>, hv_trap<Tag>, hv_trap<Tag>>;
template<class Tag> using loose_trap = exception_policy<hv_trap<Tag>, ignore_exception, ignore_exception, ignore_exception>;
template<class Tag> using hv_strict = strict_exception_policy;
template<class Tag> using hv_loose = loose_exception_policy;
"""
EXC["L"] = "strict_trap_policy"
EXC["M"] = "loose_trap_policy"
EXC["T"] = "strict_trap<struct TAG>"
EXC["U"] = "loose_trap<struct TAG>"


class K(O):
    """an operand known to hold a value of its range"""

    def decl(self, cls, var, src):
        if not self.safe:
            return super().decl(cls, var, src)
        return "%s %s(%s, %s::skip_validation());" % (cls, var, src, cls)


def k(o):
    return K(o.ty, o.lo, o.hi, o.safe)


def never_fails(op, a, b, loose=False):
    """the expression returns the exact result for all operands"""
    def posts(e):
        x, y = e.A
        if op in ("lt", "gt", "le", "ge", "eq", "ne"):
            r = {"lt": t.ilt(x, y), "gt": t.igt(x, y), "le": t.ile(x, y), "ge": t.ile(y, x), "eq": t.ieq(x, y), "ne": lnot(t.ieq(x, y))}[op]
            return [("returns the truth", land(e.normal, t.ieq(e.o(0), ite(r, t.ic(1), t.ic(0)))))]
        L = [("returns", e.normal)]
        if op in ("div", "mod"):
            L.append(("the divisor is never zero", lnot(t.ieq(y, 0))))
            L.append(("the exact result", imp(lnot(t.ieq(y, 0)), t.ieq(e.res(), exact(op, x, y)))))
        elif op in ("shl", "shr"):
            dom = land(between(0, y, e.meta[0] - 1), t.ile(0, x))
            if not loose:
                # the loose policy ignores shift errors
                L.append(("the operands are in the shift's domain", dom))
            L.append(("the exact result", imp(dom, t.ieq(e.res(), exact(op, x, y)))))
        elif op in ("or", "and", "xor"):
            pass
        else:
            L.append(("the exact result", t.ieq(e.res(), exact(op, x, y))))
        return L
    return posts


def unary_never_fails(op, a):
    return lambda e: [("returns", e.normal), ("the exact result", t.ieq(e.res(), t.ineg(e.A[0]) if op == "-" else e.A[0]))]


def step_never_fails(S, form):
    d = 1 if "++" in form else -1
    return lambda e: [("returns", e.normal), ("the exact value", t.ieq(e.after[0], t.iadd(e.A[0], d)))]


def within(a, lo, hi):
    return lo <= a.lo and a.hi <= hi


def common(a, b, p):
    """range of the type comparisons are made in"""
    if p == "a":
        sg = signed(a.ty) or signed(b.ty)
        return (tmin("ll"), tmax("ll")) if sg else (0, tmax("ull"))
    n = max(32, bits(a.ty), bits(b.ty))
    uns = [x for x in (a.ty, b.ty) if not signed(x) and bits(x) == n]
    return (0, (1 << n) - 1) if uns else (-(1 << (n - 1)), (1 << (n - 1)) - 1)


def excuse(op, a, b, p):
    """may the compiler refuse the operation although it cannot fail?"""
    if op in ("div", "mod"):
        def f(meta):
            n, sg = meta[0], meta[1]
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, (1 << n) - 1)
            return not (within(a, lo, hi) and within(b, lo, hi))
        return f
    if op in ("lt", "gt", "le", "ge", "eq", "ne"):
        lo, hi = common(a, b, p)
        return lambda meta: not (within(a, lo, hi) and within(b, lo, hi))
    return None


def trap(c, ex=None):
    """-> the same instance under a trapping policy; c.alt is the instance under the throwing one"""
    c.excuse = ex
    tag = "Tag_" + c.name
    alt = c.code.replace("TAG", tag)
    c.code = alt
    c.alt = alt.replace("loose_trap<struct", "hv_loose<struct").replace("strict_trap<struct", "hv_strict<struct")
    return c


def library(c, may=False):
    """an instance of one of the library's own trapping policies"""
    c.alt = c.code.replace("strict_trap_policy", "strict_exception_policy").replace("loose_trap_policy", "loose_exception_policy")
    c.solo = True
    c.excuse = (lambda meta: True) if may else None
    return c


def default_ctor(S, x):
    nm = "defctor_%s_%s" % (S.tag(), x)
    code = 'extern "C" void H_%s(u64 * out){ %s v; (void)v; }\n' % (nm, S.cls("native", EXC[x]))
    c = Case(nm, code, [], lambda e: [("returns", e.normal)], meta=False, fn="default construction of %s" % S.tag())
    c = library(c)
    # the throwing instance to compare with: uninitialized values are an error exactly for the strict trapping policy
    c.alt = code.replace("strict_trap_policy", EXC["t"]).replace("loose_trap_policy", "loose_exception_policy")
    return c


def compound_posts(op, S, b, loose):
    f = c21.spec(op, S, b)

    def posts(e):
        L = [q for q in f(e) if q[0].startswith(("leaves", "returns"))]
        if op in ("shl", "shr") and loose:
            L = L[1:]
        return L + [("returns normally", e.normal)]
    return posts


def same(S, a):
    def posts(e):
        x = e.A[-1]
        return [("returns", e.normal), ("the value itself", t.ieq(t.bval(e.out[0], signed(S.ty)), x))]
    return posts


def job(tier):
    cs = []
    full = [k(sf(x)) for x in W8]
    rng = [k(o) for o in GRID] + [k(o) for o in c12.TARGETS]
    quick = tier == "quick"
    for oi, op in enumerate(OPC):
        pairs = [(a, b) for a in full + rng for b in full + rng] + [(a, bi(x)) for a in full + rng for x in W8] + [(bi(x), a) for a in full + rng for x in W8]
        for n, (a, b) in enumerate(pairs):
            for pi, p in enumerate("na"):
                for ei, e in enumerate("TU"):
                    if quick and (n * 4 + pi * 2 + ei + oi * 5 + n // 47) % 61:
                        continue
                    if not quick and (n * 4 + pi * 2 + ei + oi * 5 + n // 47) % 7:
                        continue
                    f = lambda op, a, b, e=e: never_fails(op, a, b, e == "U")
                    # which shift errors the loose policy ignores is not part of the property
                    ex = (True if e == "U" and op in ("shl", "shr") else excuse(op, a, b, p))
                    cs.append(trap(binop(op, a, b, p, e, f), ex))
    for i, S in enumerate(full + rng):
        src = [bi(x) for x in W8] + full + rng
        for n, a in enumerate(src):
            if (n + i) % (6 if quick else 1):
                continue
            if not c12.overlap(S.lo, S.hi, a):
                continue
            p, e = "na"[(n // 3) % 2], "TU"[n % 2]
            c = c12.construct(S, a, p, e, n % 3)
            c.posts = same(S, a)
            cs.append(trap(c))
    for i, R in enumerate(W8):
        for n, a in enumerate(full + rng):
            if quick and (n + i) % 3 or not c12.overlap(tmin(R), tmax(R), a):
                continue
            c = c12.convert(R, a, "na"[n % 2], "TU"[n // 2 % 2], bool(n % 3 == 1))
            c.posts = same(bi(R), a)
            sub = tmin(R) <= tmin(a.ty) and tmax(a.ty) <= tmax(R)
            cs.append(trap(c, None if sub else lambda meta: True))
    # compound assignment: what compiles cannot fail
    for i, S in enumerate(full + rng):
        for j, b in enumerate(full[:6] + rng[:12] + [bi("i"), bi("uc"), bi("ull"), k(rs(0, 0)), k(rg("ull", 1, 1))]):
            for oi, op in enumerate(c21.OPS):
                if (i * 3 + j + oi * 5) % (41 if quick else 5):
                    continue
                e = "TU"[(i + j) % 2]
                if not c18.possible(op, S, b):
                    continue
                c = c18.compound(op, S, b, "na"[(i + oi) % 2], e, lambda op, S, b, e=e: compound_posts(op, S, b, e == "U"))
                if c.name[:-2] in c21.SKIP:
                    continue
                cs.append(trap(c, True))
    # unary minus and plus, increment and decrement
    for i, S in enumerate(full + rng + [k(sf(x)) for x in CHARS]):
        for pi, p in enumerate("na"):
            for ei, e in enumerate("TU"):
                for oi, op in enumerate("-+"):
                    if not quick or (i + pi + ei + oi) % 2:
                        cs.append(trap(unary(op, S, p, e, unary_never_fails), True if op == "-" else None))     # -x is 0 - x with an int 0 of any value
                for fi, form in enumerate(("++x", "--x", "x++", "x--")):
                    if S.lo < 1 << 63 and (i + pi + 2 * ei + fi) % (4 if quick else 1) == 0:
                        c = c18.incdec(S, form, p, e, step_never_fails)
                        cs.append(trap(c))
    # safe literals
    for i, S in enumerate(full + rng):
        for j, n in enumerate((0, 1, -1, 7, 100, -128, 200, 40000, 1 << 31, 1 << 40)):
            if (i + j) % (4 if quick else 1) or not S.lo <= n <= S.hi:
                continue
            c = c12.construct(S, Lit(n), "na"[j % 2], "TU"[i % 2], j % 3)
            c.posts = same(S, Lit(n))
            cs.append(trap(c))
    # the library's own trapping policies
    for x in "LM":
        cs.append(default_ctor(sf("i"), x))
        cs.append(default_ctor(k(rg("uc", 3, 9)), x))
        for op, a, b in (("add", sf("i"), sf("i")), ("sub", sf("ull"), sf("ull")), ("mul", sf("ll"), sf("i")), ("div", sf("i"), sf("i")),
                         ("mod", sf("u"), sf("u")), ("shl", sf("i"), sf("i")), ("shr", rg("ull", 0, 9), rg("ull", 0, 99)),
                         ("add", sf("s"), sf("uc")), ("mul", rg("i", -9, 9), rg("i", 0, 100)), ("div", sf("s"), rg("s", 2, 9)),
                         ("shl", rg("i", 0, 9), rg("i", 0, 9)), ("and", sf("i"), sf("us"))):
            f = lambda op, a, b, x=x: never_fails(op, a, b, x == "M")
            cs.append(library(binop(op, k(a), k(b), "na"[op in ("mul", "div")], x, f)))
        for S, a in ((sf("sc"), sf("i")), (rg("i", 0, 9), bi("uc")), (sf("ll"), bi("u")), (rg("u", 1, 100), rg("sc", 2, 50))):
            c = c12.construct(k(S), k(a), "n", x, 0)
            c.posts = same(S, a)
            cs.append(library(c))
    return Job("C25", cs, header=HEADER, chunk=60, contracts=None, traps=True)
