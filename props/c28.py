"""C28 the policies of the operands govern an operation; conflicting policies do not compile; types report what they are"""
from safeops import *
import c12, c20, c22
from c12 import TARGETS, overlap

# two recording policies (A adds 1, B adds 2^32 to the count), distinct promotion policies, and trait checks
HEADER = r"""
namespace hv {
static u64 * num; static u64 * mask;
template<int A> struct Rec {
    static void note(const safe_numerics_error & e){ *num += (u64)1 << (32 * A); *mask |= (u64)1 << (16 * A + static_cast<int>(e)); }
    static void on_arithmetic_error(const safe_numerics_error & e, const char * m){ note(e); throw_exception()(e, m); }
    static void on_implementation_defined_behavior(const safe_numerics_error & e, const char * m){ note(e); throw_exception()(e, m); }
    static void on_undefined_behavior(const safe_numerics_error & e, const char * m){ note(e); throw_exception()(e, m); }
    static void on_uninitialized_value(const safe_numerics_error & e, const char * m){ note(e); throw_exception()(e, m); }
};
typedef Rec<0> RecA; typedef Rec<1> RecB;
struct native2 : native {};
struct automatic2 : automatic {};
template<class R, class P, class E> u64 has(){
    typedef typename std::decay<R>::type T;
    return (u64)is_safe<T>::value
        | (u64)std::is_same<typename get_promotion_policy<T>::type, P>::value << 1
        | (u64)std::is_same<typename get_exception_policy<T>::type, E>::value << 2;
}
}
"""
PP = {"n": "native", "a": "automatic", "c": "cpp<8,16,32,64,64>", "m": "hv::native2", "q": "hv::automatic2", "v": "void"}
EE = {"A": "hv::RecA", "B": "hv::RecB", "s": "strict_exception_policy", "l": "loose_exception_policy", "v": "void"}
OPS = ("add", "sub", "mul", "div", "mod", "shl", "shr", "or", "and", "xor")
CMP = ("lt", "gt", "le", "ge", "eq", "ne")


class Op:
    """operand with policies of its own"""

    def __init__(self, o, p="v", e="v"):
        self.o, self.p, self.e = o, p, e
        self.stated = o.safe and p != "v"

    def cls(self):
        if isinstance(self.o, Lit) and self.p == "v":
            return self.o.cls("", "")
        return self.o.cls(PP[self.p], EE[self.e])

    def tag(self):
        return self.o.tag() + (self.p + self.e if self.o.safe else "")


def decls(nm, a, b):
    return ("typedef %s A_%s;\ntypedef %s B_%s;\n" % (a.cls(), nm, b.cls(), nm))


def carries(op, a, b, P, E_):
    """the result carries the policies P and E_, an error is reported to E_ and to no other"""
    nm = "carry_%s_%s_%s" % (op, a.tag(), b.tag())
    code = decls(nm, a, b)
    code += ('extern "C" void H_%s(u64 & n_, u64 & m_, %s t, %s u, u64 * out){ n_ = m_ = 0; hv::num = &n_; hv::mask = &m_; %s %s '
             % (nm, cpp(a.o.ty), cpp(b.o.ty), a.o.decl("A_" + nm, "a", "t"), b.o.decl("B_" + nm, "b", "u")))
    if op in CMP:
        code += "out[0] = 7; (void)(a %s b); }\n" % OPC[op]
    else:
        code += "out[0] = hv::has<decltype(a %s b), %s, %s>(); auto r = a %s b; (void)r; }\n" % (OPC[op], PP[P], EE[E_], OPC[op])

    def posts(e):
        L = [("the result is a safe type of the operands' policies", imp(e.normal, t.ieq(e.o(0), 7))),
             ("no error, no action", imp(e.normal, t.ieq(e.after[0], 0)))]
        if E_ in "AB":
            L.append(("an error invokes the action of the operands' exception policy, once", imp(e.threw, t.ieq(e.after[0], 1 << (32 * (E_ == "B"))))))
        else:
            L.append(("no other policy is invoked", t.ieq(e.after[0], 0)))
        return L
    return Case(nm, code, c20.LOGARGS + [a.o.arg(), b.o.arg()], posts, meta=False, fn="%s %s %s" % (a.tag(), OPC[op], b.tag()), cover="any")


def conflict(op, a, b, comp=False, derived=False):
    """derived: the second operand's policies are derived classes of the first one's"""
    nm = "ill%s_%s%s_%s_%s" % ("d" if derived else "", op, "_eq" if comp else "", a.tag(), b.tag())
    # types of its own, so that the refusal is attributed to this instance
    ca, cb = a.cls(), b.cls()
    head_ = ""
    for k, x in enumerate((a, b)):
        if x.stated and not isinstance(x.o, Lit) or isinstance(x.o, Lit) and x.stated:
            pb, eb = ("P0_" + nm, "E0_" + nm) if derived and k else (PP[x.p], EE[x.e])
            head_ += "struct P%d_%s : %s {};\nstruct E%d_%s : %s {};\n" % (k, nm, pb, k, nm, eb)
    def own(x, k, other):
        if not x.stated:
            return x.cls()
        i = k if x.p != other.p or not other.stated else 0
        j = k if x.e != other.e or not other.stated else 0
        return x.o.cls("P%d_%s" % (i, nm), "E%d_%s" % (j, nm))
    code = head_ + "typedef %s A_%s;\ntypedef %s B_%s;\n" % (own(a, 0, b), nm, own(b, 1, a), nm)
    if comp:
        code += "void I_%s(A_%s & a, B_%s const & b){ a %s= b; }\n" % (nm, nm, nm, OPC[op])
    else:
        code += "void I_%s(A_%s const & a, B_%s const & b){ auto r = a %s b; (void)r; }\n" % (nm, nm, nm, OPC[op])
    c = Case(nm, code, [], None, meta=False, fn="ill-formed: %s %s %s" % (a.tag(), OPC[op], b.tag()))
    c.ill_formed = True
    return c


def moves(S, a, assign):
    """construction and assignment across policies: the target's exception policy reports; out of a safe type: the source's"""
    nm = "move%d_%s_from_%s" % (assign, S.tag(), a.tag())
    code = decls(nm, a, S)
    if not S.o.safe:
        put = "B_%s y = static_cast<B_%s>(x);" % (nm, nm)
    elif assign:
        put = "y = x;"
    else:
        put = "B_%s y(x);" % nm
    args = list(c20.LOGARGS) + ([S.o.arg(kind="obj", cls="B_" + nm)] if assign else []) + [a.o.arg()]
    code += ('extern "C" void H_%s(u64 & n_, u64 & m_, %s%s t, u64 * out){ n_ = m_ = 0; hv::num = &n_; hv::mask = &m_; %s %s out[0] = hv::ov(y); }\n'
             % (nm, "B_%s & y, " % nm if assign else "", cpp(a.o.ty), a.o.decl("A_" + nm, "x", "t"), put))
    who = S.e if S.o.safe else a.e

    def posts(e):
        x = e.A[-1]
        inr = between(S.o.lo, x, S.o.hi)
        return [("a representable value arrives, no action", imp(inr, land(e.normal, t.ieq(t.bval(e.out[0], signed(S.o.ty)), x), t.ieq(e.after[0], 0)))),
                ("any other value is reported once, to the policy responsible", imp(lnot(inr), land(e.threw, t.ieq(e.after[0], 1 << (32 * (who == "B"))))))]
    return Case(nm, code, args, posts, meta=False, fn=nm, cover="any")


def facts(o, p, x):
    """what the type reports, and base_value of every value"""
    S = o.cls(PP[p], EE[x])
    nm = "facts_%s_%s%s" % (o.tag(), p, x)
    T = cpp(o.ty)
    code = "typedef %s S_%s;\n" % (S, nm)
    lim = "std::numeric_limits<S_%s>" % nm
    base = "std::numeric_limits<%s>" % T
    code += ('extern "C" void H_%s(%s t, u64 * out){ S_%s s(t); out[0] = hv::ov(s); out[1] = (u64)%s::min(); out[2] = (u64)%s::max(); out[3] = (u64)%s::lowest(); '
             % (nm, T, nm, "base_value(%s" % lim, "base_value(%s" % lim, "base_value(%s" % lim)).replace("::min()", "::min())").replace("::max()", "::max())").replace("::lowest()", "::lowest())")
    code += ("out[4] = hv::has<S_%s, %s, %s>() | (u64)std::is_same<base_type<S_%s>::type, %s>::value << 3 | (u64)%s::is_specialized << 4 | (u64)%s::is_integer << 5 "
             "| (u64)(%s::is_signed == %s::is_signed) << 6 | (u64)(%s::digits == %s::digits) << 7 | (u64)%s::is_exact << 8; "
             % (nm, PP[p], EE[x], nm, T, lim, lim, lim, base, lim, base, lim))
    code += "S_%s c(s); out[5] = hv::ov(c); c = s; out[6] = hv::ov(c); S_%s m(static_cast<S_%s &&>(s)); out[7] = hv::ov(m); }\n" % (nm, nm, nm)
    v = lambda e, k: t.bval(e.out[k], signed(o.ty))

    def posts(e):
        return [("base_value gives the value", land(e.normal, t.ieq(v(e, 0), e.A[0]))),
                ("numeric_limits give the declared range", land(t.ieq(v(e, 1), o.lo), t.ieq(v(e, 2), o.hi), t.ieq(v(e, 3), o.lo))),
                ("traits and the rest of numeric_limits are the base type's and the policies'", t.ieq(e.o(4), 511)),
                ("copies and moves hold the value", land(t.ieq(v(e, 5), e.A[0]), t.ieq(v(e, 6), e.A[0]), t.ieq(v(e, 7), e.A[0])))]
    return Case(nm, code, [o.arg()], posts, nout=8, meta=False, fn="what %s reports" % o.tag())


def job(tier):
    cs = []
    Q = tier == "quick"
    BASES = [sf("i"), sf("sc"), sf("u"), sf("ull"), rs(-100, 100), ru(1, 31)]
    for oi, op in enumerate(OPS + CMP):
        n = 0
        for i, x in enumerate(BASES):
            for j, y in enumerate(BASES + [bi("i"), bi("ull"), Lit(5), Lit(3, u=True), Lit(7, True)]):
                for k, (p, e) in enumerate((("n", "A"), ("a", "B"), ("m", "A"), ("q", "B"), ("c", "B"), ("n", "l"), ("a", "s"))):
                    n += 1
                    if Q and (i * 3 + j * 5 + k + oi) % 7:
                        continue
                    if e == "l" and op in ("shl", "shr"):
                        e = "s"         # where shift errors are ignored the built-in shift is undefined
                    a = Op(x, p, e)
                    b = Op(y, p, e) if y.safe and (not isinstance(y, Lit) or y.pol) else Op(y)
                    a, b = (a, b) if (i + j) % 2 or isinstance(y, Lit) and op in ("shl", "shr") else (b, a)
                    cs.append(carries(op, a, b, p, e))
        # literals that bring the policies
        for k, (p, e) in enumerate((("n", "A"), ("a", "B"), ("q", "A"), ("c", "s"))):
            L = Op(Lit(5, True), p, e)
            for j, b in enumerate((Op(bi("i")), Op(bi("uc")), Op(Lit(3)), Op(Lit(2, True), p, e))):
                if not Q or (j + k + oi) % 2:
                    cs.append(carries(op, L, b, p, e))
        # conflicting policies, no policies
        I = Op(sf("i"), "n", "A")
        bad = [(I, Op(sf("i"), "a", "A")), (I, Op(sf("sc"), "n", "B")), (Op(rs(-100, 100), "a", "s"), Op(ru(1, 31), "n", "s")),
               (Op(sf("ull"), "a", "l"), Op(ru(1, 31), "a", "s")), (Op(sf("u"), "c", "A"), Op(sf("u"), "n", "B")),
               (I, Op(Lit(3, True), "a", "A")), (I, Op(Lit(3, True), "n", "B")), (Op(Lit(9, True), "a", "l"), Op(Lit(3, True), "a", "s")),
               (Op(Lit(9)), Op(Lit(3)))]
        for k, (a, b) in enumerate(bad):
            if Q and (k + oi) % 2:
                continue
            cs.append(conflict(op, a, b) if (k // 2 + oi) % 2 or not b.stated else conflict(op, b, a))
            if b.stated and not isinstance(a.o, Lit):
                cs.append(conflict(op, *((a, b) if (k + oi) % 4 < 2 else (b, a)), derived=True))
            if op in OPS and a.stated and not isinstance(a.o, Lit):
                cs.append(conflict(op, a, b, True))
    FROM = [(o, p, e) for o in [sf("i"), sf("ll"), sf("u"), sf("sc"), rs(-100, 100), rg("ull", 1 << 63, (1 << 64) - 1)] for p, e in (("n", "A"), ("a", "B"))]
    for i, (o, p, e) in enumerate(FROM):
        for j, S in enumerate([sf("sc"), sf("us"), sf("i"), sf("ull"), rs(-7, 9), ru(0, 300)]):
            for k, (P, E_) in enumerate((("a", "A"), ("n", "B"), ("q", "B"), ("m", "A"))):
                if not overlap(S.lo, S.hi, o) or Q and (i + j + k) % 2:
                    continue
                for asg in (0, 1):
                    cs.append(moves(Op(S, P, E_), Op(o, p, e), asg))
        for k in W8:
            if overlap(tmin(k), tmax(k), o):
                cs.append(moves(Op(bi(k)), Op(o, p, e), 0))
    for i, o in enumerate([sf(k) for k in ALL + CHARS] + TARGETS + GRID):
        for k, (p, x) in enumerate((("n", "s"), ("a", "l"), ("m", "A"))):
            if not Q or (i + k) % 2:
                cs.append(facts(o, p, x))
    return Job("C28", cs, header=HEADER, chunk=40, contracts=None)
