"""C20 every error reaches the policy action of its category with its own code"""
import copy
from safeops import *
import c13, c14, c15
from c12 import TARGETS, overlap
import c12

HEADER = r"""
namespace hv {
// a user's exception policy that records which action was called with which code:
// *num counts the calls, bit 16*action+code of *mask is set
static u64 * num; static u64 * mask;
inline void note(int act, const safe_numerics_error & e){
    *num += 1;
    *mask |= (u64)1 << (16 * act + static_cast<int>(e));
}
struct rec {        // records and carries on
    static void on_arithmetic_error(const safe_numerics_error & e, const char *){ note(0, e); }
    static void on_implementation_defined_behavior(const safe_numerics_error & e, const char *){ note(1, e); }
    static void on_undefined_behavior(const safe_numerics_error & e, const char *){ note(2, e); }
    static void on_uninitialized_value(const safe_numerics_error & e, const char *){ note(3, e); }
};
struct recthrow {   // records and throws
    static void on_arithmetic_error(const safe_numerics_error & e, const char * m){ note(0, e); throw_exception()(e, m); }
    static void on_implementation_defined_behavior(const safe_numerics_error & e, const char * m){ note(1, e); throw_exception()(e, m); }
    static void on_undefined_behavior(const safe_numerics_error & e, const char * m){ note(2, e); throw_exception()(e, m); }
    static void on_uninitialized_value(const safe_numerics_error & e, const char * m){ note(3, e); throw_exception()(e, m); }
};
template<int A> struct act {     // action function object of a ready-made policy
    void operator()(const safe_numerics_error & e, const char * m){ note(A, e); throw_exception()(e, m); }
};
typedef exception_policy<act<0>, act<1>, act<2>, act<3>> recobj;
}
"""
EXC["R"] = "hv::rec"
EXC["T"] = "hv::recthrow"
EXC["F"] = "hv::recobj"
ACT = {POS: 0, NEG: 0, DOM: 0, RNG: 0, PREC: 0, UNDER: 0, NEGVAL: 1, NEGSH: 1, BIGSH: 1, UNINIT: 3}
LEGAL = [1 << (16 * ACT[c] + c) for c in ACT]
LOGARGS = [Arg("ull", kind="obj", cls="u64"), Arg("ull", kind="obj", cls="u64")]


def sub(e, k):
    f = copy.copy(e)
    f.a, f.A, f.after = e.a[k:], e.A[k:], e.after[k:]
    return f


def logposts(inner):
    """exactly one action, of the category of the code that is thrown; none on success"""
    def posts(e):
        n, m = e.after[0], e.after[1]
        c = e.code
        pair = FALSE
        for k, a in ACT.items():
            pair = lor(pair, land(t.ieq(c, k), t.ieq(m, 1 << (16 * a + k))))
        L = [("success: no action is invoked", imp(e.normal, land(t.ieq(n, 0), t.ieq(m, 0)))),
             ("an error: exactly one action is invoked", imp(e.threw, t.ieq(n, 1))),
             ("the action of the error's category, with the error's code", imp(e.threw, pair))]
        return L + (inner(sub(e, 2)) if inner else [])
    return posts


def wrap(c):
    """the same instance, observed through the recording policy"""
    c = copy.copy(c)
    c.code = c.code.replace('void H_%s(' % c.name, 'void H_%s(u64 & n_, u64 & m_%s' % (c.name, ", " if c.args else ", "), 1)
    i = c.code.index("{", c.code.index("void H_" + c.name))
    c.code = c.code[:i + 1] + " n_ = m_ = 0; hv::num = &n_; hv::mask = &m_;" + c.code[i + 1:]
    c.args = LOGARGS + c.args
    c.posts = logposts(c.posts)
    return c


def ground(nm, body, posts, args=(), fn=None, **kw):
    """static facts: dispatch, tables, conditions"""
    code = 'extern "C" void H_%s(u64 & n_, u64 & m_%s, u64 * out){ n_ = m_ = 0; hv::num = &n_; hv::mask = &m_; %s }\n' % (
        nm, "".join(", %s %s" % (cpp(a.ty), "xyz"[k]) for k, a in enumerate(args)), body)
    return Case(nm, code, LOGARGS + list(args), posts, meta=False, fn=fn or nm, cover="any", **kw)


def category_models(ctx, e, st):
    """std::error_category's two virtual equivalent() functions and default_error_condition are
    defined in the C++ library, not in a header: modelled as [syserr.errcat.virtuals] defines them"""
    def equiv(ctx, st, name, args, i):
        ctx.trusted.add("std::error_category::equivalent(int, error_condition), default_error_condition")
        cond = args[2]
        v = t.eq(ctx.load(st, cond, __import__("ir").INTT(32)), args[1])
        p = ctx.load(st, ctx.padd(cond, 8, []), __import__("ir").T("ptr")) if False else ctx.i2p(ctx.rawload(ctx.mem(st, cond.alts[0][1]), cond.alts[0][2] + 8, 8))
        return (st, t.b1(land(v, ctx.peq(p, args[0]))), [])
    ctx.env_models["_ZNKSt3_V214error_category10equivalentEiRKSt15error_condition"] = equiv

    def equiv2(ctx, st, name, args, i):
        ctx.trusted.add("std::error_category::equivalent(error_code, int)")
        ec = args[1]
        v = t.eq(ctx.load(st, ec, __import__("ir").INTT(32)), args[2])
        p = ctx.i2p(ctx.rawload(ctx.mem(st, ec.alts[0][1]), ec.alts[0][2] + 8, 8))
        return (st, t.b1(land(v, ctx.peq(p, args[0]))), [])
    ctx.env_models["_ZNKSt3_V214error_category10equivalentERKSt10error_codei"] = equiv2


# safe_numerics_actions: no_action, uninitialized_value, arithmetic_error, implementation_defined_behavior, undefined_behavior
COND = {0: {OK}, 1: {UNINIT}, 2: {POS, NEG, DOM, RNG, PREC, UNDER}, 3: {NEGVAL, NEGSH, BIGSH}, 4: set()}


def belongs(c, k):
    """code c (Int) belongs to condition k (Int)"""
    r = FALSE
    for q, s in COND.items():
        r = lor(r, land(t.ieq(k, q), lor(*[t.ieq(c, x) for x in s])))
    return r


def statics():
    cs = []
    for k in range(1, 11):
        cn = "safe_numerics_error::" + CODE_NAMES[k]
        one = 1 << (16 * ACT[k] + k)
        for x, kind in (("R", "normal"), ("T", "threw"), ("F", "threw")):
            cs.append(ground("dispatch_%s_%s" % (CODE_NAMES[k], x), "dispatch<%s, %s>(\"m\");" % (EXC[x], cn),
                             (lambda one, kind, k: lambda e: [
                                 ("returns or throws as the action does", e.normal if kind == "normal" else e.threw),
                                 ("exactly one action", t.ieq(e.after[0], 1)),
                                 ("of the category of the code, with the code", t.ieq(e.after[1], one)),
                                 ("the exception carries the code", imp(e.threw, t.ieq(e.code, k)))])(one, kind, k),
                             fn="dispatch<EP, %s>" % CODE_NAMES[k]))
        cs.append(ground("dispret_%s" % CODE_NAMES[k],
                         "hv::oc(dispatch_and_return<hv::rec, int>::template invoke<%s>(\"m\"), out);" % cn,
                         (lambda one, k: lambda e: [("exactly one action of the category, with the code",
                                                     land(e.normal, t.ieq(e.after[0], 1), t.ieq(e.after[1], one))),
                                                    ("the result carries the code", t.ieq(e.o(0), k))])(one, k),
                         fn="dispatch_and_return::invoke<%s>" % CODE_NAMES[k], nout=2))
    code = Arg("uc", 0, 10)
    cs.append(ground("category_of", "out[0] = (u64)make_safe_numerics_action(static_cast<safe_numerics_error>(x));",
                     lambda e: [("every code belongs to its one category", land(e.normal, belongs(e.A[2], e.o(0)))),
                                ("no code belongs to undefined behaviour, only success to no action",
                                 land(t.ilt(e.o(0), 4), imp(t.ieq(e.o(0), 0), t.ieq(e.A[2], 0))))],
                     [code], fn="make_safe_numerics_action"))
    cs.append(ground("throws_code", "throw_exception()(static_cast<safe_numerics_error>(x), \"m\");",
                     lambda e: [("throws the code it is given", land(e.threw, t.ieq(e.code, e.A[2])))], [code], fn="throw_exception"))
    cs.append(ground("ignores", "ignore_exception()(static_cast<safe_numerics_error>(x), \"m\");",
                     lambda e: [("returns", e.normal)], [code], fn="ignore_exception"))
    for nm, P in (("loose", "loose_exception_policy"), ("strict", "strict_exception_policy")):
        for a, act in enumerate(("on_arithmetic_error", "on_implementation_defined_behavior", "on_undefined_behavior", "on_uninitialized_value")):
            throws = (nm == "strict" and a < 3) or a == 0
            cs.append(ground("%s_%s" % (nm, act), "%s::%s(static_cast<safe_numerics_error>(x), \"m\");" % (P, act),
                             (lambda throws: lambda e: [("throws the code" if throws else "returns",
                                                        land(e.threw, t.ieq(e.code, e.A[2])) if throws else e.normal)])(throws),
                             [code], fn="%s::%s" % (P, act)))
    cond = Arg("i", 0, 4)
    pre = "std::error_code ec = make_error_code(static_cast<safe_numerics_error>(x)); "
    eq = lambda e: [("equivalent to exactly the conditions the code belongs to",
                     land(e.normal, t.ieq(e.o(0), ite(belongs(e.A[2], e.A[3]), t.ic(1), t.ic(0)))))]
    cs.append(ground("equivalent", pre + "out[0] = safe_numerics_actions_category.equivalent(ec, y);", eq, [code, cond],
                     fn="safe_numerics_actions_category.equivalent"))
    cs.append(ground("equal_condition", pre + "std::error_condition q(y, safe_numerics_actions_category); out[0] = ec == q;", eq, [code, cond],
                     fn="error_code == error_condition", ctx=category_models, native=True))
    cs.append(ground("equal_code", pre + "out[0] = ec == static_cast<safe_numerics_error>(y);",
                     lambda e: [("a code equals itself only", land(e.normal, t.ieq(e.o(0), ite(t.ieq(e.A[2], e.A[3]), t.ic(1), t.ic(0)))))],
                     [code, Arg("i", 0, 10)], fn="error_code == safe_numerics_error"))
    cs.append(ground("foreign_code", "std::error_code ec(x, std::generic_category()); out[0] = safe_numerics_actions_category.equivalent(ec, y);",
                     lambda e: [("a code of another category is equivalent to no condition", land(e.normal, t.ieq(e.o(0), 0)))],
                     [Arg("i"), cond], fn="equivalent on a foreign code", ctx=generic_model, native=True))
    cs.append(ground("error_code", pre + "out[0] = ec.value(); out[1] = ec.category() == safe_numerics_error_category;",
                     lambda e: [("the code's value", land(e.normal, t.ieq(e.o(0), e.A[2]))), ("in the library's category", t.ieq(e.o(1), 1))],
                     [code], fn="make_error_code", nout=2))
    for T in ("sc", "i", "ull"):
        for x in "RTF":
            cs.append(ground("defctor_%s_%s" % (T, x), "safe<%s, native, %s> v; (void)v;" % (cpp(T), EXC[x]),
                             (lambda x: lambda e: [("the action for uninitialized values, once, with its code",
                                                   land(t.ieq(e.after[0], 1), t.ieq(e.after[1], 1 << (48 + UNINIT)))),
                                                   ("as the action does", e.normal if x == "R" else land(e.threw, t.ieq(e.code, UNINIT)))])(x),
                             fn="default construction"))
    return cs


def generic_model(ctx, e, st):
    category_models(ctx, e, st)

    def gc(ctx, st, name, args, i):
        ctx.trusted.add("std::generic_category() is not the library's category")
        o = ctx.new(st, 8, "generic_category", {})
        import execu
        return (st, execu.P1(o, 0), [])
    ctx.env_models["_ZNSt3_V216generic_category"] = gc


def cnt(*cs_):
    r = t.ic(0)
    for c in cs_:
        r = t.iadd(r, ite(c, t.ic(1), t.ic(0)))
    return r


def legal(m):
    """only pairs of an action with a code of its category were recorded"""
    bad = ((1 << 64) - 1) ^ sum(LEGAL)
    return t.eq(t.band(t.i2b(m, 64), t.bv(bad, 64)), t.bv(0, 64))


def carries_on(op, a, b):
    """a policy that records and returns: every error of the operands' conversions and of the operation is reported once"""
    c = binop(op, a, b, "n", "R", None)
    c.posts = None
    c = wrap(c)

    def posts(e):
        import c24
        n, sg = e.meta[0], bool(e.meta[1])
        lo, hi = e.rlim()
        x, y = e.A[2:]
        X, Y = (t.bval(c24.conv(v, signed(k.ty), n), sg) for v, k in ((e.a[2], a), (e.a[3], b)))
        inr = lambda v: between(lo, v, hi)
        r = exact(op, X, Y)
        err = lnot(inr(r))
        if op == "shr":
            err = t.ilt(X, 0)
        if op == "shl":
            err = lor(err, land(t.ieq(X, 0), t.ile(n - 1, Y))) if sg else err
        return [("returns", e.normal),
                ("one action for every error", t.ieq(e.after[0], cnt(lnot(inr(x)), lnot(inr(y)), err))),
                ("only actions of the category of their code", legal(e.after[1])),
                ("arithmetic operations report arithmetic errors only, shifts of representable operands shift errors",
                 imp(land(inr(x), inr(y)), t.eq(t.band(t.i2b(e.after[1], 64), t.bv(0xffff if op in ("shl", "shr") else 0xffff << 16, 64)), t.bv(0, 64))))]
    c.posts = posts
    import c24
    c.pre = c24.defined(op, a, b, 2)
    return c


def carries_conv(c, lo, hi, k):
    """conversion under a policy that records and returns"""
    c.posts = None
    c = wrap(c)

    def posts(e):
        x = e.A[-1]
        inr = between(lo, x, hi)
        one = lambda q: t.ieq(e.after[1], 1 << q)
        return [("returns", e.normal),
                ("one action exactly if the value is out of range", t.ieq(e.after[0], cnt(lnot(inr)))),
                ("the arithmetic error action with a code for the direction",
                 ite(inr, t.ieq(e.after[1], 0), ite(t.igt(x, hi), one(POS), lor(one(NEG), one(DOM)))))]
    c.posts = posts
    return c


def carries_step(S, form):
    """increment and decrement under a policy that records and returns"""
    import c18
    c = c18.incdec(S, form, "n", "R", lambda S, f: None)
    c = wrap(c)
    d = 1 if "++" in form else -1
    c.posts = lambda e: [("returns", e.normal),
                         ("one action exactly if the result is out of range",
                          t.ieq(e.after[0], cnt(lnot(between(S.lo, t.iadd(e.A[2], d), S.hi))))),
                         ("an arithmetic one", t.eq(t.band(t.i2b(e.after[1], 64), t.bv(-1 << 16, 64)), t.bv(0, 64)))]
    if signed(S.ty) and bits(S.ty) >= 32:
        c.pre = lambda e: lnot(t.ieq(e.A[2], tmax(S.ty) if d > 0 else tmin(S.ty)))
    return c


def job(tier):
    cs = statics()
    for oi, op in enumerate(("add", "sub", "mul", "div", "mod", "shl", "shr", "or", "and", "xor")):
        if op in ("or", "and", "xor"):
            continue
        for i, A in enumerate(W8):
            for j, B in enumerate(W8):
                if tier == "quick" and (i + j + oi) % 3:
                    continue
                a, b = ((sf(A), sf(B)), (sf(A), bi(B)), (bi(A), sf(B)))[(i + 2 * j + oi) % 3]
                cs.append(carries_on(op, a, b))
    for S in [sf(k) for k in ALL + CHARS] + TARGETS[:4]:
        for n, a in enumerate([bi(k) for k in W8] + [sf(k) for k in W8]):
            if overlap(S.lo, S.hi, a) and (n + len(cs)) % 2:
                cs.append(carries_conv(c12.construct(S, a, "n", "R", 0), S.lo, S.hi, 0))
                if S.tag() != a.tag():
                    cs.append(carries_conv(c12.assign(S, a, "n", "R"), S.lo, S.hi, 1))
        if S.full:
            for R_ in W8:
                cs.append(carries_conv(c12.convert(R_, S, "n", "R"), tmin(R_), tmax(R_), 0))
            for form in ("++x", "--x", "x++", "x--"):
                cs.append(carries_step(S, form))
    F = {"add": arith, "sub": arith, "mul": arith, "div": arith, "mod": arith, "shl": c15.shift, "shr": c15.shift}
    R = {"add": c13, "sub": c13, "mul": c13, "div": c14, "mod": c14, "shl": c15, "shr": c15}
    for oi, op in enumerate(F):
        for i, A in enumerate(W8):
            for j, B in enumerate(W8):
                for pi, p in enumerate("na"):
                    if tier == "quick" and (i + 2 * j + oi) % 4:
                        continue
                    k = (i + j + pi) % 3
                    a, b = ((sf(A), sf(B)), (sf(A), bi(B)), (bi(A), sf(B)))[k]
                    cs.append(wrap(binop(op, a, b, p, "TF"[(i + j) % 2], F[op])))
        for n, (a, b) in enumerate(R[op].RANGES):
            if tier == "quick" and n % 2:
                continue
            for p in "na":
                cs.append(wrap(binop(op, a, b, p, "T", F[op])))
    for S in TARGETS + [sf(k) for k in ALL + CHARS]:
        for n, a in enumerate([bi(k) for k in W8] + TARGETS[:5]):
            if not overlap(S.lo, S.hi, a) or (n + len(cs)) % 2:
                continue
            cs.append(wrap(c12.construct(S, a, "na"[n % 2], "TF"[n % 2], n % 3)))
            if S.tag() != a.tag():
                c = wrap(c12.assign(S, a, "na"[n % 2], "TF"[n % 2]))
                cs.append(c)
    for R_ in W8:
        for n, a in enumerate([sf(k) for k in W8] + TARGETS):
            if overlap(tmin(R_), tmax(R_), a) and n % 2:
                cs.append(wrap(c12.convert(R_, a, "na"[n % 2], "T", bool(n % 4 > 1))))
    # unary minus, increment, decrement, compound assignment and comparison
    import c17, c18, c21
    for i, S in enumerate([sf(k) for k in ALL] + TARGETS + GRID):
        if signed(S.ty):
            cs.append(wrap(unary("-", S, "na"[i % 2], "TF"[i // 2 % 2], c13.neg)))
        for j, form in enumerate(("++x", "--x", "x++", "x--")):
            if tier != "quick" or (i + j) % 2:
                p = "n" if S.lo >= 1 << 63 else "na"[(i + j // 2) % 2]     # automatic: no overlap, does not compile
                cs.append(wrap(c18.incdec(S, form, p, "TF"[i % 2], c21.idspec(p))))
        for oi, op in enumerate(c21.OPS):
            for j, b in enumerate((bi("i"), rs(-3, 9), bi("ull"), sf("us"), sf("ll"))):
                if S in GRID or S.hi < 0 or (i + 2 * oi + 3 * j) % (5 if tier == "quick" else 2) or not c18.possible(op, S, b):
                    continue
                c = c18.compound(op, S, b, "na"[(i + oi) % 2], "TF"[j % 2], c21.spec)
                if c.name[:-2] not in c21.SKIP:
                    cs.append(wrap(c))
    for oi, op in enumerate(("lt", "gt", "le", "ge", "eq", "ne")):
        for i, A in enumerate(W8):
            for j, B in enumerate(W8):
                for pi, p in enumerate("na"):
                    if tier == "quick" and (i + 3 * j + oi + pi) % 5:
                        continue
                    a, b = ((sf(A), sf(B)), (sf(A), bi(B)), (bi(A), sf(B)))[(i + j + oi) % 3]
                    cs.append(wrap(binop(op, a, b, p, "TF"[oi % 2], c17.cmpspec(p))))
    return Job("C20", cs, header=HEADER, chunk=40, contracts=None)
