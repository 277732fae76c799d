"""C21 compound assignment, increment, decrement"""
from safeops import *
from c12 import TARGETS
from c16 import conv
from c18 import compound, incdec, possible, objcase
import c18


def spec(op, S, b):
    def posts(e):
        x, y = e.A
        lo, hi = e.rlim()
        n, sg = e.meta[0], bool(e.meta[1])
        inr = lambda v: between(lo, v, hi)
        ins = lambda v: between(S.lo, v, S.hi)
        ops = land(inr(x), inr(y))
        if op in ("or", "and", "xor"):
            f = {"or": t.bor, "and": t.band, "xor": t.bxor}[op]
            r = t.bval(f(conv(e.a[0], signed(S.ty), n), conv(e.a[1], signed(b.ty), n)), sg)
            succ, dom = TRUE, TRUE
        else:
            r = exact(op, x, y)
            if op in ("shl", "shr"):
                dom = land(t.ile(0, y), t.ilt(y, n))
                succ = land(t.igt(x, 0), ops, dom, inr(r))
                if op == "shr":
                    dom = land(dom, t.ile(0, x))
            else:
                dom = lnot(t.ieq(y, 0)) if op in ("div", "mod") else TRUE
                succ = land(ops, dom, imp(dom, inr(r)))
        L = [("leaves exactly the value of the binary expression", imp(e.normal, land(dom, t.ieq(e.after[0], r)))),
             ("returns the new value", imp(e.normal, t.ieq(t.bval(e.out[0], signed(S.ty)), e.after[0]))),
             ("succeeds if the expression does and its value is in range", imp(land(succ, ins(r)), e.normal)),
             ("a value outside the range of the object throws", imp(lnot(ins(r)), e.threw)),
             ("when it throws the object keeps its value", imp(e.threw, t.ieq(e.after[0], x)))]
        return L
    return posts


def idspec(p):
    return lambda S, form: _idspec(S, form, p)


def _idspec(S, form, p):
    d = 1 if "++" in form else -1

    def posts(e):
        x = e.A[0]
        r = t.iadd(x, d)
        ins = between(S.lo, r, S.hi)
        ret = r if form[0] != "x" else x
        # the built-in 1 is signed: the automatic policy computes x + 1 and x - 1 in a signed type
        rep = land(between(tmin("ll"), r, tmax("ll")), t.ile(x, tmax("ll"))) if p == "a" else TRUE
        return [("changes the value by exactly one", imp(e.normal, t.ieq(e.after[0], r))),
                ("returns the new respectively the old value", imp(e.normal, t.ieq(t.bval(e.out[0], signed(S.ty)), ret))),
                ("succeeds if the result is in range", imp(land(ins, rep), e.normal)),
                ("throws if the result is not in range", imp(lnot(ins), e.threw)),
                ("when it throws the object keeps its value", imp(e.threw, t.ieq(e.after[0], x)))]
    return posts


def bcompound(op, B, b, p="n", e="s"):
    """built-in target, safe operand"""
    nm = "%s_eqb_%s_%s_%s%s" % (op, B, b.tag(), p, e)
    P, X = POL[p], EXC[e]
    code = "typedef %s B_%s;\n" % (b.cls(P, X), nm)
    code += "META(%s, std::decay<decltype(std::declval<%s const &>() %s std::declval<B_%s const &>())>::type)\n" % (nm, cpp(B), OPC[op], nm)
    code += ('extern "C" void H_%s(%s & x, %s u, u64 * out){ B_%s b(u); auto && r = (x %s= b); out[0] = hv::ov(r); }\n'
             % (nm, cpp(B), cpp(b.ty), nm, OPC[op]))
    S = bi(B)
    return Case(nm, code, [S.arg(kind="obj", cls=cpp(B)), b.arg()], spec(op, S, b), fn=nm)


# the result's declared range and the object's do not meet: a compile-time error by design
SKIP = """add_eq_rsc_m7_m3_ull_n and_eq_rl_m9223372036854775808_m1_Sus_a and_eq_rsc_m7_m3_Sus_n and_eq_rsc_m7_m3_ull_a
div_eq_ri_10_20_ri_10_20_n div_eq_rl_m9223372036854775808_m1_rl_m9223372036854775808_m1_n div_eq_rsc_m7_m3_ull_n
mod_eq_rl_m9223372036854775808_m1_ull_n mul_eq_ri_10_20_ri_10_20_a mul_eq_rl_m9223372036854775808_m1_rl_m9223372036854775808_m1_a
mul_eq_rsc_m7_m3_rsc_m7_m3_n or_eq_rl_m9223372036854775808_m1_ull_n shl_eq_ri_10_20_ri_10_20_a shl_eq_rsc_m7_m3_rsc_m7_m3_n
sub_eq_rl_m9223372036854775808_m1_ull_n xor_eq_rl_m9223372036854775808_m1_ull_a xor_eq_rsc_m7_m3_ull_n
and_eq_rsc_m7_m3_Eu_a and_eq_rl_m9223372036854775808_m1_Eu_a""".split()
SKIP = {x[:-1] for x in SKIP}
OPS = ("add", "sub", "mul", "div", "mod", "shl", "shr", "or", "and", "xor")


def job(tier):
    cs = []
    full = [sf(k) for k in ALL + CHARS]
    for S in full + TARGETS:
        for form in ("++x", "--x", "x++", "x--"):
            for p in "na":
                if tier == "quick" and S.full and len(cs) % 2:
                    pass
                cs.append(incdec(S, form, p, "sl"[p == "a"], idspec(p)))
    for S in full + TARGETS:
        for oi, op in enumerate(OPS):
            for bi_, b in enumerate((bi("i"), sf(S.ty) if S.full else S, rs(-3, 9), bi("ull"), sf("us"), bi("sc"), sf("ll"))):
                for p in "na":
                    if tier == "quick" and bi_ and (bi_ + oi + (p == "a") + len(S.tag())) % 3:
                        continue
                    if possible(op, S, b):
                        cs.append(compound(op, S, b, p, "s", spec))
        for oi, op in enumerate(OPS):
            for bi_, b in enumerate(ENUMS + PROMOTED + [bi("b")]):
                if (bi_ + oi + len(cs)) % (5 if tier == "quick" else 2) == 0 and possible(op, S, b):
                    cs.append(compound(op, S, b, "na"[(bi_ + oi) % 2], "s", spec))
    for B in ("sc", "us", "i", "u", "ll", "ull"):
        for oi, op in enumerate(OPS):
            for b in (sf("i"), rs(-3, 9)):
                cs.append(bcompound(op, B, b, "na"[oi % 2], "s"))
    cs = [c for c in cs if c.name[:-2] not in SKIP]
    return Job("C21", cs, chunk=40, contracts=True)
