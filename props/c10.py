"""C10 interval arithmetic encloses every result

Per bound type R and operation, two kinds of cases:
  iv_<op>_<R>    (code) for all bounds, the result interval of the real operator
                 encloses the extended result of the operation on each of the
                 four pairs of bounds; + - % | & prove the enclosure of every
                 pair of members directly
  lem_<op>_<k>   (no code) a number that is not above (below) the results on the
                 four pairs of bounds is not above (below) the result on any pair
                 of members; stated over mathematical integers
Together they give the enclosure for every pair of members."""
from spec import *
import c08

H = c08.MK + '''
template<class T> static void bnd(const interval<checked_result<T>> & r, u64 * out){ hv::oc(r.l, out); hv::oc(r.u, out + 2); }
template<class T> static void ibnd(const interval<T> & r, u64 * out){ out[0] = 0; out[1] = (u64)r.l; out[2] = 0; out[3] = (u64)r.u; }
'''


class X:
    """extended number: fin with value v, pos, neg, or (none of them) undefined"""

    def __init__(self, fin, v, pos, neg):
        self.fin, self.v, self.pos, self.neg = fin, v, pos, neg


def bound(c, v):
    return X(t.ieq(c, OK), v, t.ieq(c, POS), t.ieq(c, NEG))


def gt0(a):
    return lor(a.pos, land(a.fin, t.igt(a.v, 0)))


def lt0(a):
    return lor(a.neg, land(a.fin, t.ilt(a.v, 0)))


def eq0(a):
    return land(a.fin, t.ieq(a.v, 0))


def xmul(a, b, f=t.imul):
    inf = lnot(land(a.fin, b.fin))
    z = lor(eq0(a), eq0(b))
    return X(lor(lnot(inf), z), ite(inf, t.ic(0), f(a.v, b.v)),
             land(inf, lor(land(gt0(a), gt0(b)), land(lt0(a), lt0(b)))),
             land(inf, lor(land(gt0(a), lt0(b)), land(lt0(a), gt0(b)))))


def xdiv(a, b, f=t.itdiv):
    inf = land(lnot(a.fin), b.fin)
    return X(a.fin, ite(b.fin, f(a.v, b.v), t.ic(0)),
             land(inf, lor(land(a.pos, gt0(b)), land(a.neg, lt0(b)))),
             land(inf, lor(land(a.pos, lt0(b)), land(a.neg, gt0(b)))))


def sh(x, k):
    """x * 2^k, truncated toward zero"""
    l, q = c08.shx(x, k)
    return ite(t.ige(k, 0), l, q)


def xsh(left, f=sh):
    def g(a, b):
        ninf, pinf = (b.neg, b.pos) if left else (b.pos, b.neg)
        return X(lor(eq0(a), land(a.fin, lnot(pinf))),
                 ite(land(a.fin, b.fin), f(a.v, b.v if left else t.ineg(b.v)), t.ic(0)),
                 lor(land(a.pos, lnot(ninf)), land(a.fin, t.igt(a.v, 0), pinf)),
                 lor(land(a.neg, lnot(ninf)), land(a.fin, t.ilt(a.v, 0), pinf)))
    return g


def lim(R):
    return R if isinstance(R, tuple) else (tmin(R), tmax(R))


def below(c, v, x, R, minok=False):
    """the lower bound (c, v) is not above x"""
    return land(imp(t.ieq(c, OK), land(lnot(x.neg), imp(x.fin, t.ile(v, x.v)))),
                imp(t.ieq(c, POS), land(lnot(x.neg), imp(x.fin, t.igt(x.v, lim(R)[1])))))


def above(c, v, x, R, minok=False):
    """the upper bound (c, v) is not below x; the minimum may count as an overflow below (C08)"""
    le = t.ile if minok else t.ilt
    return land(imp(t.ieq(c, OK), land(lnot(x.pos), imp(x.fin, t.ile(x.v, v)))),
                imp(t.ieq(c, NEG), land(lnot(x.pos), imp(x.fin, le(x.v, lim(R)[0])))))


def fin(v):
    return X(TRUE, v, FALSE, FALSE)


def bounds_ok(c, v):
    """[l, u]: l a value or minus infinity, u a value or plus infinity, l <= u"""
    return land(lor(t.ieq(c[0], OK), t.ieq(c[0], NEG)), lor(t.ieq(c[1], OK), t.ieq(c[1], POS)),
                imp(land(t.ieq(c[0], OK), t.ieq(c[1], OK)), t.ile(v[0], v[1])))


def member(c, v, x):
    return land(imp(t.ieq(c[0], OK), t.ile(v[0], x)), imp(t.ieq(c[1], OK), t.ile(x, v[1])))


def nozero(c, v):
    return lor(land(t.ieq(c[0], OK), t.igt(v[0], 0)), land(t.ieq(c[1], OK), t.ilt(v[1], 0)))


def corners(op, c, v):
    return [op(bound(c[i], v[i]), bound(c[j], v[j])) for i in (0, 1) for j in (2, 3)]


def code_case(name, sym, R, posts, div=False, extra=0, plain=False):
    """posts(c, v, lc, lv, uc, uv, extra args)"""
    nm = "iv_%s_%s%s" % (name, R, "_plain" if plain else "")
    Rc = cpp(R)
    args = []
    if plain:
        sig = ["%s v%d" % (Rc, k) for k in range(4)]
        b = ["v%d" % k for k in range(4)]
        T = Rc
        args = [Arg(R)] * 4
    else:
        sig = ["unsigned char c%d, %s v%d" % (k, Rc, k) for k in range(4)]
        b = ["mk<%s>(c%d, v%d)" % (Rc, k, k) for k in range(4)]
        T = "checked_result<%s>" % Rc
        args = [Arg("uc", 0, 2), Arg(R)] * 4
    sig += ["%s x%d" % (Rc, k) for k in range(extra)]
    args = args + [Arg(R)] * extra
    use = "".join("(void)x%d; " % k for k in range(extra))
    code = '''extern "C" void H_%s(%s, u64 * out){
    const %s l0 = %s, u0 = %s, l1 = %s, u1 = %s;
    const interval<%s> t(l0, u0), u(l1, u1);
    %s%s(t %s u, out); }
''' % (nm, ", ".join(sig), T, b[0], b[1], b[2], b[3], T, use, "ibnd" if plain else "bnd", sym)

    def cv(e):
        if plain:
            return [t.ic(0)] * 4, e.A[:4], e.A[4:]
        return [e.A[2 * k] for k in range(4)], [e.A[2 * k + 1] for k in range(4)], e.A[8:]

    def pre(e):
        c, v, _ = cv(e)
        p = land(bounds_ok(c[:2], v[:2]), bounds_ok(c[2:], v[2:]))
        return land(p, nozero(c[2:], v[2:])) if div else p

    def po(e):
        c, v, x = cv(e)
        lc, lv, uc, uv = t.S(e.out[0]), t.bval(e.out[1], signed(R)), t.S(e.out[2]), t.bval(e.out[3], signed(R))
        return [("returns normally", e.normal)] + posts(c, v, lc, lv, uc, uv, x)
    return Case(nm, code, args, po, nout=4, meta=False, pre=pre, pre_args=True,
                fn="operator%s(interval<%s>, ...)" % (sym, T))


def corner_case(name, sym, R, op, div=False, minok=False):
    W = ("lower-lower", "lower-upper", "upper-lower", "upper-upper")

    def posts(c, v, lc, lv, uc, uv, x):
        r = []
        for w, y in zip(W, corners(op, c, v)):
            r.append(("the result's lower bound is not above the result for the %s bounds" % w, below(lc, lv, y, R, minok)))
            r.append(("the result's upper bound is not below the result for the %s bounds" % w, above(uc, uv, y, R, minok)))
        return r
    return code_case(name, sym, R, posts, div)


def member_case(name, sym, R, f, cond=None, plain=False):
    def posts(c, v, lc, lv, uc, uv, x):
        m = land(member(c[:2], v[:2], x[0]), member(c[2:], v[2:], x[1]))
        if cond:
            m = land(m, cond(*x))
        y = fin(f(*x))
        return [("the lower bound is not above the result for any members", imp(m, below(lc, lv, y, R))),
                ("the upper bound is not below the result for any members", imp(m, above(uc, uv, y, R)))]
    return code_case(name, sym, R, posts, False, 2, plain)


def tight(name, sym, R, plain):
    """union and intersection"""
    mx = sym == "|"

    def posts(c, v, lc, lv, uc, uv, x):
        b = [bound(k, w) for k, w in zip(c, v)]

        def pick(p, q, rc, rv, least):
            # p <= q as extended numbers
            le = lor(p.neg, q.pos, land(p.fin, q.fin, t.ile(p.v, q.v)))
            sel = le if least else lnot(le)
            def same(z):
                return ite(z.fin, land(t.ieq(rc, OK), t.ieq(rv, z.v)), ite(z.pos, t.ieq(rc, POS), t.ieq(rc, NEG)))
            return ite(sel, same(p), same(q))
        return [("exactly the smaller lower bound" if mx else "exactly the larger lower bound", pick(b[0], b[2], lc, lv, mx)),
                ("exactly the larger upper bound" if mx else "exactly the smaller upper bound", pick(b[1], b[3], uc, uv, not mx))]
    return code_case(name, sym, R, posts, False, 0, plain)


def lemma(name, n, mk, note):
    """mk(I) -> (hypothesis, goals) over n mathematical integers I"""
    code = 'extern "C" void H_lem_%s(u64 * out){ out[0] = 0; }\n' % name
    V = [t.mk("ivar", (), t.INT, "n%d" % k) for k in range(n)]

    def posts(e):
        h, gs = mk(V)
        return [(l, imp(h, g)) for l, g in gs]
    return Case("lem_" + name, code, [], posts, meta=False, fn="lemma " + note)


def corner_lemma(name, op0, cs, div=False, minok=False, split=False, fun=False):
    """cs: which bounds are infinite; split: via the pairs of a member of t and a bound of u"""
    def mk(V):
        v, x, y, lv, uv = V[:4], V[4], V[5], V[6], V[7]
        R = (V[8], V[9])
        c = [t.ic(k) for k in cs]
        F = Fun(name) if fun else None
        op = op0(F) if fun else op0
        h = land(member(c[:2], v[:2], x), member(c[2:], v[2:], y))
        if div:
            h = land(h, nozero(c[2:], v[2:]))
        ks = corners(op, c, v)
        r = op(fin(x), fin(y))
        mid = [op(fin(x), bound(c[2], v[2])), op(fin(x), bound(c[3], v[3]))]
        if fun:
            h = land(h, F.facts())
        gs = []
        for bd, z, codes in ((below, lv, (OK, POS)), (above, uv, (OK, NEG))):
            for code in codes:
                k = t.ic(code)
                nm = "%s bound (%s)" % ("lower" if bd is below else "upper", "value" if code == OK else "overflow")
                c4 = land(*[bd(k, z, w, R, minok) for w in ks])
                cm = land(*[bd(k, z, w, R, minok) for w in mid])
                g = bd(k, z, r, R, minok)
                if split:
                    g1, g2 = imp(land(h, c4), cm), imp(land(h, cm), g)
                    gs += [(nm + ": bounds of t", g1), (nm + ": bounds of u", g2), (nm, imp(land(g1, g2, c4), g))]
                else:
                    gs.append((nm, imp(c4, g)))
        return h, gs
    return lemma(name, 10, mk, "corners of " + name)


class Fun:
    """a function of two integers of which only the listed monotonicity facts (lem_sh_*) are known"""

    def __init__(self, tag):
        self.tag, self.v = tag, {}

    def __call__(self, x, k):
        x, k = t.I(x), t.I(k)
        z = self.v.get((x.id, k.id))
        if z is None:
            z = self.v[(x.id, k.id)] = (t.mk("ivar", (), t.INT, "%s%d" % (self.tag, len(self.v))), x, k)
        return z[0]

    def facts(self):
        r = []
        L = list(self.v.values())
        for z1, x1, k1 in L:
            for z2, x2, k2 in L:
                if k1 is k2 and x1 is not x2:
                    r.append(imp(t.ile(x1, x2), t.ile(z1, z2)))
                if x1 is x2 and k1 is not k2:
                    r.append(imp(land(t.ile(0, x1), t.ile(k1, k2)), t.ile(z1, z2)))
                    r.append(imp(land(t.ile(x1, 0), t.ile(k1, k2)), t.ile(z2, z1)))
            r += [imp(t.ieq(x1, 0), t.ieq(z1, 0)), imp(t.ieq(k1, 0), t.ieq(z1, x1)),
                  imp(t.ile(0, x1), t.ile(0, z1)), imp(t.ile(x1, 0), t.ile(z1, 0))]
        return land(*r)


def sh_facts():
    """the facts of Fun hold for sh, for all numbers of at most 64 bits and a sign"""
    code = 'extern "C" void H_lem_sh_%s(u64 * out){ out[0] = 0; }\n'

    def num(n):
        return ite(t.bvar(n + "s"), t.U(t.var(n, 64)), t.ineg(t.U(t.var(n, 64))))
    x, y, a, b = [num(n) for n in "xyab"]
    gs = [("x_up", imp(land(t.ile(x, y), t.ile(0, a)), t.ile(sh(x, a), sh(y, a)))),
          ("x_down", imp(land(t.ile(x, y), t.ilt(a, 0)), t.ile(sh(x, a), sh(y, a)))),
          ("k_pos", imp(land(t.ile(0, x), t.ile(a, b)), t.ile(sh(x, a), sh(x, b)))),
          ("k_neg", imp(land(t.ile(x, 0), t.ile(a, b)), t.ile(sh(x, b), sh(x, a)))),
          ("zero", imp(t.ieq(x, 0), t.ieq(sh(x, a), 0))), ("none", imp(t.ieq(a, 0), t.ieq(sh(x, a), x))),
          ("sign", land(imp(t.ile(0, x), t.ile(0, sh(x, a))), imp(t.ile(x, 0), t.ile(sh(x, a), 0))))]
    return [Case("lem_sh_" + n, code % n, [], lambda e, g=g: [("shift fact", g)], meta=False, budget=90,
                 fn="lemma on x*2^k") for n, g in gs]


def job(tier):
    cs = []
    for R in ALL:
        cs += [member_case("add", "+", R, t.iadd), member_case("sub", "-", R, t.isub),
               member_case("mod", "%", R, t.itmod, lambda x, y: lnot(t.ieq(y, 0))),
               member_case("mod", "%", R, t.itmod, lambda x, y: lnot(t.ieq(y, 0)), plain=True),
               corner_case("mul", "*", R, xmul), corner_case("div", "/", R, xdiv, True),
               corner_case("shl", "<<", R, xsh(True), minok=True), corner_case("shr", ">>", R, xsh(False), minok=True)]
        for p in (False, True):
            cs += [tight("or", "|", R, p), tight("and", "&", R, p)]
    for k, inf in enumerate([(a, b, c, d) for a in (OK, NEG) for b in (OK, POS) for c in (OK, NEG) for d in (OK, POS)]):
        w = "".join("vi"[x != OK] for x in inf)
        cs.append(corner_lemma("mul_" + w, xmul, inf))
        cs.append(corner_lemma("div_" + w, xdiv, inf, div=True, split=True))
        cs.append(corner_lemma("shl_" + w, lambda F: xsh(True, F), inf, minok=True, split=True, fun=True))
        cs.append(corner_lemma("shr_" + w, lambda F: xsh(False, F), inf, minok=True, split=True, fun=True))
    cs += sh_facts()
    return Job("C10", cs, header=H, chunk=3, contracts=True)
