"""C23 extracting a safe value from a stream stores a valid value or reports an error"""
from safeops import *
import ir, execu, vc
import c12
vc.TYPES.setdefault("w", ("wchar_t", 32, True))

# The stream is an environment: hv_stream(mode, negative, magnitude, character?) delivers
#   mode 0: a good stream whose next token is the decimal text of the value (or that character)
#   else  : a stream from which no value can be extracted (text that is no number, a number no type
#           can hold, end of input, an earlier failure)
# In the proof it is the model below; in a replay it is a real istringstream.
HEADER = r"""
#include <istream>
extern "C" std::istream & hv_stream(unsigned char mode, unsigned char neg, u64 mag, int chr);
#ifdef HV_REPLAY
#include <sstream>
#include <string>
extern "C" std::istream & hv_stream(unsigned char mode, unsigned char neg, u64 mag, int chr){
    std::string s = std::to_string(mag);
    if(neg) s = "-" + s;
    if(chr) s = std::string(1, (char)(neg ? -(int)mag : (int)mag));
    if(mode == 0 && ! chr && mag % 3 == 1) s = "  " + s;
    if(mode == 0 && ! chr && mag % 5 == 1) s += " 77";
    if(mode && ! chr) switch(mode % 6){
        case 1: s = "abc"; break;
        case 2: s = ""; break;
        case 4: s = "1234567890123456789012345678901234567890"; break;
        case 5: s = "-1234567890123456789012345678901234567890"; break;
        case 0: s = "-"; break;
    }
    std::istringstream * is = new std::istringstream(mode && chr && mode % 2 ? "" : s);
    if(mode && (chr ? mode % 2 == 0 : mode % 6 == 3)) is->setstate(std::ios_base::failbit);
    return * is;
}
#endif
"""
BAD, EOF, FAIL = 1, 2, 4
READ = {"c": None, "_ZNSirsERs": "s", "_ZNSirsERt": "us", "_ZNSirsERi": "i", "_ZNSirsERj": "u", "_ZNSirsERl": "l",
        "_ZNSirsERm": "ul", "_ZNSirsERx": "ll", "_ZNSirsERy": "ull"}
IOS = "_ZNKSt9basic_iosIcSt11char_traitsIcEE"


def stream_models(off, chr_):
    """off: index of the first of the arguments mode, negative, magnitude"""
    def hook(ctx, e, st):
        g = {}
        B = lambda v: t.bv(v, 32)

        def value():
            m = t.U(e.a[off + 2])
            return ite(t.ieq(e.A[off + 1], 0), m, t.isub(t.ic(0), m))

        def mk(ctx, st, name, args, i):
            ctx.trusted.add("model of std::istream: extraction, ws, peek, iostate ([istream], C++11 num_get failure rules)")
            vt = ctx.new(st, 64, "istream vtable", {8: (8, t.bv(16, 64))})
            s = ctx.new(st, 64, "istream", {0: (8, execu.P1(vt, 32))})
            init = t.fresh("iostate", 32)
            good = t.eq(e.a[off], t.bv(0, 8))
            g["st"] = ctx.new(st, 4, "iostate", {0: (4, ite(good, B(0), t.band(init, B(7)))), 4: (4, t.fresh("blank", 32))})
            g["good"] = good
            return (st, execu.P1(s), [])

        def state(st):
            return ctx.rawload(ctx.mem(st, g["st"]), 0, 4)

        def blank(st):
            # leading white space not skipped yet
            return lnot(t.eq(ctx.rawload(ctx.mem(st, g["st"]), 4, 4), B(0)))

        def setstate(st, v, skipped=False):
            b = B(0) if skipped else ctx.rawload(ctx.mem(st, g["st"]), 4, 4)
            st.mem[g["st"]] = {0: (4, v), 4: (4, b)}

        def has(v, bits_):
            return lnot(t.eq(t.band(v, B(bits_)), B(0)))

        def read(T):
            def h(ctx, st, name, args, i):
                if "st" not in g:
                    return None
                n, sg = bits(T), signed(T)
                s = state(st)
                dst = args[1]
                old = ctx.load(st, dst, ir.INTT(n))
                some = t.fresh("extracted", n)
                if chr_:
                    v = value()
                    fits, x = TRUE, t.i2b(v, n)
                    ok = TRUE
                else:
                    v = value()
                    lo, hi = tmin(T), tmax(T)
                    ok = between(lo, v, hi)
                    x = t.i2b(v, n)
                    if not sg:
                        # strtoull semantics: the magnitude must fit, the result is negated modulo 2^n
                        ok = between(-hi, v, hi)
                    lim = ite(t.ile(0, v), t.bv(hi, n), t.bv(lo if sg else hi, n))
                    x = ite(ok, x, lim)
                entry = t.eq(s, B(0))                     # sentry: anything but goodbit fails the extraction
                if getattr(old, "op", None) is None or isinstance(old, execu.Ptr):
                    old = t.fresh("old", n)
                good = land(entry, g["good"])
                new = ite(good, x, old if chr_ else ite(entry, some, old))
                ctx.store(st, dst, ir.INTT(n), new)
                fail = lnot(land(good, ok))
                eof = t.band(t.fresh("eof", 32), B(EOF))
                setstate(st, t.bor(t.bor(s, eof), ite(fail, B(FAIL), B(0))), True)
                return (st, args[0], [])
            return h

        def char_read(ctx, st, name, args, i):
            if not chr_:
                return None
            return read("c")(ctx, st, name, args, i)

        def ws(ctx, st, name, args, i):
            # std::ws: only a stream without a token can reach the end of input (or fail)
            s = state(st)
            setstate(st, ite(g["good"], s, t.bor(s, t.band(t.fresh("ws", 32), B(7)))), True)
            return (st, args[0], [])

        def ws_manip(ctx, st, name, args, i):
            f = args[1].alts[0][1]
            if len(args[1].alts) == 1 and isinstance(f, tuple) and f[1].startswith("_ZSt2ws"):
                return ws(ctx, st, name, args, i)
            return None

        def peek(ctx, st, name, args, i):
            s = state(st)
            good = land(t.eq(s, B(0)), g["good"])
            d = t.fresh("next", 32)
            if chr_:
                c = t.zext(t.extract(e.a[off + 2], 7, 0), 32)
                neg = t.zext(t.sub(t.bv(0, 8), t.extract(e.a[off + 2], 7, 0)), 32)
                nxt = ite(t.ieq(e.A[off + 1], 0), c, neg)
            else:
                ctx.assumes.append(imp(good, imp(t.ieq(e.A[off + 1], 0), between(48, t.S(d), 57))))
                nxt = ite(t.ieq(e.A[off + 1], 0), d, B(45))
            sp = t.fresh("space", 32)
            ctx.assumes.append(lor(t.eq(sp, B(32)), between(9, t.S(sp), 13)))
            nxt = ite(blank(st), sp, nxt)
            other = t.fresh("peeked", 32)
            setstate(st, ite(good, s, t.bor(s, t.band(t.fresh("pk", 32), B(7)))))
            return (st, ite(good, nxt, other), [])

        def set_(ctx, st, name, args, i):
            setstate(st, t.bor(state(st), args[1]))
            return (st, None, [])

        def clear(ctx, st, name, args, i):
            setstate(st, args[1])
            return (st, None, [])

        def test(f):
            return lambda ctx, st, name, args, i: (st, f(state(st)), [])
        em = ctx.env_models
        em["hv_stream"] = mk
        for nm, T in READ.items():
            if T:
                em[nm] = read(T)
        em["_ZStrsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_RS3_"] = char_read
        em["_ZNSirsEPFRSiS_E"] = ws_manip
        em["_ZSt2wsIc"] = ws
        em["_ZNSi4peekEv"] = peek
        em["_ZNSt9basic_iosIcSt11char_traitsIcEE8setstateE"] = set_
        em["_ZNSt9basic_iosIcSt11char_traitsIcEE5clearE"] = clear
        em[IOS + "4failEv"] = test(lambda s: t.b1(has(s, BAD | FAIL)))
        em[IOS + "ntEv"] = test(lambda s: t.b1(has(s, BAD | FAIL)))
        em[IOS + "cvbEv"] = test(lambda s: t.b1(lnot(has(s, BAD | FAIL))))
        em[IOS + "3badEv"] = test(lambda s: t.b1(has(s, BAD)))
        em[IOS + "3eofEv"] = test(lambda s: t.b1(has(s, EOF)))
        em[IOS + "4goodEv"] = test(lambda s: t.b1(t.eq(s, B(0))))
        em[IOS + "7rdstateEv"] = test(lambda s: s)
    return hook


def args(S):
    near = {abs(x + d) for x in (S.lo, S.hi, 0) for d in (-2, -1, 0, 1, 2)} | {5, 9, 10, 11, 21, 99, 255}
    return [Arg("uc", pool=(0, 0, 0, 1, 2, 3, 4, 5)), Arg("uc", 0, 1), Arg("ull", pool=sorted(x for x in near if x < 1 << 64))]


def value(e, k):
    m = t.U(e.a[k + 2])
    return ite(t.ieq(e.A[k + 1], 0), m, t.isub(t.ic(0), m))


def posts(S, x):
    def f(e):
        v = value(e, 1)
        good = t.ieq(e.A[1], 0)
        inr = between(S.lo, v, S.hi)
        now, old = e.after[0], e.A[0]
        L = [("a value in range is stored", imp(land(good, inr), land(e.normal, t.ieq(now, v)))),
             ("a failed extraction leaves the object as it was", imp(lnot(good), t.ieq(now, old)))]
        if x in "sl":
            L += [("the object stays inside its declared range", between(S.lo, now, S.hi)),
                  ("a value out of range leaves the object as it was", imp(lnot(inr), t.ieq(now, old))),
                  ("a value out of range or a failed extraction is an error", imp(lnot(land(good, inr)), e.threw)),
                  ("arithmetic error code for the direction", imp(land(good, lnot(inr)), ite(
                      t.igt(v, S.hi), lor(t.ieq(e.code, POS), t.ieq(e.code, DOM)),
                      lor(t.ieq(e.code, NEG), t.ieq(e.code, DOM))))),
                  ("a failed extraction is a domain error", imp(lnot(good), t.ieq(e.code, DOM)))]
        else:
            L.append(("returns", e.normal))
        return L
    return f


def pre(chr_):
    def f(e):
        v = value(e, 1)
        p = lnot(land(t.ieq(e.A[2], 1), t.ieq(v, 0)))
        if chr_:
            # a character that is not white space
            p = land(p, between(-128, v, 127), lnot(between(9, v, 13)), lnot(t.ieq(v, 32)))
        return p
    return f


def read(S, p, x, form=0):
    chr_ = S.ty == "c"
    nm = "read_%s_%s%s%s" % (S.tag(), p, x, "v" if form else "")
    code = "typedef %s S_%s;\n" % (S.cls(POL[p], EXC[x]), nm)
    body = "std::istream & s = hv_stream(mode, neg, mag, %d); s >> x;" % chr_
    code += 'extern "C" void H_%s(S_%s & x, unsigned char mode, unsigned char neg, u64 mag, u64 * out){ %s }\n' % (nm, nm, body)
    c = Case(nm, code, [S.arg(kind="obj", cls="S_" + nm)] + args(S), posts(S, x), meta=False, fn="operator>>(istream, %s)" % S.tag(),
             ctx=stream_models(1, chr_), native=True, pre=pre(chr_))
    return c


def job(tier):
    cs = []
    T = [sf(k) for k in ALL] + c12.TARGETS
    T += [rg("w", 0, 1000), rg("c", -5, 100), rg("c", 48, 57), rg("sc", 1, 9), rg("uc", 200, 210), rg("us", 40000, 60000),
          rg("ul", 5, (1 << 63) + 5), rg("l", -(1 << 40), 1 << 40), rg("ull", 0, 100), rg("u", 7, 7), rg("s", -3, -1)]
    for S in T:
        for n, (p, x) in enumerate((("n", "s"), ("a", "l"), ("c", "i"))):
            if tier == "quick" and n == 1 and len(cs) % 2:
                continue
            cs.append(read(S, p, x))
    return Job("C23", cs, header=HEADER, chunk=12, contracts=None)
