"""C26 writing a safe value to a stream writes the number it holds"""
from safeops import *
import ir, execu, vc
import c12

# The stream is an environment.  In the proof it is the model below, which records what is inserted
# (numbers as numbers, characters as characters); in a replay it is a real ostringstream and the text
# written is compared with the text expected.
HEADER = r"""
#include <iosfwd>
#include <ostream>
#include <boost/safe_numerics/range_value.hpp>
extern "C" std::ostream & hv_ostream();
extern "C" std::wostream & hv_wostream();
extern "C" u64 hv_written(std::ostream & os);
extern "C" u64 hv_wwritten(std::wostream & os);
#ifdef HV_REPLAY
#include <sstream>
#include <string>
extern "C" std::ostream & hv_ostream(){ return * new std::ostringstream(); }
extern "C" std::wostream & hv_wostream(){ return * new std::wostringstream(); }
namespace hv {
inline bool same(std::ostream & os, const std::string & s){ return static_cast<std::ostringstream &>(os).str() == s; }
inline bool same(std::wostream & os, const std::string & s){ return static_cast<std::wostringstream &>(os).str() == std::wstring(s.begin(), s.end()); }
template<class T> std::string num(const T & x){ return std::to_string(+base_value(x)); }
}
#define HV_WRITTEN(os, ...) hv::same(os, __VA_ARGS__)
#define HV_WWRITTEN(os, ...) hv::same(os, __VA_ARGS__)
#else
#define HV_WRITTEN(os, ...) hv_written(os)
#define HV_WWRITTEN(os, ...) hv_wwritten(os)
#endif
"""
NUM, CHR = 1, 2
INTS = {"b": "bool", "s": "s", "t": "us", "i": "i", "j": "u", "l": "l", "m": "ul", "x": "ll", "y": "ull"}
SLOTS = 12


def models(expected):
    """expected(e): the items that must be written, numbers (terms) and characters"""
    def hook(ctx, e, st):
        g = {}

        def mk(ctx, st, name, args, i):
            ctx.trusted.add("model of std::ostream: operator<< of integers and characters appends the number or the character")
            vt = ctx.new(st, 64, "ostream vtable", {8: (8, t.bv(16, 64))})
            s = ctx.new(st, 64, "ostream", {0: (8, execu.P1(vt, 32))})
            d = {0: (4, t.bv(0, 32))}
            for k in range(SLOTS):
                d[16 + 32 * k] = (4, t.bv(0, 32))
                d[24 + 32 * k] = (8, t.bv(0, 64))
                d[32 + 32 * k] = (4, t.bv(0, 32))
            g["log"], g["os"] = ctx.new(st, 16 + 32 * SLOTS, "ostream log", d), s
            return (st, execu.P1(s), [])

        def append(ctx, st, kind, v, sg):
            d = dict(ctx.mem(st, g["log"]))
            n = d[0][1]
            for k in range(SLOTS):
                here = t.eq(n, t.bv(k, 32))
                if here is FALSE:
                    continue
                for off, x, w in ((16, t.bv(kind, 32), 4), (24, v, 8), (32, t.bv(int(sg), 32), 4)):
                    o = off + 32 * k
                    d[o] = (w, ite(here, x, d[o][1]))
            d[0] = (4, t.add(n, t.bv(1, 32)))
            st.mem[g["log"]] = d

        def ours(args):
            a = args[0].alts
            return "log" in g and len(a) == 1 and a[0][1] == g["os"]

        def number(n, sg):
            def h(ctx, st, name, args, i):
                if not ours(args):
                    return None
                v = args[1]
                if v.sort > n:
                    v = t.extract(v, n - 1, 0)
                append(ctx, st, NUM, (t.sext if sg else t.zext)(v, 64) if v.sort < 64 else v, sg)
                return (st, args[0], [])
            return h

        def char(ctx, st, name, args, i):
            if not ours(args):
                return None
            v = args[1]
            append(ctx, st, CHR, t.zext(v, 64) if v.sort < 64 else v, False)
            return (st, args[0], [])

        def text(ctx, st, name, args, i):
            if not ours(args):
                return None
            p = args[1]
            for k in range(SLOTS):
                c = ctx.load(st, ctx.padd(p, k, []), ir.INTT(8))
                if not t.isc(c):
                    return None
                if c.aux == 0:
                    return (st, args[0], [])
                append(ctx, st, CHR, t.zext(c, 64), False)
            return None

        def written(ctx, st, name, args, i):
            if not ours(args):
                return None
            d = ctx.mem(st, g["log"])
            want = expected(e)
            ok = t.eq(d[0][1], t.bv(len(want), 32))
            for k, w in enumerate(want):
                kind, v, sg = (d[o + 32 * k][1] for o in (16, 24, 32))
                if isinstance(w, str):
                    ok = land(ok, t.eq(kind, t.bv(CHR, 32)), t.eq(v, t.bv(ord(w), 64)))
                else:
                    x = ite(t.eq(sg, t.bv(1, 32)), t.S(v), t.U(v))
                    ok = land(ok, t.eq(kind, t.bv(NUM, 32)), t.ieq(x, w))
            return (st, ite(ok, t.bv(1, 64), t.bv(0, 64)), [])
        em = ctx.env_models
        em["hv_ostream"] = mk
        em["hv_wostream"] = mk
        em["hv_written"] = written
        em["hv_wwritten"] = written
        for k, T in INTS.items():
            n, sg = (1, False) if T == "bool" else (bits(T), signed(T))
            em["_ZNSolsE" + k] = number(n, sg)
            em["_ZNSt13basic_ostreamIwSt11char_traitsIwEElsE" + k] = number(n, sg)
        for k in "cah":
            em["_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_" + k] = char
        for k in "cw":
            em["_ZStlsIwSt11char_traitsIwEERSt13basic_ostreamIT_T0_ES6_" + k] = char
        em["_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc"] = text
        em["_ZStlsIwSt11char_traitsIwEERSt13basic_ostreamIT_T0_ES6_PKc"] = text
        em["_ZNSo3putEc"] = char
    return hook


def posts(e):
    return [("returns", e.normal), ("writes exactly the number", t.ieq(e.o(0), 1)), ("returns the stream", t.ieq(e.o(1), 1))]


def case(nm, decl, expr, text, args, expected, wide, fn, pre=None):
    """args: [(type, name)] ; text: the C++ expression of the text expected"""
    w = "w" if wide else ""
    params = "".join("%s, " % p for _, p in args)
    code = 'extern "C" void H_%s(%su64 * out){ %s std::%sostream & os = hv_%sostream(); std::%sostream & r = os << %s; out[1] = &r == &os; out[0] = HV_%sWRITTEN(os, %s); }\n' % (
        nm, params, decl, w, w, w, expr, w.upper(), text)
    return Case(nm, code, [a for a, _ in args], posts, nout=2, meta=False, fn=fn, ctx=models(expected), native=True, pre=pre)


def safe(S, p, x, wide, form):
    nm = "out_%s_%s%s%s%d" % (S.tag(), p, x, "w" if wide else "", form)
    cls = "S_" + nm
    decl = "%s v(a, %s::skip_validation());" % (cls, cls)
    if form == 1:
        decl = "const " + decl
    expr = ("v", "v", "%s(a, %s::skip_validation())" % (cls, cls))[form]
    c = case(nm, decl, expr, "hv::num(a)", [(Arg(S.ty, S.lo, S.hi), vc.TYPES[S.ty][0] + " a")], lambda e: [e.A[0]], wide,
             "operator<<(ostream, %s)" % S.tag())
    c.code = "typedef %s S_%s;\n" % (S.cls(POL[p], EXC[x]), nm) + c.code
    return c


def literal(ty, n, wide):
    nm = "outlit_%s_%s%s" % (ty, str(n).replace("-", "m"), "w" if wide else "")
    cls = "safe_%s_literal<%s>" % ("signed" if signed(ty) else "unsigned", lit(n, "ll" if signed(ty) else "ull"))
    return case(nm, "%s v;" % cls, "v", '"%d"' % n, [], lambda e: [t.ic(n)], wide, "operator<<(ostream, %s)" % cls)


def result(ty, wide):
    nm = "outres_%s%s" % (ty, "w" if wide else "")
    T = vc.TYPES[ty][0]
    return case(nm, "checked_result<%s> v(a);" % T, "v", '"0" + hv::num(a)', [(Arg(ty), T + " a")], lambda e: [t.ic(0), e.A[0]], wide,
                "operator<<(ostream, checked_result<%s>)" % T)


def inter(ty, wide):
    nm = "outint_%s%s" % (ty, "w" if wide else "")
    T = vc.TYPES[ty][0]
    return case(nm, "interval<%s> v(a, b);" % T, "v", '"[" + hv::num(a) + "," + hv::num(b) + "]"', [(Arg(ty), T + " a"), (Arg(ty), T + " b")],
                lambda e: ["[", e.A[0], ",", e.A[1], "]"], wide, "operator<<(ostream, interval<%s>)" % T, pre=lambda e: t.ile(e.A[0], e.A[1]))


def ranged(S, wide):
    nm = "outrv_%s%s" % (S.tag(), "w" if wide else "")
    T = vc.TYPES[S.ty][0]
    cls = S.cls("native", EXC["s"]) if S.safe else T
    decl = "%s v(a%s);" % (cls, ", %s::skip_validation()" % cls if S.safe else "")
    return case(nm, decl, "make_range_value(v)", '"[%d,%d]" + hv::num(a)' % (S.lo, S.hi), [(Arg(S.ty, S.lo, S.hi), T + " a")],
                lambda e: ["[", t.ic(S.lo), ",", t.ic(S.hi), "]", e.A[0]], wide, "operator<<(ostream, range_value<%s>)" % S.tag())


def job(tier):
    cs = []
    quick = tier == "quick"
    T = [sf(k) for k in ALL + CHARS] + c12.TARGETS + GRID
    for n, S in enumerate(T):
        for k, (p, x) in enumerate((("n", "s"), ("a", "l"), ("c", "i"))):
            for wide in (False, True):
                if not wide or n % 3 == k or not quick:
                    cs.append(safe(S, p, x, wide, (n + k) % 3))
    for n in (0, 1, 7, 65, 127, 128, 255, 256, 32767, 40000, 65535, 65536, (1 << 31) - 1, 1 << 31, 1 << 40, (1 << 63) - 1):
        for sg in "iu":
            for wide in (False, True):
                cs.append(literal(sg, n, wide))
    for n in (1 << 63, (1 << 64) - 1):
        cs.append(literal("u", n, False))
    for n in (-1, -65, -128, -129, -32768, -32769, -(1 << 31), -(1 << 40)):
        cs.append(literal("i", n, False))
    for ty in ("sc", "s", "us", "i", "u", "l", "ul", "ll", "ull"):
        for wide in (False, True):
            if not wide:
                # on a wide stream it does not compile (std::string inserted)
                cs.append(result(ty, wide))
            cs.append(inter(ty, wide))
            if ty != "sc":
                cs.append(ranged(bi(ty), wide))
    cs.append(inter("uc", False))
    cs.append(inter("uc", True))
    for n, S in enumerate(T):
        if S.ty not in ("c", "w", "c2", "c4", "uc", "sc") and (n % 2 == 0 or not quick):
            cs.append(ranged(S, n % 2 == 1))
    return Job("C26", cs, header=HEADER, chunk=30, contracts=None)
