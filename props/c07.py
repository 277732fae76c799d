"""C07 bit-length utilities, minmax, stored types"""
from spec import *
import random


def sb_spec(e, R):
    """1 + index of the highest bit that differs from the sign bit"""
    x = e.A[0]
    m = ite(t.ilt(x, 0), t.isub(t.ineg(x), 1), x)
    r = t.ic(1)
    for k in range(1, 64):
        r = ite(t.ile(1 << k, m), t.ic(k + 1), r)
    return r


def sb(R):
    nm = "significant_bits_" + R
    code = 'extern "C" void H_%s(%s t, u64 * out){ out[0] = utility::significant_bits(t); }\n' % (nm, cpp(R))
    return Case(nm, code, [Arg(R)], lambda e: [
        ("returns normally", e.normal),
        ("one plus the index of the highest bit that differs from the sign bit", t.ieq(e.o(0), sb_spec(e, R)))],
        meta=False, fn="utility::significant_bits<%s>" % cpp(R))


def ro(R):
    nm = "round_out_" + R
    code = 'extern "C" void H_%s(%s t, u64 * out){ out[0] = (u64)utility::round_out(t); }\n' % (nm, cpp(R))

    def posts(e):
        r = t.bval(e.out[0], False)
        allones = lor(*[t.ieq(r, (1 << k) - 1) for k in range(0, 65)])
        x = e.A[0]
        # needs no more bits than the value: below the next power of two
        small = t.ilt(r, ite(t.ieq(x, 0), t.ic(2), t.imul(x, 2)))
        return [("returns normally", e.normal), ("all ones", allones), ("at least as large", t.ile(x, r)),
                ("needs no more bits", small), ("representable in the type", t.ile(r, tmax(R)))]
    return Case(nm, code, [Arg(R, lo=0)], posts, meta=False, fn="utility::round_out<%s>" % cpp(R))


def mm(R, n):
    nm = "minmax_%s_%d" % (R, n)
    ps = ", ".join("%s a%d" % (cpp(R), k) for k in range(n))
    code = ('extern "C" void H_%s(%s, u64 * out){ auto r = utility::minmax(std::initializer_list<%s>{%s}); '
            'out[0] = (u64)r.first; out[1] = (u64)r.second; }\n' % (nm, ps, cpp(R), ", ".join("a%d" % k for k in range(n))))

    def posts(e):
        lo, hi = (t.bval(e.out[k], signed(R)) for k in (0, 1))
        return [("returns normally", e.normal),
                ("first is an element", lor(*[t.ieq(lo, x) for x in e.A])),
                ("second is an element", lor(*[t.ieq(hi, x) for x in e.A])),
                ("first is not above any element", land(*[t.ile(lo, x) for x in e.A])),
                ("second is not below any element", land(*[t.ile(x, hi) for x in e.A]))]
    return Case(nm, code, [Arg(R)] * n, posts, nout=2, meta=False, fn="utility::minmax<%s> of %d" % (cpp(R), n))


def mx(R):
    nm = "max_" + R
    code = 'extern "C" void H_%s(%s t, %s u, u64 * out){ out[0] = (u64)utility::max(t, u); }\n' % (nm, cpp(R), cpp(R))

    def posts(e):
        r = t.bval(e.out[0], signed(R))
        return [("returns normally", e.normal), ("the larger of the two", t.ieq(r, imax(*e.A)))]
    return Case(nm, code, [Arg(R)] * 2, posts, meta=False, fn="utility::max<%s>" % cpp(R))


def stored(nm, expr, lo, hi, sg):
    code = "META(%s, %s)\n" % (nm, expr) + 'extern "C" void H_%s(u64 * out){ out[0] = 0; }\n' % nm

    def posts(e):
        a, b = e.rlim()
        r = [("the stored type can hold every value of [%d,%d]" % (lo, hi), t.boolc(a <= lo and hi <= b))]
        if expr.startswith("safe_"):
            r.append(("numeric_limits are the declared range", t.boolc(e.declared() == (lo, hi))))
        return r
    return Case(nm, code, [], posts, fn=expr)


def job(tier):
    cs = []
    for R in ALL:
        cs += [sb(R), ro(R), mx(R)]
    for R in ("sc", "uc", "i", "u", "ll", "ull"):
        for n in (1, 2, 3, 4, 8) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8):
            cs.append(mm(R, n))
    rnd = random.Random(3)
    pts = sorted({s * ((1 << k) + d) for k in (0, 1, 6, 7, 8, 15, 16, 30, 31, 32, 62, 63) for d in (-2, -1, 0, 1) for s in (1, -1)})
    sp = [x for x in pts if -(1 << 63) <= x < (1 << 63)]
    up = [x for x in pts + [(1 << 64) - 1, (1 << 64) - 2] if 0 <= x < (1 << 64)]
    rs = [(a, b) for a in sp for b in sp if a <= b]
    ru = [(a, b) for a in up for b in up if a <= b]
    n = 260 if tier == "quick" else 3000
    rs = rs if len(rs) <= n else rnd.sample(rs, n)
    ru = ru if len(ru) <= n else rnd.sample(ru, n)
    ext = [(-128, 127), (-129, 0), (0, 128), (-(1 << 15), (1 << 15) - 1), (-(1 << 31), (1 << 31) - 1), (0, 1 << 31),
           (-(1 << 63), (1 << 63) - 1), (0, (1 << 63) - 1), (0, 0), (-1, -1)]
    for k, (a, b) in enumerate(ext + rs):
        cs.append(stored("sst_%d" % k, "utility::signed_stored_type<%s, %s>" % (lit(a, "ll"), lit(b, "ll")), a, b, True))
    extu = [(0, 255), (0, 256), (0, 65535), (0, 65536), (0, (1 << 32) - 1), (0, 1 << 32), (0, (1 << 64) - 1), (0, 0)]
    for k, (a, b) in enumerate(extu + ru):
        cs.append(stored("ust_%d" % k, "utility::unsigned_stored_type<%s, %s>" % (lit(a, "ull"), lit(b, "ull")), a, b, False))
    # ranges declared through the public range templates
    for k, (a, b) in enumerate(ext + rs[:60]):
        cs.append(stored("sr_%d" % k, "safe_signed_range<%s, %s>" % (lit(a, "ll"), lit(b, "ll")), a, b, True))
    for k, (a, b) in enumerate(extu + ru[:60]):
        cs.append(stored("ur_%d" % k, "safe_unsigned_range<%s, %s>" % (lit(a, "ull"), lit(b, "ull")), a, b, False))
    return Job("C07", cs, chunk=80)
