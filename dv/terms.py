"""Hash-consed term DAG used by the verification-condition generator.

Sorts: 0 = Bool, n > 0 = bit-vector of n bits, -1 = mathematical integer.
Every constructor folds constants and applies a few local, sound rewrites.
`evaluate` is the exact reference semantics (Python integers); both SMT
lowerings (lower.py) are checked against it on every model they return.
"""
import sys
sys.setrecursionlimit(200000)

BOOL = 0
INT = -1


class T:
    __slots__ = ("op", "args", "sort", "id", "aux", "_b")

    def __repr__(self):
        return show(self, 6)


_tab = {}
_ctr = [0]


def mk(op, args, sort, aux=None):
    key = (op, tuple(a.id for a in args), sort, aux)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort, t.aux = op, tuple(args), sort, aux
        t._b = None
        _ctr[0] += 1
        t.id = _ctr[0]
        _tab[key] = t
    return t


def reset():
    """forget all terms (between independent functions, to bound memory)"""
    _tab.clear()
    global TRUE, FALSE
    TRUE = mk("true", (), BOOL)
    FALSE = mk("false", (), BOOL)


TRUE = mk("true", (), BOOL)
FALSE = mk("false", (), BOOL)


def show(t, d):
    if t.op in ("const", "iconst"):
        return str(t.aux)
    if t.op in ("var", "ivar", "bvar"):
        return str(t.aux)
    if not t.args:
        return t.op
    if d == 0:
        return "..."
    return "(%s%s %s)" % (t.op, "" if t.aux is None else "_" + str(t.aux),
                          " ".join(show(a, d - 1) for a in t.args))


# ---------------------------------------------------------------- leaves
def bv(v, n):
    return mk("const", (), n, v & ((1 << n) - 1))


def var(name, n):
    return mk("var", (), n, name)


def bvar(name):
    return mk("bvar", (), BOOL, name)


def boolc(b):
    return TRUE if b else FALSE


def ic(v):
    return mk("iconst", (), INT, int(v))


_fresh = [0]


def fresh(prefix, n):
    _fresh[0] += 1
    nm = "%s!%d" % (prefix, _fresh[0])
    return bvar(nm) if n == BOOL else var(nm, n)


def isc(t):
    return t.op == "const"


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) else v


# ---------------------------------------------------------------- booleans
def lnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), BOOL)


def conj(a):
    """the conjuncts of a guard"""
    if a.op == "and":
        return a.args
    return (a,)


def land(*xs):
    out = {}
    for x in xs:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        for y in conj(x):
            out[y.id] = y
    if not out:
        return TRUE
    for y in out.values():
        n = y.args[0].id if y.op == "not" else None
        if n is not None and n in out:
            return FALSE
    if len(out) == 1:
        return next(iter(out.values()))
    return mk("and", tuple(sorted(out.values(), key=lambda z: z.id)), BOOL)


def lor(*xs):
    out = {}
    for x in xs:
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        for y in (x.args if x.op == "or" else (x,)):
            out[y.id] = y
    if not out:
        return FALSE
    vals = list(out.values())
    # factor / complement: (A & c) | (A & ~c)  ->  A
    changed = True
    while changed and len(vals) > 1:
        changed = False
        for i in range(len(vals)):
            for j in range(i + 1, len(vals)):
                r = _or2(vals[i], vals[j])
                if r is not None:
                    vals = [v for k, v in enumerate(vals) if k not in (i, j)]
                    if r is TRUE:
                        return TRUE
                    vals.append(r)
                    changed = True
                    break
            if changed:
                break
        if len(vals) > 40:
            break
    if len(vals) == 1:
        return vals[0]
    return mk("or", tuple(sorted(set(vals), key=lambda z: z.id)), BOOL)


def _or2(a, b):
    if a is b:
        return a
    if lnot(a) is b:
        return TRUE
    A = {x.id: x for x in conj(a)}
    B = {x.id: x for x in conj(b)}
    da = [x for i, x in A.items() if i not in B]
    db = [x for i, x in B.items() if i not in A]
    if not da:
        return a      # b implies a
    if not db:
        return b
    if len(da) == 1 and len(db) == 1 and lnot(da[0]) is db[0]:
        return land(*[x for i, x in A.items() if i in B])
    # (C & c) | (C & ~c & D)  ->  C & (c | D)   only if it lets D vanish
    if len(da) == 1 and any(lnot(da[0]) is y for y in db):
        c = [x for i, x in A.items() if i in B]
        rest = [y for y in db if lnot(da[0]) is not y]
        return land(*c, lor(da[0], land(*rest)))
    if len(db) == 1 and any(lnot(db[0]) is y for y in da):
        return _or2(b, a)
    return None


def implies(a, b):
    return lor(lnot(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return lnot(b)
    if b is FALSE:
        return lnot(a)
    if lnot(a) is b:
        return FALSE
    return mk("iff", (a, b) if a.id < b.id else (b, a), BOOL)


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.sort == BOOL:
        if a is TRUE:
            return lor(c, b)
        if a is FALSE:
            return land(lnot(c), b)
        if b is TRUE:
            return lor(lnot(c), a)
        if b is FALSE:
            return land(c, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.op == "ite" and a.args[2] is b:       # ite(c, ite(d,x,b), b)
        return ite(land(c, a.args[0]), a.args[1], b)
    if b.op == "ite" and b.args[1] is a:       # ite(c, a, ite(d,a,y))
        return ite(lor(c, b.args[0]), a, b.args[2])
    return mk("ite", (c, a, b), a.sort)


def _ctree(t, depth=12):
    """t is an ite tree whose leaves are all constants"""
    if t.op in ("const", "iconst"):
        return True
    if t.op == "ite" and depth:
        return _ctree(t.args[1], depth - 1) and _ctree(t.args[2], depth - 1)
    return False


def _push1(f, t):
    if t.op == "ite" and _ctree(t):
        return ite(t.args[0], _push1(f, t.args[1]), _push1(f, t.args[2]))
    return f(t)


# ---------------------------------------------------------------- BV
def _bin(op, a, b, fold):
    n = a.sort
    assert a.sort == b.sort, (op, a.sort, b.sort)
    if isc(a) and isc(b):
        return bv(fold(a.aux, b.aux, n), n)
    if isc(b) and a.op == "ite" and _ctree(a):
        return ite(a.args[0], _bin(op, a.args[1], b, fold), _bin(op, a.args[2], b, fold))
    if isc(a) and b.op == "ite" and _ctree(b):
        return ite(b.args[0], _bin(op, a, b.args[1], fold), _bin(op, a, b.args[2], fold))
    if op in ("add", "band", "bor", "xor", "mul") and a.id > b.id:
        a, b = b, a
    return mk(op, (a, b), n)


def add(a, b):
    if isc(a) and a.aux == 0:
        return b
    if isc(b) and b.aux == 0:
        return a
    return _bin("add", a, b, lambda x, y, n: x + y)


def sub(a, b):
    if isc(b) and b.aux == 0:
        return a
    if a is b:
        return bv(0, a.sort)
    return _bin("sub", a, b, lambda x, y, n: x - y)


def mul(a, b):
    for x, y in ((a, b), (b, a)):
        if isc(x):
            if x.aux == 0:
                return x
            if x.aux == 1:
                return y
    return _bin("mul", a, b, lambda x, y, n: x * y)


def _tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def udiv(a, b):
    return _bin("udiv", a, b, lambda x, y, n: (x // y) if y else (1 << n) - 1)


def urem(a, b):
    return _bin("urem", a, b, lambda x, y, n: (x % y) if y else x)


def _sdivf(x, y, n):
    xs, ys = sgn(x, n), sgn(y, n)
    if ys == 0:
        return 1 if xs < 0 else -1
    return _tdiv(xs, ys)


def _sremf(x, y, n):
    xs, ys = sgn(x, n), sgn(y, n)
    if ys == 0:
        return xs
    return xs - ys * _tdiv(xs, ys)


def sdiv(a, b):
    return _bin("sdiv", a, b, _sdivf)


def srem(a, b):
    return _bin("srem", a, b, _sremf)


def band(a, b):
    m = (1 << a.sort) - 1
    for x, y in ((a, b), (b, a)):
        if isc(x):
            if x.aux == 0:
                return x
            if x.aux == m:
                return y
    if a is b:
        return a
    if a.sort == 1:
        return b1(land(tob(a), tob(b)))
    return _bin("band", a, b, lambda x, y, n: x & y)


def bor(a, b):
    m = (1 << a.sort) - 1
    for x, y in ((a, b), (b, a)):
        if isc(x):
            if x.aux == 0:
                return y
            if x.aux == m:
                return x
    if a is b:
        return a
    if a.sort == 1:
        return b1(lor(tob(a), tob(b)))
    return _bin("bor", a, b, lambda x, y, n: x | y)


def bxor(a, b):
    for x, y in ((a, b), (b, a)):
        if isc(x) and x.aux == 0:
            return y
    if a is b:
        return bv(0, a.sort)
    if a.sort == 1:
        return b1(lnot(iff(tob(a), tob(b))))
    return _bin("xor", a, b, lambda x, y, n: x ^ y)


def shl(a, b):
    if isc(b) and b.aux == 0:
        return a
    return _bin("shl", a, b, lambda x, y, n: (x << y) if y < n else 0)


def lshr(a, b):
    if isc(b) and b.aux == 0:
        return a
    return _bin("lshr", a, b, lambda x, y, n: (x >> y) if y < n else 0)


def ashr(a, b):
    if isc(b) and b.aux == 0:
        return a
    return _bin("ashr", a, b, lambda x, y, n: sgn(x, n) >> min(y, n))


def zext(a, n):
    if a.sort == n:
        return a
    assert n > a.sort
    if isc(a):
        return bv(a.aux, n)
    if a.op == "zext":
        return zext(a.args[0], n)
    if a.op == "ite" and (_ctree(a) or a.sort == 1):
        return ite(a.args[0], zext(a.args[1], n), zext(a.args[2], n))
    return mk("zext", (a,), n)


def sext(a, n):
    if a.sort == n:
        return a
    assert n > a.sort
    if isc(a):
        return bv(sgn(a.aux, a.sort), n)
    if a.op == "sext":
        return sext(a.args[0], n)
    if a.op == "zext":
        return zext(a.args[0], n)
    if a.op == "ite" and (_ctree(a) or a.sort == 1):
        return ite(a.args[0], sext(a.args[1], n), sext(a.args[2], n))
    return mk("sext", (a,), n)


def extract(a, hi, lo):
    n = hi - lo + 1
    if n == a.sort:
        return a
    if isc(a):
        return bv(a.aux >> lo, n)
    if a.op == "extract":
        l0 = a.aux[1]
        return extract(a.args[0], hi + l0, lo + l0)
    if a.op in ("zext", "sext"):
        x = a.args[0]
        if hi < x.sort:
            return extract(x, hi, lo)
        if lo == 0 and hi >= x.sort:
            return (zext if a.op == "zext" else sext)(x, n)
        if a.op == "zext" and lo >= x.sort:
            return bv(0, n)
    if a.op == "concat":
        h, l = a.args
        if hi < l.sort:
            return extract(l, hi, lo)
        if lo >= l.sort:
            return extract(h, hi - l.sort, lo - l.sort)
        return concat(extract(h, hi - l.sort, 0), extract(l, l.sort - 1, lo))
    if a.op == "ite":
        return ite(a.args[0], extract(a.args[1], hi, lo), extract(a.args[2], hi, lo))
    if lo == 0 and a.op in ("add", "sub", "mul", "band", "bor", "xor"):
        f = {"add": add, "sub": sub, "mul": mul, "band": band, "bor": bor, "xor": bxor}[a.op]
        x, y = a.args
        if x.op in ("zext", "sext", "const") and y.op in ("zext", "sext", "const"):
            if a.op in ("band", "bor", "xor"):
                return f(extract(x, hi, 0), extract(y, hi, 0))
    if a.op == "i2b" and lo == 0:
        return i2b(a.args[0], n)
    return mk("extract", (a,), n, (hi, lo))


def concat(h, l):
    n = h.sort + l.sort
    if isc(h) and isc(l):
        return bv((h.aux << l.sort) | l.aux, n)
    if isc(h) and h.aux == 0:
        return zext(l, n)
    if h.op == "extract" and l.op == "extract" and h.args[0] is l.args[0] and h.aux[1] == l.aux[0] + 1:
        return extract(h.args[0], h.aux[0], l.aux[1])
    if h.op == "ite" and l.op == "ite" and h.args[0] is l.args[0]:
        return ite(h.args[0], concat(h.args[1], l.args[1]), concat(h.args[2], l.args[2]))
    return mk("concat", (h, l), n)


def b1(c):
    """Bool -> i1"""
    if c.op == "i1":
        return c.args[0]
    return ite(c, bv(1, 1), bv(0, 1))


def tob(v):
    """i1 -> Bool"""
    if isc(v):
        return boolc(v.aux & 1)
    if v.op == "ite":
        return ite(v.args[0], tob(v.args[1]), tob(v.args[2]))
    return mk("i1", (v,), BOOL)


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == BOOL:
        return iff(a, b)
    assert a.sort == b.sort, (a.sort, b.sort)
    ca, cb = a.op in ("const", "iconst"), b.op in ("const", "iconst")
    if ca and cb:
        return boolc(a.aux == b.aux)
    if ca:
        a, b, ca, cb = b, a, cb, ca
    if cb:
        if a.op == "ite" and (a.args[1].op in ("const", "iconst") or a.args[2].op in ("const", "iconst")
                              or _ctree(a)):
            return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
        if a.op == "zext":
            x = a.args[0]
            if b.aux >> x.sort:
                return FALSE
            return eq(x, bv(b.aux, x.sort))
        if a.op == "sext":
            x = a.args[0]
            if sgn(b.aux, b.sort) != sgn(b.aux & ((1 << x.sort) - 1), x.sort):
                return FALSE
            return eq(x, bv(b.aux, x.sort))
        if a.op == "concat":
            h, l = a.args
            return land(eq(h, bv(b.aux >> l.sort, h.sort)), eq(l, bv(b.aux, l.sort)))
    if a.op in ("sext", "zext") and b.op == a.op and a.args[0].sort == b.args[0].sort:
        return eq(a.args[0], b.args[0])
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), BOOL)


def _cmp(op, a, b, fold):
    assert a.sort == b.sort
    if a is b:
        return boolc(fold(0, 0, 8))
    if isc(a) and isc(b):
        return boolc(fold(a.aux, b.aux, a.sort))
    if isc(b) and a.op == "ite" and (_ctree(a)):
        return ite(a.args[0], _cmp(op, a.args[1], b, fold), _cmp(op, a.args[2], b, fold))
    if isc(a) and b.op == "ite" and (_ctree(b)):
        return ite(b.args[0], _cmp(op, a, b.args[1], fold), _cmp(op, a, b.args[2], fold))
    return mk(op, (a, b), BOOL)


def ult(a, b):
    if isc(b) and b.aux == 0:
        return FALSE
    if a is not b:
        (la, ha), (lb, hb) = urange(a), urange(b)
        if ha < lb:
            return TRUE
        if la >= hb:
            return FALSE
    return _cmp("ult", a, b, lambda x, y, n: x < y)


def ule(a, b):
    return lnot(ult(b, a))


def slt(a, b):
    if a is not b:
        (la, ha), (lb, hb) = srange(a), srange(b)
        if ha < lb:
            return TRUE
        if la >= hb:
            return FALSE
    return _cmp("slt", a, b, lambda x, y, n: sgn(x, n) < sgn(y, n))


def sle(a, b):
    return lnot(slt(b, a))


# ---------------------------------------------------------------- Int
def S(a):
    """BV -> signed integer"""
    if isc(a):
        return ic(sgn(a.aux, a.sort))
    if a.op == "sext":
        return S(a.args[0])
    if a.op == "zext":
        return U(a.args[0])
    return mk("b2s", (a,), INT)


def U(a):
    if isc(a):
        return ic(a.aux)
    if a.op == "zext":
        return U(a.args[0])
    return mk("b2u", (a,), INT)


def bval(a, signed):
    return S(a) if signed else U(a)


def i2b(x, n):
    if x.op == "iconst":
        return bv(x.aux, n)
    if x.op in ("b2s", "b2u"):
        y = x.args[0]
        if y.sort == n:
            return y
        if y.sort > n:
            return extract(y, n - 1, 0)
        return (sext if x.op == "b2s" else zext)(y, n)
    if x.op == "ite":
        return ite(x.args[0], i2b(x.args[1], n), i2b(x.args[2], n))
    return mk("i2b", (x,), n)


def I(x):
    return x if isinstance(x, T) else ic(x)


def iadd(a, b):
    a, b = I(a), I(b)
    if a.op == "iconst" and b.op == "iconst":
        return ic(a.aux + b.aux)
    if a.op == "iconst" and a.aux == 0:
        return b
    if b.op == "iconst" and b.aux == 0:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk("iadd", (a, b), INT)


def ineg(a):
    return imul(ic(-1), a)


def isub(a, b):
    return iadd(a, ineg(I(b)))


def imul(a, b):
    a, b = I(a), I(b)
    if a.op == "iconst" and b.op == "iconst":
        return ic(a.aux * b.aux)
    for x, y in ((a, b), (b, a)):
        if x.op == "iconst":
            if x.aux == 0:
                return x
            if x.aux == 1:
                return y
            if y.op == "imul" and y.args[0].op == "iconst":
                return imul(ic(x.aux * y.args[0].aux), y.args[1])
    if b.op == "iconst" or (a.op != "iconst" and a.id > b.id):
        a, b = b, a
    return mk("imul", (a, b), INT)


def itdiv(a, b):
    """division truncating toward zero; unspecified when b == 0"""
    a, b = I(a), I(b)
    if a.op == "iconst" and b.op == "iconst" and b.aux:
        return ic(_tdiv(a.aux, b.aux))
    if b.op == "iconst" and b.aux == 1:
        return a
    return mk("itdiv", (a, b), INT)


def itmod(a, b):
    a, b = I(a), I(b)
    if a.op == "iconst" and b.op == "iconst" and b.aux:
        return ic(a.aux - b.aux * _tdiv(a.aux, b.aux))
    return mk("itmod", (a, b), INT)


def ishl(a, k):
    """a * 2^k  (k clamped to [0, 70])"""
    a, k = I(a), I(k)
    if a.op == "iconst" and k.op == "iconst":
        return ic(a.aux << min(max(k.aux, 0), 70))
    return mk("ishl", (a, k), INT)


def ishr(a, k):
    """floor(a / 2^k)  (k clamped to [0, 70])"""
    a, k = I(a), I(k)
    if a.op == "iconst" and k.op == "iconst":
        return ic(a.aux >> min(max(k.aux, 0), 70))
    return mk("ishr", (a, k), INT)


def ilt(a, b):
    a, b = I(a), I(b)
    if a is b:
        return FALSE
    if a.op == "iconst" and b.op == "iconst":
        return boolc(a.aux < b.aux)
    la, ha = bounds(a)
    lb, hb = bounds(b)
    if ha is not None and lb is not None and ha < lb:
        return TRUE
    if la is not None and hb is not None and la >= hb:
        return FALSE
    if a.op == "ite" and _ctree(a) and b.op == "iconst":
        return ite(a.args[0], ilt(a.args[1], b), ilt(a.args[2], b))
    return mk("ilt", (a, b), BOOL)


def ile(a, b):
    return lnot(ilt(b, a))


def ige(a, b):
    return ile(b, a)


def igt(a, b):
    return ilt(b, a)


def ieq(a, b):
    return eq(I(a), I(b))


def imin(a, b):
    return ite(ilt(a, b), I(a), I(b))


def imax(a, b):
    return ite(ilt(a, b), I(b), I(a))


def iabs(a):
    return ite(ilt(a, 0), ineg(a), a)


def between(lo, x, hi):
    return land(ile(lo, x), ile(x, hi))


# static bounds of Int terms, None = unbounded
def bounds(t):
    if t._b is not None:
        return t._b
    t._b = r = _bounds(t)
    return r


def _bounds(t):
    op = t.op
    if op == "iconst":
        return (t.aux, t.aux)
    if op == "b2s":
        return srange(t.args[0])
    if op == "b2u":
        return urange(t.args[0])
    if op == "ivar":
        return (None, None)
    if op == "iadd":
        (a, b), (c, d) = bounds(t.args[0]), bounds(t.args[1])
        return (None if None in (a, c) else a + c, None if None in (b, d) else b + d)
    if op == "imul":
        (a, b), (c, d) = bounds(t.args[0]), bounds(t.args[1])
        if None in (a, b, c, d):
            return (None, None)
        v = (a * c, a * d, b * c, b * d)
        return (min(v), max(v))
    if op == "itdiv":
        a, b = bounds(t.args[0])
        if a is None or b is None:
            return (None, None)
        m = max(abs(a), abs(b))
        c, d = bounds(t.args[1])
        lo = -m
        if a >= 0 and c is not None and c >= 0:
            lo = 0
        return (lo, m)
    if op == "itmod":
        a, b = bounds(t.args[0])
        if a is None or b is None:
            return (None, None)
        return (min(a, 0), max(b, 0))
    if op == "ite":
        (a, b), (c, d) = bounds(t.args[1]), bounds(t.args[2])
        return (None if None in (a, c) else min(a, c), None if None in (b, d) else max(b, d))
    if op == "ishl":
        (a, b), (c, d) = bounds(t.args[0]), bounds(t.args[1])
        k = 70 if d is None else min(max(d, 0), 70)
        if a is None or b is None:
            return (None, None)
        return (min(a, a << k), max(b, b << k))
    if op == "ishr":
        a, b = bounds(t.args[0])
        if a is None or b is None:
            return (None, None)
        return (min(a, 0), max(b, 0))
    return (None, None)


# --------------------------------------------------------------------- static ranges of BV terms
def srange(x):
    return _rng(x)[0]


def urange(x):
    return _rng(x)[1]




def _full(n):
    return ((-(1 << (n - 1)), (1 << (n - 1)) - 1), (0, (1 << n) - 1))


def _rng(x):
    r = x._b
    if r is None:
        r = x._b = _norm(_rng0(x), x.sort)
    return r


def _norm(r, n):
    (sl, sh), (ul, uh) = r
    h = 1 << (n - 1)
    if sl >= 0:
        ul, uh = max(ul, sl), min(uh, sh)
    if uh < h:
        sl, sh = max(sl, ul), min(sh, uh)
    return ((sl, sh), (ul, uh))


def _rng0(x):
    n, op = x.sort, x.op
    S0, U0 = _full(n)
    if op == "const":
        v = x.aux
        s = sgn(v, n)
        return ((s, s), (v, v))
    if op == "ite":
        (a, b), (c, d) = _rng(x.args[1])
        (e, f), (g, h) = _rng(x.args[2])
        return ((min(a, e), max(b, f)), (min(c, g), max(d, h)))
    if op == "zext":
        _, u = _rng(x.args[0])
        return (u, u)
    if op == "sext":
        s, u = _rng(x.args[0])
        if s[0] >= 0:
            return (s, s)
        return (s, U0)
    if op in ("add", "sub", "mul"):
        (a, b), (c, d) = _rng(x.args[0])
        (e, f), (g, h) = _rng(x.args[1])

        def comb(l1, h1, l2, h2):
            if op == "add":
                return l1 + l2, h1 + h2
            if op == "sub":
                return l1 - h2, h1 - l2
            v = (l1 * l2, l1 * h2, h1 * l2, h1 * h2)
            return min(v), max(v)
        s = comb(a, b, e, f)
        u = comb(c, d, g, h)
        if not (S0[0] <= s[0] and s[1] <= S0[1]):
            s = S0
        if not (U0[0] <= u[0] and u[1] <= U0[1]):
            u = U0
        return (s, u)
    if op == "udiv":
        return (S0, (0, _rng(x.args[0])[1][1] if _rng(x.args[1])[1][0] > 0 else U0[1]))
    if op == "urem":
        return (S0, (0, min(_rng(x.args[0])[1][1], max(_rng(x.args[1])[1][1] - 1, _rng(x.args[0])[1][1]))))
    if op == "srem":
        a, b = _rng(x.args[0])[0]
        return ((min(a, 0), max(b, 0)), U0)
    if op == "band":
        return (S0, (0, min(_rng(x.args[0])[1][1], _rng(x.args[1])[1][1])))
    if op in ("bor", "xor"):
        m = max(_rng(x.args[0])[1][1], _rng(x.args[1])[1][1])
        return (S0, (0, (1 << m.bit_length()) - 1))
    if op == "lshr":
        return (S0, (0, _rng(x.args[0])[1][1]))
    if op == "extract" and x.aux[1] == 0:
        s, u = _rng(x.args[0])
        return (s if S0[0] <= s[0] and s[1] <= S0[1] else S0, u if u[1] <= U0[1] else U0)
    if op == "concat":
        h, l = x.args
        a = _rng(h)[1]
        b = _rng(l)[1]
        return (S0, ((a[0] << l.sort) + b[0], (a[1] << l.sort) + b[1]))
    if op == "i2b":
        a, b = bounds(x.args[0])
        s, u = S0, U0
        if a is not None and b is not None:
            if S0[0] <= a and b <= S0[1]:
                s = (a, b)
            if 0 <= a and b <= U0[1]:
                u = (a, b)
        return (s, u)
    return (S0, U0)




# ---------------------------------------------------------------- evaluation
def evaluate(t, env, memo=None, default=0):
    """exact value of t; env: var name -> unsigned BV value / bool / int"""
    if memo is None:
        memo = {}
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        # lazy ite / and / or to tolerate ill-defined unused branches is not
        # needed: every operation below is total.
        pend = [a for a in x.args if a.id not in memo]
        if pend:
            stack.extend(pend)
            continue
        stack.pop()
        memo[x.id] = _ev(x, [memo[a.id] for a in x.args], env, default)
    return memo[t.id]


def _ev(x, v, env, default):
    op, n = x.op, x.sort
    if op in ("const", "iconst"):
        return x.aux
    if op in ("var", "bvar", "ivar"):
        d = env.get(x.aux, default)
        if op == "bvar":
            return bool(d)
        return d & ((1 << n) - 1) if op == "var" else d
    if op == "true":
        return True
    if op == "false":
        return False
    if op == "not":
        return not v[0]
    if op == "and":
        return all(v)
    if op == "or":
        return any(v)
    if op == "iff":
        return v[0] == v[1]
    if op == "ite":
        return v[1] if v[0] else v[2]
    if op == "eq":
        return v[0] == v[1]
    if op == "ult":
        return v[0] < v[1]
    if op == "slt":
        w = x.args[0].sort
        return sgn(v[0], w) < sgn(v[1], w)
    if op == "i1":
        return bool(v[0])
    m = (1 << n) - 1 if n > 0 else 0
    if op == "add":
        return (v[0] + v[1]) & m
    if op == "sub":
        return (v[0] - v[1]) & m
    if op == "mul":
        return (v[0] * v[1]) & m
    if op == "udiv":
        return (v[0] // v[1]) if v[1] else m
    if op == "urem":
        return (v[0] % v[1]) if v[1] else v[0]
    if op == "sdiv":
        return _sdivf(v[0], v[1], n) & m
    if op == "srem":
        return _sremf(v[0], v[1], n) & m
    if op == "band":
        return v[0] & v[1]
    if op == "bor":
        return v[0] | v[1]
    if op == "xor":
        return v[0] ^ v[1]
    if op == "shl":
        return (v[0] << v[1]) & m if v[1] < n else 0
    if op == "lshr":
        return v[0] >> v[1] if v[1] < n else 0
    if op == "ashr":
        return (sgn(v[0], n) >> min(v[1], n)) & m
    if op == "zext":
        return v[0]
    if op == "sext":
        return sgn(v[0], x.args[0].sort) & m
    if op == "extract":
        return (v[0] >> x.aux[1]) & m
    if op == "concat":
        return (v[0] << x.args[1].sort) | v[1]
    if op == "b2s":
        return sgn(v[0], x.args[0].sort)
    if op == "b2u":
        return v[0]
    if op == "i2b":
        return v[0] & m
    if op == "iadd":
        return v[0] + v[1]
    if op == "imul":
        return v[0] * v[1]
    if op == "itdiv":
        return _tdiv(v[0], v[1]) if v[1] else 0
    if op == "itmod":
        return v[0] - v[1] * _tdiv(v[0], v[1]) if v[1] else v[0]
    if op == "ilt":
        return v[0] < v[1]
    if op == "ishl":
        return v[0] << min(max(v[1], 0), 70)
    if op == "ishr":
        return v[0] >> min(max(v[1], 0), 70)
    raise NotImplementedError(op)


def subst(t, m, memo=None):
    """replace variables (by id) with terms"""
    if memo is None:
        memo = {}
    if t.id in memo:
        return memo[t.id]
    if t.id in m:
        return m[t.id]
    if not t.args:
        return t
    a = [subst(x, m, memo) for x in t.args]
    r = rebuild(t, a)
    memo[t.id] = r
    return r


def rebuild(t, a):
    f = _CTOR.get(t.op)
    if f is None:
        return mk(t.op, a, t.sort, t.aux)
    return f(t, a)


_CTOR = {
    "not": lambda t, a: lnot(a[0]), "and": lambda t, a: land(*a), "or": lambda t, a: lor(*a),
    "band": lambda t, a: band(*a), "bor": lambda t, a: bor(*a), "ite": lambda t, a: ite(*a),
    "iff": lambda t, a: iff(*a), "eq": lambda t, a: eq(*a), "ult": lambda t, a: ult(*a),
    "slt": lambda t, a: slt(*a), "add": lambda t, a: add(*a), "sub": lambda t, a: sub(*a),
    "mul": lambda t, a: mul(*a), "xor": lambda t, a: bxor(*a), "i1": lambda t, a: tob(a[0]),
    "udiv": lambda t, a: udiv(*a), "urem": lambda t, a: urem(*a), "sdiv": lambda t, a: sdiv(*a),
    "srem": lambda t, a: srem(*a), "shl": lambda t, a: shl(*a), "lshr": lambda t, a: lshr(*a),
    "ashr": lambda t, a: ashr(*a), "zext": lambda t, a: zext(a[0], t.sort),
    "sext": lambda t, a: sext(a[0], t.sort), "extract": lambda t, a: extract(a[0], *t.aux),
    "concat": lambda t, a: concat(*a), "b2s": lambda t, a: S(a[0]), "b2u": lambda t, a: U(a[0]),
    "i2b": lambda t, a: i2b(a[0], t.sort), "iadd": lambda t, a: iadd(*a), "imul": lambda t, a: imul(*a),
    "itdiv": lambda t, a: itdiv(*a), "itmod": lambda t, a: itmod(*a), "ilt": lambda t, a: ilt(*a),
    "ishl": lambda t, a: ishl(*a), "ishr": lambda t, a: ishr(*a),
}


def variables(ts):
    seen, out, st = set(), {}, list(ts)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ("var", "bvar", "ivar"):
            out[x.aux] = x
        st.extend(x.args)
    return out


def size(ts):
    seen, st = set(), list(ts)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        st.extend(x.args)
    return len(seen)
