"""Back ends: two independent SMT lowerings of verification conditions.

IntLower   linear integer arithmetic; bit-vectors become integers with explicit
           wrap-around, products/quotients of two unknowns become fresh symbols
           constrained by ground instances of lemmas that are valid for the
           integers (so `unsat` is a proof, `sat` is only a candidate).
BvLower    pure bit-vectors; mathematical integers become signed bit-vectors
           wide enough (by static bounds) never to wrap.
A candidate model is accepted only if terms.evaluate refutes the VC with it."""
import os, subprocess, tempfile, time
import z3
import terms as t
from terms import bounds, srange, urange


class NeedBV(Exception):
    pass


# --------------------------------------------------------------------- features
def features(ts):
    seen, st = set(), list(ts)
    f = {"bits": False, "nl": False, "maxw": 0, "div": False, "n": 0, "ivar": False, "bvvar": False}
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        f["n"] += 1
        op = x.op
        if x.sort > f["maxw"]:
            f["maxw"] = x.sort
        if op in ("band", "bor", "xor"):
            m = [a for a in x.args if a.op == "const"]
            if not (op == "band" and m and (m[0].aux & (m[0].aux + 1)) == 0):
                f["bits"] = f["bvvar"] = True
        elif op in ("shl", "lshr", "ashr", "ishl", "ishr"):
            if x.args[1].op not in ("const", "iconst"):
                f["bits"] = True
                f["ivar" if op in ("ishl", "ishr") else "bvvar"] = True
        elif op in ("mul", "imul"):
            if not any(a.op in ("const", "iconst") for a in x.args):
                f["nl"] = True
        elif op in ("udiv", "sdiv", "urem", "srem", "itdiv", "itmod"):
            f["div"] = True
            if x.args[1].op not in ("const", "iconst"):
                f["nl"] = True
        st.extend(x.args)
    return f


# --------------------------------------------------------------------- integer lowering
class IntLower:
    def __init__(self, hints=None, uf=False):
        self.uf = uf
        self.s, self.u, self.i, self.b = {}, {}, {}, {}
        self.side = []
        self.vars = {}
        self.hints = hints or {}
        self.prods = {}
        self.divs = {}
        self.nfresh = 0

    def fresh(self, p):
        self.nfresh += 1
        return z3.Int("%s.%d" % (p, self.nfresh))

    # ---- Bool
    def B(self, x):
        r = self.b.get(x.id)
        if r is not None:
            return r
        op = x.op
        if op == "true":
            r = z3.BoolVal(True)
        elif op == "false":
            r = z3.BoolVal(False)
        elif op == "bvar":
            r = z3.Bool(x.aux)
            self.vars[x.aux] = ("b", r)
        elif op == "not":
            r = z3.Not(self.B(x.args[0]))
        elif op == "and":
            r = z3.And([self.B(a) for a in x.args])
        elif op == "or":
            r = z3.Or([self.B(a) for a in x.args])
        elif op == "iff":
            r = self.B(x.args[0]) == self.B(x.args[1])
        elif op == "ite":
            r = z3.If(self.B(x.args[0]), self.B(x.args[1]), self.B(x.args[2]))
        elif op == "eq":
            a, b = x.args
            if a.sort == t.INT:
                r = self.I(a) == self.I(b)
            elif self.nat(a) == "s" or (self.nat(b) == "s" and self.nat(a) != "u"):
                r = self.S(a) == self.S(b)
            else:
                r = self.U(a) == self.U(b)
        elif op == "ult":
            r = self.U(x.args[0]) < self.U(x.args[1])
        elif op == "slt":
            r = self.S(x.args[0]) < self.S(x.args[1])
        elif op == "ilt":
            r = self.I(x.args[0]) < self.I(x.args[1])
        elif op == "i1":
            r = self.U(x.args[0]) == 1
        else:
            raise NeedBV(op)
        self.b[x.id] = r
        return r

    def nat(self, x):
        """cheaper representation"""
        if x.op == "var":
            return self.hints.get(x.aux, "u")
        if x.op in ("sext", "sdiv", "srem", "ashr"):
            return "s"
        if x.op in ("add", "sub", "mul", "ite"):
            for a in x.args:
                if a.sort > 0 and a.op != "const":
                    return self.nat(a)
            return None
        if x.op == "const":
            return None
        return "u"

    # ---- Int
    def I(self, x):
        r = self.i.get(x.id)
        if r is not None:
            return r
        op = x.op
        if op == "iconst":
            r = z3.IntVal(x.aux)
        elif op == "ivar":
            r = z3.Int(x.aux)
            self.vars[x.aux] = ("i", r)
        elif op == "b2s":
            r = self.S(x.args[0])
        elif op == "b2u":
            r = self.U(x.args[0])
        elif op == "iadd":
            r = self.I(x.args[0]) + self.I(x.args[1])
        elif op == "imul":
            a, b = x.args
            r = self.mul(self.I(a), bounds(a), self.I(b), bounds(b))
        elif op in ("itdiv", "itmod"):
            a, b = x.args
            q, m = self.tdiv(self.I(a), bounds(a), self.I(b), bounds(b))
            r = q if op == "itdiv" else m
        elif op == "ite":
            r = z3.If(self.B(x.args[0]), self.I(x.args[1]), self.I(x.args[2]))
        elif op in ("ishl", "ishr") and x.args[1].op == "iconst":
            k = min(max(x.args[1].aux, 0), 70)
            a = self.I(x.args[0])
            r = a * (1 << k) if op == "ishl" else a / (1 << k)
        elif op in ("ishl", "ishr") and self.uf:
            # an unspecified function of its arguments (sound: only proofs are accepted)
            f = z3.Function(op, z3.IntSort(), z3.IntSort(), z3.IntSort())
            r = f(self.I(x.args[0]), self.I(x.args[1]))
        else:
            raise NeedBV(op)
        self.i[x.id] = r
        return r

    # ---- BV as signed / unsigned integer
    def S(self, x):
        r = self.s.get(x.id)
        if r is None:
            r = self.s[x.id] = self._S(x)
        return r

    def U(self, x):
        r = self.u.get(x.id)
        if r is None:
            r = self.u[x.id] = self._U(x)
        return r

    def s_of_u(self, x):
        n = x.sort
        u = self.U(x)
        if urange(x)[1] < 1 << (n - 1):
            return u
        return z3.If(u < (1 << (n - 1)), u, u - (1 << n))

    def u_of_s(self, x):
        n = x.sort
        s = self.S(x)
        if srange(x)[0] >= 0:
            return s
        return z3.If(s < 0, s + (1 << n), s)

    def wrap(self, e, lo, hi, n, signed):
        """e mod 2^n into the (un)signed range; lo, hi static bounds of e"""
        m = 1 << n
        L, H = (-(m >> 1), (m >> 1) - 1) if signed else (0, m - 1)
        if lo is not None and hi is not None and L <= lo and hi <= H:
            return e
        if lo is not None and hi is not None and lo >= L - m and hi <= H + m:
            if lo < L:
                e2 = z3.If(e < L, e + m, e)
            else:
                e2 = e
            if hi > H:
                e2 = z3.If(e > H, e - m, e2)
            return e2
        r, q = self.fresh("w"), self.fresh("wq")
        self.side.append(z3.And(e == r + q * m, r >= L, r <= H))
        return r

    def _arith(self, x, f, rng, signed):
        a, b = x.args
        (l1, h1), (l2, h2) = rng(a), rng(b)
        if x.op == "add":
            e, lo, hi = f(a) + f(b), l1 + l2, h1 + h2
        elif x.op == "sub":
            e, lo, hi = f(a) - f(b), l1 - h2, h1 - l2
        else:
            e = self.mul(f(a), (l1, h1), f(b), (l2, h2))
            v = (l1 * l2, l1 * h2, h1 * l2, h1 * h2)
            lo, hi = min(v), max(v)
        return self.wrap(e, lo, hi, x.sort, signed)

    def _S(self, x):
        n, op = x.sort, x.op
        if op == "const":
            return z3.IntVal(t.sgn(x.aux, n))
        if op == "var" and self.hints.get(x.aux, "u") == "s":
            v = z3.Int(x.aux)
            self.vars[x.aux] = ("s", v, n)
            self.side.append(z3.And(v >= -(1 << (n - 1)), v < (1 << (n - 1))))
            return v
        if op == "ite":
            return z3.If(self.B(x.args[0]), self.S(x.args[1]), self.S(x.args[2]))
        if op == "sext":
            return self.S(x.args[0])
        if op == "zext":
            return self.U(x.args[0])
        if srange(x)[0] >= 0 and op not in ("srem", "sdiv") and not (op in ("add", "sub", "mul") and self.nat(x) == "s"):
            return self.U(x)
        if op in ("add", "sub", "mul"):
            return self._arith(x, self.S, srange, True)
        if op == "sdiv":
            a, b = x.args
            q, _ = self.tdiv(self.S(a), srange(a), self.S(b), srange(b))
            # min / -1 and division by zero are excluded by undefined-behaviour obligations
            return q
        if op == "srem":
            a, b = x.args
            return self.tdiv(self.S(a), srange(a), self.S(b), srange(b))[1]
        if op == "ashr" and x.args[1].op == "const":
            return self.S(x.args[0]) / (1 << min(x.args[1].aux, n - 1))
        if op == "extract" and x.aux[1] == 0:
            a = x.args[0]
            if self.nat(a) == "s":
                l, h = srange(a)
                return self.wrap(self.S(a), l, h, n, True)
        if op == "i2b":
            l, h = bounds(x.args[0])
            return self.wrap(self.I(x.args[0]), l, h, n, True)
        return self.s_of_u(x)

    def _U(self, x):
        n, op = x.sort, x.op
        if op == "const":
            return z3.IntVal(x.aux)
        if op == "var":
            if self.hints.get(x.aux, "u") == "s":
                return self.u_of_s(x)
            v = z3.Int(x.aux)
            self.vars[x.aux] = ("u", v, n)
            self.side.append(z3.And(v >= 0, v < (1 << n)))
            return v
        if op == "ite":
            return z3.If(self.B(x.args[0]), self.U(x.args[1]), self.U(x.args[2]))
        if op == "zext":
            return self.U(x.args[0])
        if op in ("sext", "sdiv", "srem", "ashr"):
            return self.u_of_s(x)
        if op in ("add", "sub", "mul"):
            if srange(x)[0] >= 0 and self.nat(x) == "s":
                return self.S(x)
            return self._arith(x, self.U, urange, False)
        if op in ("udiv", "urem"):
            a, b = x.args
            q, m = self.tdiv(self.U(a), urange(a), self.U(b), urange(b))
            if op == "udiv":
                return z3.If(self.U(b) == 0, z3.IntVal((1 << n) - 1), q) if urange(b)[0] == 0 else q
            return z3.If(self.U(b) == 0, self.U(a), m) if urange(b)[0] == 0 else m
        if op == "band":
            a, b = x.args
            if b.op == "const":
                a, b = b, a
            if a.op == "const" and (a.aux & (a.aux + 1)) == 0:
                return self.U(b) % (a.aux + 1)
            raise NeedBV("band")
        if op == "shl" and x.args[1].op == "const":
            k = x.args[1].aux
            if k >= n:
                return z3.IntVal(0)
            a = x.args[0]
            l, h = urange(a)
            return self.wrap(self.U(a) * (1 << k), l << k, h << k, n, False)
        if op == "lshr" and x.args[1].op == "const":
            return self.U(x.args[0]) / (1 << min(x.args[1].aux, n))
        if op == "extract":
            a, (hi, lo) = x.args[0], x.aux
            if lo == 0:
                if self.nat(a) == "s":
                    l, h = srange(a)
                    return self.wrap(self.S(a), l, h, n, False)
                l, h = urange(a)
                return self.wrap(self.U(a), l, h, n, False)
            e = self.U(a) / (1 << lo)
            return e if hi == a.sort - 1 else e % (1 << n)
        if op == "concat":
            return self.U(x.args[0]) * (1 << x.args[1].sort) + self.U(x.args[1])
        if op == "i2b":
            l, h = bounds(x.args[0])
            return self.wrap(self.I(x.args[0]), l, h, n, False)
        raise NeedBV(op)

    # ---- nonlinear
    def mul(self, a, ba, b, bb):
        if z3.is_int_value(a) or z3.is_int_value(b):
            return a * b
        k = tuple(sorted((a.get_id(), b.get_id())))
        if k in self.prods:
            return self.prods[k][0]
        p = self.fresh("p")
        self.prods[k] = (p, a, b, ba, bb)
        return p

    def tdiv(self, a, ba, b, bb):
        k = (a.get_id(), b.get_id())
        if k in self.divs:
            return self.divs[k][:2]
        q, r = self.fresh("q"), self.fresh("r")
        self.divs[k] = (q, r, a, b)
        m = None
        if ba[0] is not None and ba[1] is not None:
            m = max(abs(ba[0]), abs(ba[1]))
        if z3.is_int_value(b):
            c = b.as_long()
            if c == 0:
                self.side.append(z3.And(q == 0, r == a))
                return q, r
            p = q * c
            ab = z3.IntVal(abs(c))
        else:
            p = self.mul(q, (None if m is None else -m, m), b, bb)
            ab = z3.If(b < 0, -b, b)
        self.side.append(z3.Implies(b != 0, z3.And(a == p + r, r < ab, -r < ab,
                                                   z3.Implies(a >= 0, r >= 0), z3.Implies(a <= 0, r <= 0),
                                                   z3.Implies(z3.And(a >= 0, b > 0), q >= 0),
                                                   z3.Implies(z3.And(a <= 0, b < 0), q >= 0),
                                                   z3.Implies(z3.And(a >= 0, b < 0), q <= 0),
                                                   z3.Implies(z3.And(a <= 0, b > 0), q <= 0))))
        self.side.append(z3.Implies(b == 0, z3.And(q == 0, r == a)))
        if m is not None:
            self.side.append(z3.And(q <= m, q >= -m))
        return q, r

    def lemmas(self):
        out = []
        ps = list(self.prods.values())
        for p, a, b, ba, bb in ps:
            out += [z3.Implies(a == 0, p == 0), z3.Implies(b == 0, p == 0),
                    z3.Implies(a == 1, p == b), z3.Implies(b == 1, p == a),
                    z3.Implies(a == -1, p == -b), z3.Implies(b == -1, p == -a),
                    z3.Implies(z3.And(a > 0, b > 0), z3.And(p >= a, p >= b)),
                    z3.Implies(z3.And(a < 0, b < 0), z3.And(p >= -a, p >= -b)),
                    z3.Implies(z3.And(a > 0, b < 0), z3.And(p <= -a, p <= b)),
                    z3.Implies(z3.And(a < 0, b > 0), z3.And(p <= a, p <= -b))]
            al, ah = ba
            bl, bh = bb
            if None not in (al, bl):
                out.append(p >= a * bl + b * al - al * bl)
            if None not in (ah, bh):
                out.append(p >= a * bh + b * ah - ah * bh)
            if None not in (al, bh):
                out.append(p <= a * bh + b * al - al * bh)
            if None not in (ah, bl):
                out.append(p <= a * bl + b * ah - ah * bl)
        # truncated division: t/(-u) = -(t/u), t%(-u) = t%u, (-t)/u = -(t/u), (-t)%u = -(t%u)
        ds = list(self.divs.values())
        if len(ds) <= 16:
            for i in range(len(ds)):
                for j in range(i + 1, len(ds)):
                    q1, r1, a1, b1 = ds[i]
                    q2, r2, a2, b2 = ds[j]
                    for sa in (1, -1):
                        for sb in (1, -1):
                            out.append(z3.Implies(z3.And(a1 == sa * a2, b1 == sb * b2, b1 != 0),
                                                  z3.And(q1 == sa * sb * q2, r1 == sa * r2)))
        # truncated division is monotone in the dividend, and in the divisor on either side of zero
        if len(ds) <= 16:
            for i in range(len(ds)):
                for j in range(len(ds)):
                    q1, r1, a1, b1 = ds[i]
                    q2, r2, a2, b2 = ds[j]
                    if i == j:
                        continue
                    if b1.get_id() == b2.get_id():
                        out += [z3.Implies(z3.And(a1 <= a2, b1 > 0), q1 <= q2),
                                z3.Implies(z3.And(a1 <= a2, b1 < 0), q1 >= q2)]
                    if a1.get_id() == a2.get_id():
                        same = z3.And(b1 <= b2, z3.Or(b1 > 0, b2 < 0))
                        out += [z3.Implies(z3.And(same, a1 >= 0), q1 >= q2),
                                z3.Implies(z3.And(same, a1 <= 0), q1 <= q2)]
        n = len(ps)
        if n > 24:
            return out
        for i in range(n):
            for j in range(n):
                if i == j:
                    continue
                p1, a1, b1 = ps[i][:3]
                p2, a2, b2 = ps[j][:3]
                for x1, y1 in ((a1, b1), (b1, a1)):
                    for x2, y2 in ((a2, b2), (b2, a2)):
                        if y1.get_id() == y2.get_id() and x1.get_id() != x2.get_id():
                            y = y1
                            out += [z3.Implies(z3.And(x1 > x2, y >= 0), p1 - p2 >= y),
                                    z3.Implies(z3.And(x1 > x2, y <= 0), p1 - p2 <= y),
                                    z3.Implies(x1 == x2, p1 == p2)]
        # same magnitudes, opposite signs: (-a)*b = -(a*b)
        for i in range(n):
            for j in range(i + 1, n):
                p1, a1, b1 = ps[i][:3]
                p2, a2, b2 = ps[j][:3]
                for x2, y2 in ((a2, b2), (b2, a2)):
                    out += [z3.Implies(z3.And(a1 == x2, b1 == y2), p1 == p2),
                            z3.Implies(z3.And(a1 == -x2, b1 == y2), p1 == -p2),
                            z3.Implies(z3.And(a1 == x2, b1 == -y2), p1 == -p2)]
        return out

    def native(self):
        """exact definitions for z3's own nonlinear solver"""
        return [p == a * b for p, a, b, _, _ in self.prods.values()]

    def model(self, m):
        env = {}
        for name, v in self.vars.items():
            x = m.eval(v[1], model_completion=True)
            if v[0] == "b":
                env[name] = z3.is_true(x)
            elif v[0] == "i":
                env[name] = x.as_long()
            else:
                env[name] = x.as_long() & ((1 << v[2]) - 1)
        return env


def hints(ts):
    """per variable: is it mostly used as a signed or an unsigned number?"""
    sc = {}
    seen, st = set(), list(ts)

    def vote(a, w):
        while a.op in ("zext", "sext", "extract") and a.args:
            a = a.args[0]
        if a.op == "var":
            sc[a.aux] = sc.get(a.aux, 0) + w
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ("slt", "sdiv", "srem", "sext", "b2s", "ashr"):
            for a in x.args:
                if a.op == "var":
                    vote(a, 1)
        elif x.op in ("ult", "udiv", "urem", "zext", "b2u", "lshr"):
            for a in x.args:
                if a.op == "var":
                    vote(a, -1)
        st.extend(x.args)
    return {k: ("s" if v > 0 else "u") for k, v in sc.items()}


# --------------------------------------------------------------------- bit-vector lowering
def wbits(lo, hi):
    """signed width that holds [lo, hi]"""
    return max(lo.bit_length() if lo >= 0 else (-lo - 1).bit_length(), hi.bit_length() if hi >= 0 else (-hi - 1).bit_length()) + 1


class BvLower:
    def __init__(self):
        self.m, self.im = {}, {}
        self.vars = {}

    def B(self, x):
        r = self.m.get(x.id)
        if r is not None:
            return r
        op, A = x.op, x.args
        if op == "true":
            r = z3.BoolVal(True)
        elif op == "false":
            r = z3.BoolVal(False)
        elif op == "bvar":
            r = z3.Bool(x.aux)
            self.vars[x.aux] = ("b", r)
        elif op == "not":
            r = z3.Not(self.B(A[0]))
        elif op == "and":
            r = z3.And([self.B(a) for a in A])
        elif op == "or":
            r = z3.Or([self.B(a) for a in A])
        elif op == "iff":
            r = self.B(A[0]) == self.B(A[1])
        elif op == "eq":
            if A[0].sort == t.INT:
                a, b = self.pair(A[0], A[1])
                r = a == b
            else:
                r = self.B(A[0]) == self.B(A[1])
        elif op == "ite":
            r = z3.If(self.B(A[0]), self.B(A[1]), self.B(A[2]))
        elif op == "ult":
            r = z3.ULT(self.B(A[0]), self.B(A[1]))
        elif op == "slt":
            r = self.B(A[0]) < self.B(A[1])
        elif op == "ilt":
            a, b = self.pair(A[0], A[1])
            r = a < b
        elif op == "i1":
            r = self.B(A[0]) == 1
        elif op == "const":
            r = z3.BitVecVal(x.aux, x.sort)
        elif op == "var":
            r = z3.BitVec(x.aux, x.sort)
            self.vars[x.aux] = ("v", r)
        elif op in ("zext", "sext"):
            f = z3.ZeroExt if op == "zext" else z3.SignExt
            r = f(x.sort - A[0].sort, self.B(A[0]))
        elif op == "extract":
            r = z3.Extract(x.aux[0], x.aux[1], self.B(A[0]))
        elif op == "concat":
            r = z3.Concat(self.B(A[0]), self.B(A[1]))
        elif op == "i2b":
            v, w = self.I(A[0])
            r = z3.Extract(x.sort - 1, 0, v) if w > x.sort else (z3.SignExt(x.sort - w, v) if w < x.sort else v)
        else:
            a, b = self.B(A[0]), self.B(A[1])
            r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "band": lambda: a & b,
                 "bor": lambda: a | b, "xor": lambda: a ^ b, "shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b),
                 "ashr": lambda: a >> b, "udiv": lambda: z3.UDiv(a, b), "urem": lambda: z3.URem(a, b),
                 "sdiv": lambda: a / b, "srem": lambda: z3.SRem(a, b)}[op]()
        self.m[x.id] = r
        return r

    def ext(self, v, w, n):
        return v if w == n else z3.SignExt(n - w, v)

    def pair(self, a, b):
        (x, p), (y, q) = self.I(a), self.I(b)
        n = max(p, q)
        return self.ext(x, p, n), self.ext(y, q, n)

    def I(self, x):
        r = self.im.get(x.id)
        if r is not None:
            return r
        op, A = x.op, x.args
        lo, hi = bounds(x)
        if lo is None or hi is None:
            raise NeedBV("unbounded integer term")
        if op == "iconst":
            w = wbits(lo, hi)
            r = (z3.BitVecVal(x.aux, w), w)
        elif op == "b2s":
            r = (self.B(A[0]), A[0].sort)
        elif op == "b2u":
            r = (z3.ZeroExt(1, self.B(A[0])), A[0].sort + 1)
        elif op == "ite":
            c = self.B(A[0])
            (a, p), (b, q) = self.I(A[1]), self.I(A[2])
            n = max(p, q)
            r = (z3.If(c, self.ext(a, p, n), self.ext(b, q, n)), n)
        elif op in ("iadd", "imul"):
            (a, p), (b, q) = self.I(A[0]), self.I(A[1])
            n = max(p, q, wbits(lo, hi))
            a, b = self.ext(a, p, n), self.ext(b, q, n)
            r = (a + b if op == "iadd" else a * b, n)
        elif op in ("itdiv", "itmod"):
            (a, p), (b, q) = self.I(A[0]), self.I(A[1])
            n = max(p, q) + 1
            a, b = self.ext(a, p, n), self.ext(b, q, n)
            if op == "itdiv":
                r = (z3.If(b == 0, z3.BitVecVal(0, n), a / b), n)
            else:
                r = (z3.If(b == 0, a, z3.SRem(a, b)), n)
        elif op in ("ishl", "ishr"):
            (a, p), (k, q) = self.I(A[0]), self.I(A[1])
            n = max(p, wbits(lo, hi), 9) + 1
            a = self.ext(a, p, n)
            if q > n:      # clamp before truncating
                k = z3.If(k < 0, z3.BitVecVal(0, q), z3.If(k > 70, z3.BitVecVal(70, q), k))
                k = z3.Extract(n - 1, 0, k)
            else:
                k = self.ext(k, q, n)
                k = z3.If(k < 0, z3.BitVecVal(0, n), z3.If(k > 70, z3.BitVecVal(70, n), k))
            r = (a << k if op == "ishl" else a >> k, n)
        else:
            raise NeedBV(op)
        self.im[x.id] = r
        return r

    def model(self, m):
        env = {}
        for name, (k, v) in self.vars.items():
            x = m.eval(v, model_completion=True)
            env[name] = z3.is_true(x) if k == "b" else x.as_long()
        return env


# --------------------------------------------------------------------- decision procedure
class Result:
    def __init__(self, st, backend, time_s, env=None, smt=None):
        self.status, self.backend, self.time, self.env, self.smt = st, backend, time_s, env, smt


def _refutes(hyp, goal, env):
    memo = {}
    try:
        return bool(t.evaluate(hyp, env, memo)) and not bool(t.evaluate(goal, env, memo))
    except Exception:
        return False


def _check(solver, timeout):
    solver.set("timeout", int(timeout * 1000))
    try:
        return solver.check()
    except z3.Z3Exception:
        return z3.unknown


def try_int(hyp, goal, timeout, nl="lemma"):
    t0 = time.time()
    ng = t.lnot(goal)
    try:
        L = IntLower(hints([hyp, ng]), nl == "uf")
        fs = [L.B(hyp), L.B(ng)]
    except (NeedBV, RecursionError):
        return Result("unknown", "int", 0.0)
    s = z3.Solver()
    s.add(fs)
    s.add(L.side)
    if nl == "native":
        s.add(L.native())
    s.add(L.lemmas())
    r = _check(s, timeout)
    dt = time.time() - t0
    be = {"lemma": "z3-int", "uf": "z3-int-uf"}.get(nl, "z3-nia")
    if r == z3.unsat:
        return Result("proved", be, dt)
    if nl == "uf":
        return Result("unknown", be, dt)
    if r == z3.sat:
        env = L.model(s.model())
        if _refutes(hyp, goal, env):
            return Result("refuted", be, dt, env)
        return Result("unknown", be, dt, env, s.to_smt2())
    return Result("unknown", be, dt, None, s.to_smt2())


def try_bv(hyp, goal, timeout):
    t0 = time.time()
    try:
        L = BvLower()
        fs = [L.B(hyp), L.B(t.lnot(goal))]
    except NeedBV:
        return Result("unknown", "bv", 0.0)
    s = z3.SolverFor("QF_BV")
    s.add(fs)
    r = _check(s, timeout)
    dt = time.time() - t0
    if r == z3.unsat:
        return Result("proved", "z3-bv", dt)
    if r == z3.sat:
        env = L.model(s.model())
        if _refutes(hyp, goal, env):
            return Result("refuted", "z3-bv", dt, env)
        return Result("unknown", "z3-bv", dt, env, s.to_smt2())
    return Result("unknown", "z3-bv", dt, None, s.to_smt2())


def try_cvc5(smt, timeout):
    """second opinion on an SMT-LIB problem: only `unsat` is used"""
    t0 = time.time()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(smt)
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000), f.name], capture_output=True, text=True,
                           timeout=timeout + 5)
        ok = p.stdout.strip().splitlines()[:1] == ["unsat"]
    except Exception:
        ok = False
    os.unlink(f.name)
    return Result("proved" if ok else "unknown", "cvc5", time.time() - t0)


def decide(hyp, goal, budget=20.0):
    """hyp |- goal ?   -> Result"""
    if hyp is t.FALSE or goal is t.TRUE:
        return Result("proved", "simplifier", 0.0)
    f = features([hyp, goal])
    if f["bits"]:
        plan = [("bv", budget)]
        if f["ivar"] and not f["bvvar"]:
            plan = [("uf", 3), ("bv", budget)]
    elif f["nl"]:
        if f["maxw"] <= 16:
            plan = [("int", 2), ("bv", budget / 2), ("int", budget / 2), ("nia", budget / 4)]
        else:
            plan = [("int", budget / 2), ("bv", budget / 4), ("nia", budget / 4)]
    else:
        plan = [("int", 3), ("bv", budget / 2), ("int", budget / 2)]
    tot = 0.0
    last = None
    smts = []
    for k, b in plan:
        r = try_int(hyp, goal, b) if k == "int" else try_int(hyp, goal, b, "native") if k == "nia" else try_int(hyp, goal, b, "uf") if k == "uf" else try_bv(hyp, goal, b)
        tot += r.time
        if r.status != "unknown":
            r.time = tot
            return r
        if r.smt:
            smts.append((k, r.smt, r.env is None))
        last = r
    for k, s, undecided in smts:
        if not undecided:
            continue
        r = try_cvc5(s, budget / 4)
        tot += r.time
        if r.status == "proved":
            r.time = tot
            return r
    last.time = tot
    return last
