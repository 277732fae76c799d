"""Contracts on the library's own functions, used modularly: when a function
under contract is called, the caller sees its contract, not its body.  Every
contract that is used is first verified against the body that is in the
current source (one obligation per postcondition, plus absence of undefined
behaviour); a body that does not satisfy its contract is inlined instead, so
that the caller's own obligations decide.

 A  checked_operation<R, F>::op(t, u), heterogeneous_checked_operation<R,Min,Max,T,F>::cast(t)
    the outcome the specification of the operation demands (props/c01..c05); an
    error k is produced by exactly one call of F::invoke<k>
 B  operators on checked_result<R> (props/c08), comparisons (props/c09)
    requires: the operands carry a code of the library
 C  utility::significant_bits (props/c07)
"""
import hashlib, json, os, re, time
import terms as t
import ir, execu, lower
from terms import TRUE, FALSE, land, lor, lnot, ite

TY = {"a": "sc", "c": "c", "h": "uc", "s": "s", "t": "us", "i": "i", "j": "u", "l": "l", "m": "ul", "x": "ll", "y": "ull"}
LT = r"L([acsthijlmxy])(n?\d+)E"
RE_OP = re.compile(r"^_ZN5boost13safe_numerics17checked_operationI([acsthijlmxy])NS0_(?:19make_checked_resultI|19dispatch_and_returnI).*EEv?E(3add|8subtract|5minus|8multiply|6divide|7modulus|10left_shift|11right_shift|10bitwise_or|11bitwise_and|11bitwise_xor|11bitwise_not)ERK[^_]*[acsthijlmxyS_0-9]*$")
RE_CAST = re.compile(r"^_ZN5boost13safe_numerics31heterogeneous_checked_operationI([acsthijlmxy])" + LT + LT +
                     r"([acsthijlmxy])NS0_(?:19make_checked_resultI|19dispatch_and_returnI).*EvE4castERK[acsthijlmxy]$")
RE_CR = re.compile(r"^_ZN5boost13safe_numerics(pl|mi|ml|dv|rm|ng|ls|rs)I([acsthijlmxy])EENSt9enable_if.*14checked_result.*$")
RE_CMP = re.compile(r"^_ZN5boost13safe_numerics(lt|gt|le|ge|eq|ne)I([acsthijlmxy])EENS_5logic7triboolERKNS0_14checked_result")
RE_SB = re.compile(r"^_ZN5boost13safe_numerics7utility16significant_bitsI([acsthijlmxy])E")
RE_INV = re.compile(r"6invokeILNS0_19safe_numerics_errorE(\d+)E")
CALLEE = re.compile(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(')


FAM = {False: "_ZN5boost13safe_numerics19make_checked_resultI", True: "_ZN5boost13safe_numerics19dispatch_and_returnI"}


class PE:
    """what a specification function of props/ may look at"""

    def __init__(self, a, A, code, val64):
        self.a, self.A, self.out = a, A, [t.zext(code, 64), val64]


def shift_codes(spec):
    """C04 leaves open which shift error it is; the callers in checked_result_operations.hpp rely on this"""
    def f(e, c, val, x, k):
        import vc
        return spec(e, c, val, x, k) + [
            ("a count that is too large for a non-negative value is shift_too_large",
             t.implies(land(t.ile(0, x), t.ile(0, k), lnot(t.ieq(c, vc.OK))), t.ieq(c, vc.BIGSH)))]
    return f


def lnum(s):
    return -int(s[1:]) if s[0] == "n" else int(s)


class Contract:
    def __init__(self, reg, name, kind, R, T=None, spec=None, n=2, requires=None, label=""):
        import vc
        self.reg, self.name, self.kind, self.R, self.T = reg, name, kind, R, T or R
        self.spec, self.n, self.label = spec, n, label
        self.disp = "19dispatch_and_returnI" in name
        self.bits, self.signed = vc.bits(R), vc.signed(R)
        self.tb, self.ts = vc.bits(self.T), vc.signed(self.T)

    # ---- reading operands
    def operands(self, ctx, st, args):
        """-> list of (code term or None, value bits)"""
        out = []
        for p in args[:self.n]:
            if self.kind == "A":
                v = ctx.load(st, p, ir.INTT(self.tb)) if isinstance(p, execu.Ptr) else t.extract(p, self.tb - 1, 0)
                out.append((None, v))
            else:
                c = ctx.load(st, p, ir.INTT(8))
                v = ctx.load(st, ctx.padd(p, 8, []), ir.INTT(self.bits))
                out.append((c, v))
        return out

    def formulas(self, ops, code, val):
        """-> [(label, Bool)]"""
        import c08
        v64 = t.sext(val, 64) if self.signed else t.zext(val, 64)
        c = t.U(code)
        x = t.bval(val, self.signed)
        if self.kind == "A":
            A = [t.bval(v, self.ts) for _, v in ops]
            e = PE([v for _, v in ops], A, code, v64)
            return self.spec(e, c, x, *A)
        O = [c08.Op(t.U(k), t.bval(v, self.signed)) for k, v in ops]
        e = PE([], [], code, v64)
        return self.spec(e, c, x, *O)

    def requires(self, ops):
        if self.kind == "A":
            return TRUE
        return land(*[t.ile(t.U(c), 10) for c, _ in ops])

    def rank(self, ops):
        """decreasing measure of the mutually recursive << and >>"""
        import c08
        a, b = [c08.Op(t.U(k), t.bval(v, self.signed)) for k, v in ops]
        return ite(land(a.lt0, b.lt0), t.ic(2), ite(land(a.lt0, b.gt0), t.ic(1), ite(land(a.gt0, b.lt0), t.ic(1), t.ic(0))))

    def pack(self, ctx, fname, code, payload):
        f = ctx.M.fn(fname)
        ty = ctx.res(f.ret)
        if ty.k != "struct" or len(ty.fields) != 2:
            raise execu.Unsupported("return type of %s" % fname)
        p2 = ctx.res(ty.fields[1])
        return (code, execu.P1("raw", payload) if p2.k == "ptr" else t.extract(payload, p2.n - 1, 0))

    def payload(self, val):
        return val if val.sort == 64 else t.concat(t.fresh("pad", 64 - val.sort), val)

    # ---- use at a call
    def apply(self, ctx, st, args):
        ops = self.operands(ctx, st, args)
        rq = self.requires(ops)
        if rq is not TRUE:
            ctx.traps.append((land(st.g, lnot(rq)), "contract-precondition", self.label))
        if self.kind == "B" and getattr(ctx, "verifying", None) and ctx.verifying.name[:30] == self.name[:30] and \
                self.label[:2] in ("ls", "rs") and ctx.verifying.label[:2] in ("ls", "rs"):
            ctx.traps.append((land(st.g, lnot(t.ilt(self.rank(ops), ctx.verifying_rank))), "recursion-does-not-terminate", self.label))
        code = t.fresh("c", 8)
        val = t.fresh("r", self.bits)
        hyp = land(rq, st.g) if rq is not TRUE else TRUE
        fs = land(*[f for _, f in self.formulas(ops, code, val)])
        fs = land(fs, t.ile(t.U(code), 10))
        ctx.assumes.append(t.implies(rq, fs) if rq is not TRUE else fs)
        if self.kind == "B":
            return (st, self.pack(ctx, self.name, code, ite(t.eq(code, t.bv(0, 8)), self.payload(val), t.fresh("msg", 64))), [])
        # A: the error function of the policy is called with the message
        codes = self.reg.codes(self.name)
        env = st.env
        outs, excs = [], []
        ok = t.eq(code, t.bv(0, 8))
        s0 = st.fork(land(st.g, ok))
        s0.env = {"$ret": self.pack(ctx, self.name, t.bv(0, 8), self.payload(val))}
        if s0.g is not FALSE:
            outs.append(s0)
        ctx.assumes.append(lor(ok, *[t.eq(code, t.bv(k, 8)) for k in codes]))
        for k, fn in sorted(codes.items()):
            s = st.fork(land(st.g, t.eq(code, t.bv(k, 8))))
            if s.g is FALSE:
                continue
            m = ctx.new(s, 8, "message", {0: (8, execu.P1("raw", t.fresh("text", 64)))})
            s, rv, ex = ctx.call_named(s, fn, [execu.P1(m)])
            for x in ex:
                excs.append(x)
            if s is not None and s.g is not FALSE:
                s.env = {"$ret": rv}
                outs.append(s)
        r = ctx.merge(outs)
        if r is None:
            return None, None, excs
        rv = r.env["$ret"]
        r.env = env
        return r, rv, excs

    # ---- verification of the body
    def verify(self):
        reg = self.reg
        M = reg.M
        f = M.fn(self.name)
        ctx = execu.Ctx(M, View(reg, self))
        st = execu.St(TRUE, {}, {})
        pre = TRUE
        args, ops = [], []
        for k in range(self.n):
            v = t.var("k%d" % k, self.tb)
            if self.kind == "A":
                o = ctx.new(st, self.tb // 8, "op%d" % k, {0: (self.tb // 8, v)})
                ops.append((None, v))
                pty = f.params[k][1]
                args.append(execu.P1(o) if pty.k == "ptr" else v)
            else:
                c = t.var("kc%d" % k, 8)
                # an error's message pointer overlays the value
                o = ctx.new(st, 16, "op%d" % k, {0: (1, c), 8: (8, self.payload(v))})
                ops.append((c, v))
                args.append(execu.P1(o))
        pre = self.requires(ops)
        if len(args) != len(f.params):
            raise execu.Unsupported("signature")
        ghost = None
        if self.kind == "A":
            ghost = ctx.new(st, 2, "ghost", {0: (1, t.bv(0, 8)), 1: (1, t.bv(0, 8))})
            ctx.ghost = ghost
        else:
            ctx.verifying = self
            if self.label[:2] in ("ls", "rs"):
                ctx.verifying_rank = self.rank(ops)

        def feasible(g):
            return lower.decide(land(pre, g, *ctx.assumes), FALSE, 4.0).status != "proved"
        ctx.feasible = feasible
        m, rv, ex = ctx.run(f, args, st)
        goals = [("no-%s in %s" % (k, w), lnot(g)) for g, k, w in ctx.traps]
        goals += [("returns normally", lnot(x.g)) for x in ex if x.g is not FALSE]
        if m is None or m.g is FALSE:
            goals.append(("returns", FALSE))
        else:
            goals.append(("returns normally", t.implies(pre, m.g) if m.g is not TRUE else TRUE))
            if isinstance(rv, tuple):
                code, pay = rv
                val = t.extract(ctx.p2i(pay), self.bits - 1, 0)
            else:
                raise execu.Unsupported("return value")
            for l, g in self.formulas(ops, code, val):
                goals.append((l, t.implies(m.g, g)))
            goals.append(("the outcome is a library code", t.implies(m.g, t.ile(t.U(code), 10))))
            if self.disp:      # make_checked_result has no effect but its result
                d = ctx.mem(m, ghost)
                n, k = ctx.rawload(d, 0, 1), ctx.rawload(d, 1, 1)
                e = lnot(t.eq(code, t.bv(0, 8)))
                goals.append(("an error is produced by exactly one call of its error function",
                              t.implies(m.g, ite(e, land(t.eq(n, t.bv(1, 8)), t.eq(k, code)), t.eq(n, t.bv(0, 8))))))
        return land(pre, *ctx.assumes), goals, ctx


class Cmp:
    """tribool comparison of two checked results: a function of the operands"""

    def __init__(self, reg, name, op, R):
        import vc
        self.reg, self.name, self.op, self.R = reg, name, op, R
        self.bits, self.signed = vc.bits(R), vc.signed(R)
        self.label = op + " " + R
        self.kind = "cmp"
        self.n = 2
        self.tb = self.bits

    operands = Contract.operands
    payload = Contract.payload
    requires = Contract.requires

    def value(self, ops):
        import c08
        a, b = [c08.Op(t.U(k), t.bval(v, self.signed)) for k, v in ops]
        vv = land(a.val, b.val)
        lt = lor(land(vv, t.ilt(a.v, b.v)), land(b.pos, lor(a.val, a.neg)), land(a.neg, lor(b.val, b.pos)))
        gt = lor(land(vv, t.ilt(b.v, a.v)), land(a.pos, lor(b.val, b.neg)), land(b.neg, lor(a.val, a.pos)))
        eq = land(vv, t.ieq(a.v, b.v))
        tr = {"lt": lt, "gt": gt, "le": lor(lt, eq), "ge": lor(gt, eq), "eq": eq, "ne": lor(lt, gt)}[self.op]
        fa = {"lt": lor(gt, eq), "gt": lor(lt, eq), "le": gt, "ge": lt, "eq": lor(lt, gt), "ne": eq}[self.op]
        return ite(tr, t.bv(1, 32), ite(fa, t.bv(0, 32), t.bv(2, 32)))

    def apply(self, ctx, st, args):
        ops = self.operands(ctx, st, args)
        rq = self.requires(ops)
        if rq is not TRUE:
            ctx.traps.append((land(st.g, lnot(rq)), "contract-precondition", self.label))
        return (st, self.value(ops), [])

    def verify(self):
        M = self.reg.M
        f = M.fn(self.name)
        ctx = execu.Ctx(M, View(self.reg, self))
        st = execu.St(TRUE, {}, {})
        args, ops = [], []
        for k in range(2):
            v, c = t.var("k%d" % k, self.bits), t.var("kc%d" % k, 8)
            o = ctx.new(st, 16, "op%d" % k, {0: (1, c), 8: (8, self.payload(v))})
            ops.append((c, v))
            args.append(execu.P1(o))
        pre = self.requires(ops)
        m, rv, ex = ctx.run(f, args, st)
        goals = [("no-%s in %s" % (k, w), lnot(g)) for g, k, w in ctx.traps]
        goals += [("returns normally", lnot(x.g)) for x in ex if x.g is not FALSE]
        if m is None or rv is None or not isinstance(rv, t.T):
            raise execu.Unsupported("return value")
        goals.append(("returns normally", t.implies(pre, m.g)))
        goals.append(("three-valued comparison", t.implies(m.g, t.eq(t.extract(rv, 31, 0), self.value(ops)))))
        return land(pre, *ctx.assumes), goals, ctx


class Sb:
    """significant_bits(t): 1 + index of the highest bit that differs from the sign bit"""

    def __init__(self, reg, name, R):
        import vc
        self.reg, self.name, self.R = reg, name, R
        self.bits, self.signed = vc.bits(R), vc.signed(R)
        self.label = "significant_bits " + R
        self.kind = "sb"

    def value(self, v):
        x = t.bval(v, self.signed)
        m = ite(t.ilt(x, 0), t.isub(t.ineg(x), 1), x)
        r = t.bv(1, 32)
        for k in range(1, 64):
            r = ite(t.ile(1 << k, m), t.bv(k + 1, 32), r)
        return r

    def apply(self, ctx, st, args):
        v = ctx.load(st, args[0], ir.INTT(self.bits))
        return (st, self.value(v), [])

    def verify(self):
        M = self.reg.M
        f = M.fn(self.name)
        if f.params[0][1].k != "ptr" or ctxsize(f) != 32:
            raise execu.Unsupported("signature")
        ctx = execu.Ctx(M, View(self.reg, self))
        st = execu.St(TRUE, {}, {})
        v = t.var("k0", self.bits)
        o = ctx.new(st, self.bits // 8, "op", {0: (self.bits // 8, v)})
        m, rv, ex = ctx.run(f, [execu.P1(o)], st)
        goals = [("no-%s in %s" % (k, w), lnot(g)) for g, k, w in ctx.traps]
        goals += [("returns normally", lnot(x.g)) for x in ex if x.g is not FALSE]
        goals.append(("returns normally", m.g))
        goals.append(("bit length", t.eq(rv, self.value(v))))
        return land(*ctx.assumes), goals, ctx


def ctxsize(f):
    return f.ret.n if f.ret.k == "int" else 0


class Stub:
    """F::invoke<k>, abstractly: records the call, returns an error result"""

    def __init__(self, name, k):
        self.name, self.k = name, k

    def apply(self, ctx, st, args):
        g = ctx.ghost
        d = dict(st.mem[g])
        n = ctx.rawload(d, 0, 1)
        ctx.write(d, 0, 1, ite(t.eq(n, t.bv(0, 8)), t.bv(1, 8), t.bv(2, 8)))
        ctx.write(d, 1, 1, t.bv(self.k, 8))
        st.mem[g] = d
        f = ctx.M.fn(self.name)
        ty = ctx.res(f.ret)
        if ty.k != "struct":
            raise execu.Unsupported("error function result")
        p2 = ctx.res(ty.fields[1])
        pl = t.fresh("msg", 64)
        return (st, (t.bv(self.k, 8), execu.P1("raw", pl) if p2.k == "ptr" else t.extract(pl, p2.n - 1, 0)), [])


class View:
    """contracts visible while one body is verified"""

    def __init__(self, reg, me):
        self.reg, self.me = reg, me

    def get(self, name):
        if self.me.kind == "A":
            m = RE_INV.search(name)
            if m and name.startswith(FAM[self.me.disp]):
                return Stub(name, int(m.group(1)))
            return self.reg.get(name) if RE_SB.match(name) else None
        if self.me.kind == "sb":
            return None
        if self.me.kind == "B" and self.me.label[:2] in ("ls", "rs"):
            m = RE_CR.match(name)
            if m and m.group(1) in ("ls", "rs"):
                return self.reg.raw(name)      # induction on the rank
        return self.reg.get(name)


def _ev(g, env):
    try:
        return bool(t.evaluate(g, env or {}))
    except Exception:
        return True


class Registry:
    def __init__(self, M, budget, tmp, use=("A", "B", "cmp", "sb")):
        self.M, self.budget, self.tmp, self.use = M, budget, tmp, use
        self.c, self.ok, self.busy, self.rep, self._codes = {}, {}, [], {}, {}

    # ---- call graph of the current source
    def callees(self, name):
        seen, st = set(), [name]
        while st:
            x = st.pop()
            x = self.M.aliases.get(x, x)
            if x in seen or x not in self.M.raw:
                continue
            seen.add(x)
            if RE_INV.search(x) and x != name:
                continue
            for ln in self.M.raw[x]:
                if "call " in ln or "invoke " in ln:
                    for m in CALLEE.finditer(ln):
                        n = m.group(1)
                        st.append(n[1:-1] if n.startswith('"') else n)
        return seen

    def codes(self, name):
        r = self._codes.get(name)
        if r is None:
            r = {}
            for x in self.callees(name):
                m = RE_INV.search(x)
                if m and x.startswith(FAM["19dispatch_and_returnI" in name]):
                    r[int(m.group(1))] = x
            self._codes[name] = r
        return r

    def make(self, name):
        import c01, c02, c03, c04, c05, c08
        import vc
        m = RE_OP.match(name)
        if m and "_detail" not in name:
            R, op = TY[m.group(1)], m.group(2).lstrip("0123456789")
            spec = {"add": lambda: c02.arith(R, t.iadd), "subtract": lambda: c02.arith(R, t.isub),
                    "minus": lambda: c02.arith(R, t.ineg), "multiply": lambda: c02.arith(R, t.imul),
                    "divide": lambda: c03.div(R), "modulus": lambda: c03.mod(R), "left_shift": lambda: shift_codes(c04.lsh(R)),
                    "right_shift": lambda: shift_codes(c04.rsh(R)), "bitwise_or": lambda: c05.bw(R, t.bor),
                    "bitwise_and": lambda: c05.bw(R, t.band), "bitwise_xor": lambda: c05.bw(R, t.bxor),
                    "bitwise_not": lambda: c05.bw(R, lambda a: t.bxor(a, t.bv(-1, a.sort)))}[op]()
            return Contract(self, name, "A", R, None, spec, 1 if op in ("minus", "bitwise_not") else 2, label=op + " " + R)
        m = RE_CAST.match(name)
        if m:
            R, L, H, T = TY[m.group(1)], lnum(m.group(3)), lnum(m.group(5)), TY[m.group(6)]
            return Contract(self, name, "A", R, T, c01.cast_spec(R, T, L, H), 1, label="cast %s->%s[%d,%d]" % (T, R, L, H))
        m = RE_CR.match(name)
        if m:
            op, R = m.group(1), TY[m.group(2)]
            n = 1 if op == "ng" else 2
            f = self.M.fn(name)
            if op == "mi" and f is not None and len(f.params) == 1:
                op, n = "ng", 1
            spec = {"pl": lambda: c08.addsub(R, 1), "mi": lambda: c08.addsub(R, -1), "ml": lambda: c08.mul(R),
                    "dv": lambda: c08.div(R), "rm": lambda: c08.mod(R), "ng": lambda: c08.neg(R),
                    "ls": lambda: c08.shift(R, True), "rs": lambda: c08.shift(R, False)}[op]()
            return Contract(self, name, "B", R, None, spec, n, label=op + " " + R)
        m = RE_CMP.match(name)
        if m:
            return Cmp(self, name, m.group(1), TY[m.group(2)])
        m = RE_SB.match(name)
        if m:
            return Sb(self, name, TY[m.group(1)])
        return None

    def raw(self, name):
        if name not in self.c:
            self.c[name] = self.make(name) if name in self.M.raw else None
        return self.c[name]

    def get(self, name):
        if not name.startswith("_ZN5boost13safe_numerics"):
            return None
        c = self.raw(name)
        if c is None or c.kind not in self.use:
            return None
        if name in self.busy:
            return None
        if name not in self.ok:
            self.ok[name] = self.check(name, c)
        return c if self.ok[name] else None

    def key(self, name):
        h = hashlib.sha256(name.encode())
        todo = {name}
        for x in sorted(self.callees(name)):
            todo.add(x)
        for x in sorted(todo):
            for ln in self.M.raw[x]:
                h.update(re.sub(r"(, )?!\S+|#\d+", "", ln).encode())
        return h.hexdigest()[:40]

    def check(self, name, c):
        f = os.path.join(self.tmp, "contract." + self.key(name))
        if os.path.exists(f):
            try:
                r = json.load(open(f))
                self.rep[c.label + " " + self.fclass(name)] = r
                return r["ok"]
            except Exception:
                pass
        t0 = time.time()
        self.busy.append(name)
        r = {"obligations": 0, "discharged": 0, "ok": False, "solver_s": 0.0}
        try:
            pre, goals, ctx = c.verify()
            r["obligations"] = len(goals)
            q = lower.decide(pre, land(*[g for _, g in goals]), self.budget)
            r["solver_s"] += q.time
            if q.status == "proved":
                r["discharged"], r["ok"], r["backend"] = len(goals), True, q.backend
            elif q.status == "unknown":
                for l, g in goals:
                    q = lower.decide(pre, g, self.budget)
                    r["solver_s"] += q.time
                    if q.status != "proved":
                        r["failed"] = l
                        break
                    r["discharged"] += 1
                    r["backend"] = q.backend
                r["ok"] = r["discharged"] == len(goals)
            else:
                r["failed"] = "refuted"
                r["model"] = {k: str(v) for k, v in (q.env or {}).items() if k[0] == "k"}
                r["failed_goals"] = [l for l, g in goals if not _ev(g, q.env)]
        except (execu.Unsupported, SyntaxError, RecursionError, KeyError, AttributeError, IndexError, TypeError,
                AssertionError) as e:
            r["failed"] = "%s: %s" % (type(e).__name__, e)
        self.busy.remove(name)
        r["time"] = round(time.time() - t0, 2)
        self.rep[c.label + " " + self.fclass(name)] = r
        tmp = f + ".%d" % os.getpid()
        with open(tmp, "w") as o:
            json.dump(r, o)
        os.replace(tmp, f)
        return r["ok"]

    def fclass(self, name):
        if "make_checked_result" in name:
            return "(make_checked_result)"
        if "dispatch_and_return" in name:
            return "(dispatch_and_return, policy %s)" % hashlib.sha256(
                name[name.index("dispatch_and_return"):].split("EvE")[0].encode()).hexdigest()[:6]
        return ""

    def report(self):
        return {"functions": self.rep}
