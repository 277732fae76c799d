"""One verification case = one instance of a library operation under contract.

Case.code   C++ that instantiates the operation through the public interface in
            an extern "C" function H_<name>; every parameter is universally
            quantified, results are written to the trailing `out` array
Case.pre    precondition over the parameters
Case.posts  named postconditions over parameters and outcome
The obligations of a case: every postcondition, plus the absence of undefined
behaviour / aborts / failed assertions / foreign exceptions on every path."""
import time
import terms as t
import ir
import execu
from terms import TRUE, FALSE, land, lor, lnot, ite

TYPES = {   # key: (C++ spelling, bits, signed)
    "c": ("char", 8, True), "sc": ("signed char", 8, True), "uc": ("unsigned char", 8, False),
    "s": ("short", 16, True), "us": ("unsigned short", 16, False),
    "i": ("int", 32, True), "u": ("unsigned int", 32, False),
    "l": ("long", 64, True), "ul": ("unsigned long", 64, False),
    "ll": ("long long", 64, True), "ull": ("unsigned long long", 64, False),
    "b": ("bool", 1, False),
    "w": ("wchar_t", 32, True), "c2": ("char16_t", 16, False), "c4": ("char32_t", 32, False),
}
ALL = ["c", "sc", "uc", "s", "us", "i", "u", "l", "ul", "ll", "ull"]
CHARS = ["w", "c2", "c4"]


def cpp(k):
    return TYPES[k][0]


def bits(k):
    return TYPES[k][1]


def signed(k):
    return TYPES[k][2]


def tmin(k):
    return -(1 << (bits(k) - 1)) if signed(k) else 0


def tmax(k):
    return (1 << (bits(k) - 1)) - 1 if signed(k) else (1 << bits(k)) - 1


# error codes of the library (exception.hpp); checked against the enum on every run (C20)
OK, POS, NEG, DOM, RNG, PREC, UNDER, NEGVAL, NEGSH, BIGSH, UNINIT = range(11)
CODE_NAMES = ["success", "positive_overflow_error", "negative_overflow_error", "domain_error", "range_error",
              "precision_overflow_error", "underflow_error", "negative_value_shift", "negative_shift",
              "shift_too_large", "uninitialized_value"]


class Arg:
    """ty: type key; lo, hi: universally quantified over [lo, hi] (default: whole type)
    kind 'val': by value; kind 'obj': pointer to an object of that base type, observable afterwards"""

    def __init__(self, ty, lo=None, hi=None, kind="val", cls=None, pool=()):
        self.ty = ty
        self.pool = pool         # values to try more often when an obligation is replayed
        self.lo = tmin(ty) if lo is None else lo
        self.hi = tmax(ty) if hi is None else hi
        self.kind = kind
        self.cls = cls           # C++ class of the object (kind obj)


class Case:
    def __init__(self, name, code, args, posts, nout=1, pre=None, meta=True, fn=None, ext=None, cover="normal",
                 note="", budget=None, ctx=None, pre_args=False, native=False):
        self.name, self.code, self.args, self.posts, self.nout = name, code, args, posts, nout
        self.pre, self.meta, self.fn, self.ext, self.cover, self.note = pre, meta, fn, ext, cover, note
        self.budget = budget
        self.solo = False
        self.excuse = None
        self.ill_formed = False  # the property says: the compiler must refuse this program
        self.pre_args = pre_args # pre talks about arguments only
        self.native = native     # the real code can be replayed although there are environment models
        self.ctx = ctx           # hook(execu.Ctx): environment models


class E:
    """what a specification can talk about"""

    def __init__(self):
        self.a, self.A = [], []        # arguments: bit patterns, mathematical values
        self.normal = self.threw = FALSE
        self.code = t.ic(0)            # error code carried by the exception (Int)
        self.out = []                  # 64-bit result slots
        self.after = []                # per 'obj' argument: value afterwards (Int)
        self.meta = []
        self.ev = {}                   # ghost state of environment models

    def o(self, k, sg=True):
        return t.S(self.out[k]) if sg else t.U(self.out[k])

    def res(self):
        """the result in slot 0 as a number; meta[1] tells whether its type is signed"""
        return self.o(0, bool(self.meta[1]))

    # meta convention: [bits, signed, min, max, ...] of the result's base type and declared range
    def rlim(self):
        n, s = self.meta[0], self.meta[1]
        return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if s else (0, (1 << n) - 1)

    def declared(self):
        lo, hi = self.meta[2], self.meta[3]
        if not self.meta[1]:
            lo, hi = lo & ((1 << 64) - 1), hi & ((1 << 64) - 1)
        return lo, hi


class Failure(Exception):
    pass


def read_meta(M, name):
    if name not in M.globals:
        return None
    _, ty, init = ir.parse_global(M.globals[name])
    if init is None:
        return None
    if init.k == "zero":
        return [0] * ty.n
    if init.k != "agg":
        return None
    return [t.sgn(x.v & ((1 << 64) - 1), 64) if x.k == "int" else 0 for x in init.v]


class Vc:
    """obligations of one case, generated from the IR of the current source"""

    def __init__(self, M, case, contracts=None):
        self.case = case
        self.M = M
        f = M.fn("H_" + case.name)
        if f is None:
            raise Failure("function H_%s not emitted" % case.name)
        ctx = self.ctx = execu.Ctx(M, contracts)
        e = self.e = E()
        e.ctx = ctx
        if case.meta:
            e.meta = read_meta(M, "M_" + case.name)
            if e.meta is None:
                raise Failure("result type facts of %s are not compile-time constants" % case.name)
        st = execu.St(TRUE, {}, {})
        pre = TRUE
        params = []
        self.vars = []
        objs = []
        for k, a in enumerate(case.args):
            n, sg = bits(a.ty), signed(a.ty)
            v = t.var("a%d" % k, n)
            self.vars.append(v)
            x = t.bval(v, sg)
            e.a.append(v)
            e.A.append(x)
            if a.lo > tmin(a.ty):
                pre = land(pre, t.ile(t.ic(a.lo), x))
            if a.hi < tmax(a.ty):
                pre = land(pre, t.ile(x, t.ic(a.hi)))
            if a.kind == "obj":
                oid = ctx.new(st, n // 8, "arg%d" % k, {0: (n // 8, v)})
                objs.append((oid, n, sg))
                params.append(execu.P1(oid))
            else:
                params.append(v)
        outid = ctx.new(st, 8 * max(case.nout, 1), "out", {})
        params.append(execu.P1(outid))
        if case.ext:
            params += case.ext(ctx, st)
        if len(params) != len(f.params):
            raise Failure("signature of H_%s changed" % case.name)
        params = [t.extract(p, ty.n - 1, 0) if isinstance(p, t.T) and ty.k == "int" and ty.n < p.sort else p
                  for p, (_, ty, _) in zip(params, f.params)]
        def feasible(g):
            import lower
            h = land(pre, *ctx.assumes)
            if case.pre and case.pre_args:
                h = land(h, case.pre(e))
            q = lower.decide(land(h, g), FALSE, 4.0)
            self.prune_s += q.time
            self.pruned += q.status == "proved"
            return q.status != "proved"
        self.prune_s, self.pruned = 0.0, 0
        ctx.feasible = feasible
        if case.ctx:
            case.ctx(ctx, e, st)
        m, rv, ex = ctx.run(f, params, st)
        exits = []
        if m is not None and m.g is not FALSE:
            exits.append((m, None))
        for x in ex:
            if x.g is not FALSE:
                exits.append((x, x.exc))
        e.out = None
        for s, exc in exits:
            o = [ctx.rawload(s.mem[outid], 8 * k, 8) for k in range(case.nout)]
            o = [ctx.p2i(v) for v in o]
            af = [t.bval(ctx.p2i(ctx.rawload(s.mem[oid], 0, n // 8)), sg) for oid, n, sg in objs]
            code = t.S(exc.code) if exc else t.ic(0)
            kind = exc.kind if exc else t.bv(0, 32)
            if e.out is None:
                e.out, e.after, e.code, e.kind = o, af, code, kind
            else:
                e.out = [ite(s.g, v, w) for v, w in zip(o, e.out)]
                e.after = [ite(s.g, v, w) for v, w in zip(af, e.after)]
                e.code = ite(s.g, code, e.code)
                e.kind = ite(s.g, kind, e.kind)
        if e.out is None:
            e.out = [t.bv(0, 64)] * case.nout
            e.after = [t.ic(0) for _ in objs]
            e.kind = t.bv(0, 32)
        e.normal = lor(*[s.g for s, x in exits if x is None])
        e.threw = lor(*[s.g for s, x in exits if x is not None])
        self.exits = exits
        if case.pre:
            pre = land(pre, case.pre(e))
        self.pre = land(pre, *ctx.assumes)
        self.goals = []
        byk = {}
        for g, kind, where in ctx.traps:
            byk.setdefault((kind, where), []).append(g)
        for (kind, where), gs in byk.items():
            self.goals.append(("no-%s in %s" % (kind, where), land(*[lnot(g) for g in gs])))
        if e.threw is not FALSE:
            self.goals.append(("only std::system_error in the library's category is thrown",
                               lor(lnot(e.threw), t.eq(e.kind, t.bv(execu.EXC_SYSTEM_ERROR, 32)))))
        for lab, p in case.posts(e):
            self.goals.append((lab, p))


def concrete(case, meta, args, outcome):
    """evaluate the specification on an observed outcome of the real code.
    outcome: dict(kind='normal'|'threw'|'trap', code, out=[..], after=[..], ev={})
    -> list of violated labels (empty: none, None: precondition false)"""
    e = E()
    e.meta = meta
    pre = TRUE
    for a, v in zip(case.args, args):
        n = bits(a.ty)
        b = t.bv(v, n)
        e.a.append(b)
        x = t.bval(b, signed(a.ty))
        e.A.append(x)
        pre = land(pre, t.boolc(a.lo <= x.aux <= a.hi))
    e.normal = t.boolc(outcome["kind"] == "normal")
    e.threw = t.boolc(outcome["kind"] == "threw")
    e.code = t.ic(outcome.get("code", 0))
    e.kind = t.bv(1 if outcome.get("syserr", True) else 2, 32)
    e.out = [t.bv(v, 64) for v in outcome.get("out", [0] * case.nout)]
    e.after = [t.ic(v) for v in outcome.get("after", [])]
    e.ev = outcome.get("ev", {})
    e.ctx = None
    if case.pre:
        pre = land(pre, case.pre(e))
    if not t.evaluate(pre, {}):
        return None
    if outcome["kind"] == "trap":
        return ["no-undefined-behaviour (" + outcome.get("msg", "") + ")"]
    bad = []
    if outcome["kind"] == "threw" and not outcome.get("syserr", True):
        bad.append("only std::system_error in the library's category is thrown")
    for lab, p in case.posts(e):
        if not t.evaluate(p, {}):
            bad.append(lab)
    return bad
