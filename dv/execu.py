"""Verification-condition generator: forward symbolic execution of one
function's LLVM IR with state merging (one guarded term per value, no path
enumeration).  Calls are replaced by the callee's contract when one is active,
otherwise the callee is inlined.  Loops are unrolled while their back-edge
condition is not constant-false, and an unwinding obligation is emitted, so an
accepted obligation set is complete."""
import terms as t
from terms import TRUE, FALSE, land, lor, lnot, ite
import ir


class Unsupported(Exception):
    pass


class Ptr:
    """alternatives (cond, base, off): base = object id | None (null) | 'raw' (off = 64-bit term)
    | ('fn', name).  off = int, or (int, [(term, scale)]) for symbolic indices."""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "Ptr%r" % (self.alts,)


def P1(base, off=0):
    return Ptr([(TRUE, base, off)])


NULL = P1(None, 0)


class Obj:
    __slots__ = ("size", "name", "const", "init")

    def __init__(self, size, name, const=False):
        self.size, self.name, self.const = size, name, const


class St:
    __slots__ = ("g", "mem", "env", "exc")

    def __init__(self, g, mem, env, exc=None):
        self.g, self.mem, self.env, self.exc = g, mem, env, exc

    def fork(self, g):
        return St(g, dict(self.mem), dict(self.env), self.exc)


class Exc:
    __slots__ = ("kind", "code")

    def __init__(self, kind, code):
        self.kind, self.code = kind, code


EXC_SYSTEM_ERROR = 1
EXC_OTHER = 2
TRAPS = {0: "add-overflow", 1: "builtin-unreachable", 3: "divrem-overflow", 5: "float-cast-overflow",
         7: "implicit-conversion", 8: "invalid-builtin", 10: "load-invalid-value", 11: "missing-return",
         12: "mul-overflow", 13: "negate-overflow", 18: "out-of-bounds", 19: "pointer-overflow",
         20: "shift-out-of-bounds", 21: "sub-overflow", 22: "type-mismatch", 24: "vla-bound"}


class Ctx:
    def __init__(self, M, contracts=None, maxdepth=120, unwind=140):
        self.M = M
        self.contracts = contracts or {}     # mangled name -> contract object
        self.objs = {}
        self.nobj = 0
        self.gobj = {}
        self.gmem = {}
        self.fnaddr = {}
        self.traps = []          # (guard, kind, where)
        self.depth = 0
        self.maxdepth = maxdepth
        self.unwind = unwind
        self.inlined = set()
        self.used_contracts = set()
        self.trusted = set()
        self.stack = []
        self.nins = 0
        self.assumes = []
        self.env_models = {}     # extra external models
        self.io = None

    # ------------------------------------------------------------- types
    def res(self, ty):
        while ty.k == "named":
            ty = self.M.types[ty.name]
        return ty

    def align(self, ty):
        ty = self.res(ty)
        if ty.k == "int":
            n = (ty.n + 7) // 8
            a = 1
            while a < n and a < 16:
                a *= 2
            return a
        if ty.k == "ptr":
            return 8
        if ty.k == "array":
            return self.align(ty.el)
        if ty.k == "struct":
            if ty.packed or not ty.fields:
                return 1
            return max(self.align(f) for f in ty.fields)
        if ty.k == "double":
            return 8
        if ty.k == "float":
            return 4
        if ty.k == "x86_fp80":
            return 16
        raise Unsupported("align %r" % ty)

    def size(self, ty):
        ty = self.res(ty)
        if ty.k == "int":
            n = (ty.n + 7) // 8
            a = self.align(ty)
            return (n + a - 1) // a * a
        if ty.k == "ptr":
            return 8
        if ty.k == "array":
            return ty.n * self.size(ty.el)
        if ty.k == "struct":
            return self.layout(ty)[1]
        if ty.k == "double":
            return 8
        if ty.k == "float":
            return 4
        if ty.k == "x86_fp80":
            return 16
        raise Unsupported("size %r" % ty)

    def layout(self, ty):
        ty = self.res(ty)
        off, offs = 0, []
        for f in ty.fields:
            a = 1 if ty.packed else self.align(f)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(f)
        a = self.align(ty)
        return offs, (off + a - 1) // a * a

    # ------------------------------------------------------------- objects
    def new(self, st, size, name, content=None, const=False):
        self.nobj += 1
        self.objs[self.nobj] = Obj(size, name, const)
        st.mem[self.nobj] = content or {}
        return self.nobj

    def glob(self, name):
        name = self.M.aliases.get(name, name)
        if name in self.M.raw or name in self.M.decls:
            return P1(("fn", name), 0)
        if name not in self.gobj:
            if name not in self.M.globals:
                raise Unsupported("global %s" % name)
            const, ty, init = ir.parse_global(self.M.globals[name])
            self.nobj += 1
            oid = self.nobj
            try:
                sz = self.size(ty)
            except Unsupported:
                sz = 0
            self.objs[oid] = Obj(sz, "@" + name, const)
            self.gobj[name] = oid
            d = {}
            self.gmem[oid] = d
            if init is not None and (const or ".guard" not in name):
                self.fill(d, 0, ty, init)
        return P1(self.gobj[name], 0)

    def fill(self, d, off, ty, v):
        ty = self.res(ty)
        if v.k == "undef":
            return
        if v.k == "zero":
            for k in range(self.size(ty)):
                d[off + k] = (1, t.bv(0, 8))
            if ty.k in ("int", "ptr"):
                for k in range(self.size(ty)):
                    d.pop(off + k)
                d[off] = (self.size(ty), t.bv(0, 8 * self.size(ty)) if ty.k == "int" else NULL)
            return
        if ty.k == "array":
            if v.k == "str":
                for i, b in enumerate(v.v):
                    d[off + i] = (1, t.bv(b, 8))
                return
            s = self.size(ty.el)
            for i, e in enumerate(v.v):
                self.fill(d, off + i * s, ty.el, e)
            return
        if ty.k == "struct":
            offs, _ = self.layout(ty)
            for o, f, e in zip(offs, ty.fields, v.v):
                self.fill(d, off + o, f, e)
            return
        x = self.const(v)
        if ty.k == "int" and ty.n % 8:
            x = t.zext(x, 8 * self.size(ty))
        d[off] = (self.size(ty), x)

    def mem(self, st, oid):
        d = st.mem.get(oid)
        if d is None:
            d = self.gmem.get(oid)
            if d is None:
                raise Unsupported("dead object %s" % self.objs[oid].name)
        return d

    # ------------------------------------------------------------- pointers
    def objaddr(self, base):
        if base is None:
            return t.bv(0, 64)
        if isinstance(base, tuple):
            return t.var("addr.fn." + base[1], 64)
        return t.var("addr.%d.%s" % (base, self.objs[base].name), 64)

    def p2i(self, p):
        if isinstance(p, t.T):
            return p
        r = None
        for c, b, o in reversed(p.alts):
            if b == "raw":
                x = o
            else:
                x = self.objaddr(b)
                if isinstance(o, int):
                    x = t.add(x, t.bv(o, 64))
                else:
                    x = t.add(x, t.bv(o[0], 64))
                    for idx, sc in o[1]:
                        x = t.add(x, t.mul(idx, t.bv(sc, 64)))
            r = x if r is None else ite(c, x, r)
        return r

    def i2p(self, v):
        if isinstance(v, Ptr):
            return v
        if t.isc(v) and v.aux == 0:
            return NULL
        return P1("raw", v)

    def padd(self, p, off, syms):
        out = []
        for c, b, o in p.alts:
            if b == "raw":
                x = t.add(o, t.bv(off, 64))
                for i, s in syms:
                    x = t.add(x, t.mul(i, t.bv(s, 64)))
                out.append((c, b, x))
            elif isinstance(o, int) and not syms:
                out.append((c, b, o + off))
            else:
                o0, s0 = (o, []) if isinstance(o, int) else o
                out.append((c, b, (o0 + off, s0 + syms)))
        return Ptr(out)

    def pite(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1:] == b.alts[0][1:]:
            return a
        out = []
        for cc, alts in ((c, a.alts), (lnot(c), b.alts)):
            for k, bs, o in alts:
                k2 = land(cc, k)
                if k2 is FALSE:
                    continue
                for i, (k0, b0, o0) in enumerate(out):
                    if b0 == bs and (o0 is o or o0 == o):
                        out[i] = (lor(k0, k2), b0, o0)
                        break
                else:
                    out.append((k2, bs, o))
        if len(out) > 1 and all(x[1] == "raw" for x in out):
            return P1("raw", ite(c, self.p2i(a), self.p2i(b)))
        return Ptr(out)

    def vite(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, tuple):
            return tuple(self.vite(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return self.pite(c, a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return ite(c, self.p2i(a), self.p2i(b))
        return ite(c, a, b)

    def peq(self, a, b):
        """pointer equality as Bool"""
        r = FALSE
        for ca, ba, oa in a.alts:
            for cb, bb, ob in b.alts:
                if ba == bb and ba != "raw" and isinstance(oa, int) and isinstance(ob, int):
                    e = t.boolc(oa == ob)
                elif ba != "raw" and bb != "raw" and ba != bb:
                    e = FALSE
                else:
                    e = t.eq(self.p2i(Ptr([(TRUE, ba, oa)])), self.p2i(Ptr([(TRUE, bb, ob)])))
                r = lor(r, land(ca, cb, e))
        return r

    # ------------------------------------------------------------- memory access
    def undef(self, ty):
        ty = self.res(ty)
        if ty.k == "int":
            return t.fresh("undef", ty.n)
        if ty.k == "ptr":
            return P1("raw", t.fresh("undefp", 64))
        if ty.k == "struct":
            return tuple(self.undef(f) for f in ty.fields)
        if ty.k == "array":
            return tuple(self.undef(ty.el) for _ in range(ty.n))
        return t.fresh("undef", 64)

    def rawload(self, d, off, n):
        """n bytes at off from dict d -> T of 8n bits, or Ptr"""
        e = d.get(off)
        if e is not None:
            if e[0] == n:
                return e[1]
            if e[0] > n:
                return t.extract(self.p2i(e[1]), 8 * n - 1, 0)
        # entry containing it?
        for o, (s, v) in d.items():
            if o <= off and off + n <= o + s:
                v = self.p2i(v)
                k = off - o
                return t.extract(v, 8 * (k + n) - 1, 8 * k)
        parts = []
        k = off
        while k < off + n:
            e = d.get(k)
            if e is not None and k + e[0] <= off + n:
                parts.append(self.p2i(e[1]))
                k += e[0]
                continue
            for o, (s, v) in d.items():
                if o <= k < o + s:
                    m = min(o + s, off + n) - k
                    v = self.p2i(v)
                    parts.append(t.extract(v, 8 * (k - o + m) - 1, 8 * (k - o)))
                    k += m
                    break
            else:
                nx = min([o for o in d if o > k] + [off + n])
                parts.append(t.fresh("undef", 8 * (nx - k)))
                k = nx
        r = parts[0]
        for p in parts[1:]:
            r = t.concat(p, r)
        return r

    def clear(self, d, off, n):
        """remove bytes [off, off+n), splitting entries that straddle"""
        for o in [o for o, (s, v) in d.items() if o < off + n and off < o + s]:
            s, v = d.pop(o)
            if o < off:
                d[o] = (off - o, t.extract(self.p2i(v), 8 * (off - o) - 1, 0))
            if o + s > off + n:
                k = off + n - o
                d[off + n] = (s - k, t.extract(self.p2i(v), 8 * s - 1, 8 * k))

    def write(self, d, off, n, v):
        e = d.get(off)
        if e is None or e[0] != n:
            self.clear(d, off, n)
        d[off] = (n, v)

    def oob(self, st, g, why):
        self.traps.append((land(st.g, g), "memory:" + why, self.where()))

    def load(self, st, p, ty):
        ty = self.res(ty)
        if ty.k == "struct":
            offs, _ = self.layout(ty)
            return tuple(self.load(st, self.padd(p, o, []), f) for o, f in zip(offs, ty.fields))
        if ty.k == "array":
            s = self.size(ty.el)
            return tuple(self.load(st, self.padd(p, i * s, []), ty.el) for i in range(ty.n))
        n = self.size(ty)
        r = None
        for c, b, o in reversed(p.alts):
            if b is None or b == "raw" or isinstance(b, tuple):
                if len(p.alts) == 1:
                    if b == "raw":
                        raise Unsupported("load through opaque pointer")
                    self.oob(st, TRUE, "null load")
                    st.g = FALSE
                    return self.undef(ty)
                if land(st.g, c) is FALSE:
                    continue
                self.oob(st, c, "load through null/opaque pointer")
                continue
            d = self.mem(st, b)
            if isinstance(o, int):
                if o < 0 or o + n > self.objs[b].size:
                    self.oob(st, c, "load out of bounds of %s" % self.objs[b].name)
                    v = self.undef(ty)
                else:
                    v = self.rawload(d, o, n)
            else:
                v = self.symload(st, c, b, d, o, n)
            if ty.k == "ptr":
                v = self.i2p(v)
            else:
                v = self.p2i(v)
                if ty.k == "int" and v.sort != ty.n:
                    v = t.extract(v, ty.n - 1, 0)
            r = v if r is None else self.vite(c, v, r)
        if r is None:
            raise Unsupported("load: no valid alternative")
        return r

    def symload(self, st, c, b, d, o, n):
        base, syms = o
        if len(syms) != 1:
            raise Unsupported("several symbolic indices")
        idx, sc = syms[0]
        size = self.objs[b].size
        lo = -(base // sc)
        hi = (size - n - base) // sc
        if hi - lo > 4096:
            raise Unsupported("symbolic load from large object")
        cases = []
        for i in range(lo, hi + 1):
            off = base + i * sc
            if off < 0:
                continue
            cases.append((i, self.rawload(d, off, n)))
        inb = lor(*[t.eq(idx, t.bv(i, 64)) for i, _ in cases]) if len(cases) <= 64 else \
            land(t.sle(t.bv(cases[0][0], 64), idx), t.sle(idx, t.bv(cases[-1][0], 64)))
        if inb is not TRUE:
            self.oob(st, land(c, lnot(inb)), "index out of bounds of %s" % self.objs[b].name)
            st.g = land(st.g, lor(lnot(c), inb)) if c is not TRUE else land(st.g, inb)
        # group equal values, last value is the default
        r = cases[-1][1]
        runs = []
        for i, v in cases:
            if not runs or runs[-1][1] is not v:
                runs.append((i, v))
        if len(runs) * 2 < len(cases):      # sorted table: one comparison per run
            r = runs[-1][1]
            for k in range(len(runs) - 2, -1, -1):
                r = self.vite(t.slt(idx, t.bv(runs[k + 1][0], 64)), runs[k][1], r)
            return r
        for i, v in reversed(cases[:-1]):
            if v is r:
                continue
            r = self.vite(t.eq(idx, t.bv(i, 64)), v, r)
        return r

    def store(self, st, p, ty, v):
        ty = self.res(ty)
        if ty.k == "struct":
            offs, _ = self.layout(ty)
            for o, f, x in zip(offs, ty.fields, v):
                self.store(st, self.padd(p, o, []), f, x)
            return
        if ty.k == "array":
            s = self.size(ty.el)
            for i in range(ty.n):
                self.store(st, self.padd(p, i * s, []), ty.el, v[i])
            return
        n = self.size(ty)
        if ty.k == "int" and v.sort != 8 * n:
            v = t.zext(v, 8 * n)
        for c, b, o in p.alts:
            if b is None or b == "raw" or isinstance(b, tuple):
                if len(p.alts) == 1:
                    if b == "raw":
                        raise Unsupported("store through opaque pointer")
                    self.oob(st, TRUE, "null store")
                    st.g = FALSE
                    return
                self.oob(st, c, "store through null/opaque pointer")
                continue
            if b not in st.mem:
                if self.objs[b].const:
                    raise Unsupported("store to constant global")
                st.mem[b] = dict(self.gmem[b])
            if not isinstance(o, int):
                base, syms = o
                if len(syms) != 1:
                    raise Unsupported("several symbolic indices")
                idx, sc = syms[0]
                d = dict(st.mem[b])
                size = self.objs[b].size
                ks = [i for i in range(-(base // sc), (size - n - base) // sc + 1) if base + i * sc >= 0]
                if len(ks) > 256:
                    raise Unsupported("symbolic store to large object")
                inb = lor(*[t.eq(idx, t.bv(i, 64)) for i in ks])
                self.oob(st, land(c, lnot(inb)), "index out of bounds of %s" % self.objs[b].name)
                for i in ks:
                    off = base + i * sc
                    old = self.rawload(d, off, n)
                    self.write(d, off, n, self.vite(land(c, t.eq(idx, t.bv(i, 64))), v, old))
                st.mem[b] = d
                continue
            if o < 0 or o + n > self.objs[b].size:
                self.oob(st, c, "store out of bounds of %s" % self.objs[b].name)
                continue
            d = dict(st.mem[b])
            if c is TRUE:
                self.write(d, o, n, v)
            else:
                old = self.rawload(d, o, n)
                self.write(d, o, n, self.vite(c, v, old))
            st.mem[b] = d

    def memcpy(self, st, dst, src, n):
        if len(dst.alts) != 1 or not isinstance(dst.alts[0][2], int):
            raise Unsupported("memcpy dst")
        _, db, do = dst.alts[0]
        if db in (None, "raw"):
            raise Unsupported("memcpy dst base")
        if n == 0:
            return

        def grab(b, o):
            if b in (None, "raw") or not isinstance(o, int):
                raise Unsupported("memcpy src")
            if o < 0 or o + n > self.objs[b].size:
                self.oob(st, TRUE, "memcpy source out of bounds")
            d = self.mem(st, b)
            out = {}
            for k, (s, v) in d.items():
                if o <= k and k + s <= o + n:
                    out[k - o] = (s, v)
                elif k < o + n and o < k + s:
                    a, e = max(k, o), min(k + s, o + n)
                    out[a - o] = (e - a, t.extract(self.p2i(v), 8 * (e - k) - 1, 8 * (a - k)))
            return out
        r = None
        for c, b, o in reversed(src.alts):
            g = grab(b, o)
            r = g if r is None else self.dmerge(c, g, r)
        d = dict(st.mem[db]) if db in st.mem else dict(self.gmem[db])
        if do < 0 or do + n > self.objs[db].size:
            self.oob(st, TRUE, "memcpy destination out of bounds")
        self.clear(d, do, n)
        for k, e in r.items():
            d[do + k] = e
        st.mem[db] = d

    def dmerge(self, c, a, b):
        """ite(c, a, b) on byte dictionaries"""
        if a is b:
            return a
        out = {}
        ka, kb = dict(a), dict(b)
        for k in list(ka):
            if k in kb and ka[k][0] == kb[k][0]:
                s, x = ka.pop(k)
                _, y = kb.pop(k)
                out[k] = (s, self.vite(c, x, y))
        if not ka and not kb:
            return out
        # remaining entries: align spans
        spans = []
        for o, s in sorted([(o, e[0]) for o, e in ka.items()] + [(o, e[0]) for o, e in kb.items()]):
            if spans and o < spans[-1][1]:
                spans[-1][1] = max(spans[-1][1], o + s)
            else:
                spans.append([o, o + s])
        for o, e in spans:
            n = e - o
            if n > 16:      # odd overlap: fall back to bytes
                for k in range(o, e):
                    out[k] = (1, self.vite(c, self.p2i(self.rawload(a, k, 1)), self.p2i(self.rawload(b, k, 1))))
                continue
            out[o] = (n, self.vite(c, self.rawload(a, o, n), self.rawload(b, o, n)))
        return out

    # ------------------------------------------------------------- merging
    def relcond(self, g1, g2):
        """condition that selects g1 given g1 or g2 (disjoint)"""
        c2 = set(x.id for x in t.conj(g2))
        r = land(*[x for x in t.conj(g1) if x.id not in c2])
        c1 = set(x.id for x in t.conj(g1))
        q = [x for x in t.conj(g2) if x.id not in c1]
        if len(q) == 1 and len(t.conj(r)) > 1:
            return lnot(q[0])
        return r

    def merge(self, sts):
        sts = [s for s in sts if s.g is not FALSE]
        if not sts:
            return None
        r = sts[0]
        for s in sts[1:]:
            c = self.relcond(r.g, s.g)
            g = lor(r.g, s.g)
            mem = {}
            for o in r.mem.keys() & s.mem.keys():
                x, y = r.mem[o], s.mem[o]
                mem[o] = x if x is y else self.dmerge(c, x, y)
            for o in r.mem.keys() ^ s.mem.keys():
                x = r.mem.get(o, s.mem.get(o))
                # allocated on one path only: a dead object on the other, except globals
                if o in self.gmem:
                    x, y = r.mem.get(o, self.gmem[o]), s.mem.get(o, self.gmem[o])
                    x = self.dmerge(c, x, y)
                mem[o] = x
            env = {}
            for k in r.env.keys() & s.env.keys():
                x, y = r.env[k], s.env[k]
                env[k] = x if x is y else self.vite(c, x, y)
            for k in r.env.keys() ^ s.env.keys():
                env[k] = r.env.get(k, s.env.get(k))
            exc = r.exc or s.exc
            if r.exc and s.exc and r.exc is not s.exc:
                exc = Exc(ite(c, r.exc.kind, s.exc.kind), ite(c, r.exc.code, s.exc.code))
            r = St(g, mem, env, exc)
        return r

    def where(self):
        return "/".join(self.stack[-1:])

    # ------------------------------------------------------------- values
    def const(self, v):
        k = v.k
        ty = self.res(v.ty)
        if k == "int":
            return t.bv(v.v, ty.n)
        if k == "null":
            return NULL
        if k == "undef":
            return self.undef(ty)
        if k == "zero":
            if ty.k == "int":
                return t.bv(0, ty.n)
            if ty.k == "ptr":
                return NULL
            if ty.k == "struct":
                return tuple(self.const(ir.V("zero", None, f)) for f in ty.fields)
            if ty.k == "array":
                return tuple(self.const(ir.V("zero", None, ty.el)) for _ in range(ty.n))
        if k == "agg":
            fs = ty.fields if ty.k == "struct" else [ty.el] * ty.n
            return tuple(self.const(x) for x in v.v)
        if k == "global":
            return self.glob(v.v)
        if k == "gep":
            p = self.const(v.v[0])
            return self.gep(p, v.x, [self.const(i) for i in v.v[1:]])
        if k == "cexpr":
            x = self.const(v.v)
            if v.x == "ptrtoint":
                return self.p2i(x)
            if v.x == "inttoptr":
                return self.i2p(x)
            return x
        raise Unsupported("constant %s" % k)

    def gep(self, p, ty, idx):
        off, syms = 0, []
        first = True
        for i in idx:
            if first:
                s = self.size(ty)
                first = False
            else:
                ty = self.res(ty)
                if ty.k == "struct":
                    n = i.aux
                    off += self.layout(ty)[0][n]
                    ty = ty.fields[n]
                    continue
                if ty.k == "array":
                    ty = ty.el
                    s = self.size(ty)
                else:
                    raise Unsupported("gep into %r" % ty)
            i = t.sext(i, 64) if i.sort < 64 else i
            if t.isc(i):
                off += t.sgn(i.aux, 64) * s
            else:
                syms.append((i, s))
        return self.padd(p, off, syms)

    def val(self, st, v):
        if v.k == "local":
            try:
                return st.env[v.v]
            except KeyError:
                raise Unsupported("value %%%s undefined in %s" % (v.v, self.where()))
        return self.const(v)

    # ------------------------------------------------------------- CFG
    def topo(self, f):
        """nested list: [block | ('loop', header, [nested...], set)] in topological order"""
        if getattr(f, "_topo", None) is not None:
            return f._topo
        succ = {}
        for b in f.order:
            ins = f.blocks[b][-1]
            if ins.op == "br":
                succ[b] = list(ins.x)
            elif ins.op == "switch":
                succ[b] = [ins.x[0]] + [l for _, l in ins.x[1]]
            elif ins.op == "invoke":
                succ[b] = list(ins.x[1])
            else:
                succ[b] = []

        def scc(nodes, entry, banned):
            # Tarjan, iterative; edges into `banned` header ignored
            idx, low, onst, stack, out = {}, {}, set(), [], []
            c = [0]

            def visit(r):
                work = [(r, iter([s for s in succ[r] if s in nodes and s != banned]))]
                idx[r] = low[r] = c[0]
                c[0] += 1
                stack.append(r)
                onst.add(r)
                while work:
                    v, it = work[-1]
                    adv = False
                    for w in it:
                        if w not in idx:
                            idx[w] = low[w] = c[0]
                            c[0] += 1
                            stack.append(w)
                            onst.add(w)
                            work.append((w, iter([s for s in succ[w] if s in nodes and s != banned])))
                            adv = True
                            break
                        elif w in onst:
                            low[v] = min(low[v], idx[w])
                    if adv:
                        continue
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == idx[v]:
                        comp = set()
                        while True:
                            w = stack.pop()
                            onst.discard(w)
                            comp.add(w)
                            if w == v:
                                break
                        out.append(comp)
            visit(entry)
            res = []
            for comp in reversed(out):
                if len(comp) == 1:
                    b = next(iter(comp))
                    if b not in succ[b] or b == banned:
                        res.append(b)
                        continue
                # loop: header = block of comp entered from outside (or entry)
                hs = [b for b in comp if b == entry or any(b in succ[x] for x in nodes - comp)]
                if len(hs) != 1:
                    raise Unsupported("irreducible loop")
                res.append(("loop", hs[0], scc(comp, hs[0], hs[0]), comp))
            return res
        f._topo = scc(set(f.order), f.order[0], None)
        return f._topo

    # ------------------------------------------------------------- execution
    def run(self, f, args, st):
        """execute f; returns (state or None, retval, [(St with exc)])"""
        self.depth += 1
        if self.depth > self.maxdepth:
            self.depth -= 1
            raise Unsupported("inlining too deep")
        self.stack.append(f.name)
        outer_env = st.env
        base_objs = self.nobj
        env = {}
        for (nm, ty, _), a in zip(f.params, args):
            env[nm] = a
        cur = St(st.g, dict(st.mem), env)
        pend = {f.order[0]: [(None, cur)]}
        rets, excs = [], []
        self.region(f, self.topo(f), pend, rets, excs)
        rs = []
        for s, v in rets:
            s.env = {"$ret": v} if v is not None else {}
            rs.append(s)
        m = self.merge(rs)
        self.stack.pop()
        self.depth -= 1
        rv = None
        if m is not None:
            rv = m.env.get("$ret")
            m.env = outer_env
            for o in [o for o in m.mem if o > base_objs and o not in self.gmem]:
                if self.objs[o].name.startswith("%"):
                    del m.mem[o]
        return m, rv, excs

    def region(self, f, items, pend, rets, excs):
        for it in items:
            if isinstance(it, tuple):
                self.loop(f, it, pend, rets, excs)
            else:
                self.block(f, it, pend, rets, excs)

    def loop(self, f, it, pend, rets, excs):
        _, header, items, comp = it
        inc = pend.pop(header, [])
        if not any(s.g is not FALSE for _, s in inc):
            return
        k = 0
        while inc:
            k += 1
            if k > self.unwind:
                g = lor(*[s.g for _, s in inc])
                self.traps.append((g, "unwinding-bound", self.where()))
                break
            local = {header: inc}
            self.region(f, items, local, rets, excs)
            inc = local.pop(header, [])
            for b, l in local.items():
                pend.setdefault(b, []).extend(l)
            inc = [(p, s) for p, s in inc if s.g is not FALSE]
            if inc and k > 8:
                # prune infeasible continuation
                if self.feasible is not None:
                    inc = [(p, s) for p, s in inc if self.feasible(s.g)]

    feasible = None

    def block(self, f, b, pend, rets, excs):
        inc = [(p, s) for p, s in pend.pop(b, []) if s.g is not FALSE]
        if not inc:
            return
        ins = f.blocks[b]
        # phis: evaluate per incoming edge, then merge environments
        nphi = 0
        while ins[nphi].op == "phi":
            nphi += 1
        if nphi:
            for p, s in inc:
                new = {}
                for i in ins[:nphi]:
                    for v, l in i.x:
                        if l == p:
                            new[i.res] = self.val(s, v)
                            break
                s.env = dict(s.env)
                s.env.update(new)
        st = inc[0][1] if len(inc) == 1 else self.merge([s for _, s in inc])
        if st is None:
            return
        for i in ins[nphi:]:
            self.nins += 1
            op = i.op
            if op == "br":
                if not i.a:
                    pend.setdefault(i.x[0], []).append((b, st))
                    return
                c = self.under(st.g, t.tob(self.val(st, i.a[0])))
                if i.x[0] == i.x[1]:
                    pend.setdefault(i.x[0], []).append((b, st))
                    return
                g1, g2 = land(st.g, c), land(st.g, lnot(c))
                if g2 is FALSE:
                    pend.setdefault(i.x[0], []).append((b, st))
                elif g1 is FALSE:
                    pend.setdefault(i.x[1], []).append((b, st))
                else:
                    pend.setdefault(i.x[0], []).append((b, st.fork(g1)))
                    pend.setdefault(i.x[1], []).append((b, st.fork(g2)))
                return
            if op == "switch":
                v = self.val(st, i.a[0])
                rest = st.g
                byl = {}
                for c, l in i.x[1]:
                    e = t.eq(v, t.bv(c, v.sort))
                    byl[l] = lor(byl.get(l, FALSE), e)
                    rest = land(rest, lnot(e))
                if i.x[0] in byl:
                    d = byl.pop(i.x[0])
                    rest = lor(rest, land(st.g, d))
                for l, e in byl.items():
                    g = land(st.g, self.under(st.g, e))
                    if g is not FALSE:
                        pend.setdefault(l, []).append((b, st.fork(g)))
                if rest is not FALSE:
                    pend.setdefault(i.x[0], []).append((b, st.fork(rest)))
                return
            if op == "ret":
                rets.append((st, self.val(st, i.a[0]) if i.a else None))
                return
            if op == "unreachable":
                if st.g is not FALSE:
                    self.traps.append((st.g, "unreachable", self.where()))
                return
            if op == "resume":
                excs.append(st)
                return
            if op in ("call", "invoke"):
                r, v, ex = self.call(st, i)
                if op == "invoke":
                    for e in ex:
                        e.env = dict(st.env)
                        if e.g is not FALSE:
                            pend.setdefault(i.x[1][1], []).append((b, e))
                    if r is None or r.g is FALSE:
                        return
                    if i.res is not None:
                        r.env[i.res] = v
                    pend.setdefault(i.x[1][0], []).append((b, r))
                    return
                for e in ex:
                    e.env = {}
                    excs.append(e)
                if r is None or r.g is FALSE:
                    return
                st = r
                if i.res is not None:
                    st.env[i.res] = v
                continue
            self.simple(st, i)
            if st.g is FALSE:
                return
        raise Unsupported("block falls through")

    def under(self, g, c):
        """simplify Bool c given guard g"""
        ids = {x.id for x in t.conj(g)}
        if c.id in ids:
            return TRUE
        if lnot(c).id in ids:
            return FALSE
        return c

    def simple(self, st, i):
        op = i.op
        V = lambda k: self.val(st, i.a[k])
        if op == "alloca":
            n = self.size(i.ty)
            if i.a:
                c = V(0)
                if not t.isc(c):
                    raise Unsupported("variable alloca")
                n *= c.aux
            r = P1(self.new(st, n, "%" + i.res), 0)
        elif op == "load":
            r = self.load(st, V(0), i.ty)
        elif op == "store":
            self.store(st, V(1), i.a[0].ty, V(0))
            return
        elif op == "gep":
            r = self.gep(V(0), i.ty, [self.val(st, x) for x in i.a[1:]])
        elif op in ir.BINOPS:
            a, b = V(0), V(1)
            r = {"add": t.add, "sub": t.sub, "mul": t.mul, "udiv": t.udiv, "sdiv": t.sdiv, "urem": t.urem,
                 "srem": t.srem, "and": t.band, "or": t.bor, "xor": t.bxor, "shl": t.shl, "lshr": t.lshr,
                 "ashr": t.ashr}[op](a, b)
            n = a.sort
            bad = FALSE
            if op in ("udiv", "sdiv", "urem", "srem"):
                bad = t.eq(b, t.bv(0, n))
                if op[0] == "s":
                    bad = lor(bad, land(t.eq(b, t.bv(-1, n)), t.eq(a, t.bv(1 << (n - 1), n))))
            elif op in ("shl", "lshr", "ashr"):
                bad = t.ule(t.bv(n, n), b) if n < (1 << n) else FALSE
            if i.x and op in ("add", "sub", "mul") and "nsw" in i.x:
                f = {"add": t.iadd, "sub": t.isub, "mul": t.imul}[op]
                e = f(t.S(a), t.S(b))
                bad = lnot(t.between(-(1 << (n - 1)), e, (1 << (n - 1)) - 1))
            if i.x and op in ("add", "sub", "mul") and "nuw" in i.x:
                f = {"add": t.iadd, "sub": t.isub, "mul": t.imul}[op]
                e = f(t.U(a), t.U(b))
                bad = lor(bad, lnot(t.between(0, e, (1 << n) - 1)))
            if bad is not FALSE:
                bad = self.under(st.g, bad)
                g = land(st.g, bad)
                if g is not FALSE:
                    self.traps.append((g, "undefined-" + op, self.where()))
                    st.g = land(st.g, lnot(bad))
        elif op in ir.CASTS:
            a = V(0)
            if op == "trunc":
                r = t.extract(a, i.ty.n - 1, 0)
            elif op == "zext":
                r = t.zext(a, i.ty.n)
            elif op == "sext":
                r = t.sext(a, i.ty.n)
            elif op == "ptrtoint":
                r = self.p2i(a)
                if i.ty.n != 64:
                    r = t.extract(r, i.ty.n - 1, 0)
            elif op == "inttoptr":
                r = self.i2p(a)
            elif op == "bitcast" and self.res(i.ty).k in ("ptr", "int"):
                r = a
            else:
                raise Unsupported(op)
        elif op == "icmp":
            a, b = V(0), V(1)
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                if i.x in ("eq", "ne"):
                    e = self.peq(a, b)
                    c = e if i.x == "eq" else lnot(e)
                else:
                    c = self.pcmp(i.x, a, b)
            else:
                p = i.x
                if p == "eq":
                    c = t.eq(a, b)
                elif p == "ne":
                    c = lnot(t.eq(a, b))
                else:
                    f = t.slt if p[0] == "s" else t.ult
                    c = {"lt": lambda: f(a, b), "gt": lambda: f(b, a), "le": lambda: lnot(f(b, a)),
                         "ge": lambda: lnot(f(a, b))}[p[1:]]()
            r = t.b1(c)
        elif op == "select":
            c = t.tob(V(0))
            r = self.vite(c, V(1), V(2))
        elif op == "extractvalue":
            r = V(0)
            for k in i.x:
                r = r[k]
        elif op == "insertvalue":
            def ins(agg, idx, v):
                l = list(agg)
                l[idx[0]] = v if len(idx) == 1 else ins(l[idx[0]], idx[1:], v)
                return tuple(l)
            r = ins(V(0), i.x, V(1))
        elif op == "freeze":
            r = V(0)
        elif op == "landingpad":
            r = (P1("raw", t.fresh("exn", 64)), t.fresh("sel", 32))
        else:
            raise Unsupported("instruction " + op)
        st.env[i.res] = r

    def pcmp(self, p, a, b):
        if len(a.alts) == 1 and len(b.alts) == 1:
            _, ba, oa = a.alts[0]
            _, bb, ob = b.alts[0]
            if ba == bb and isinstance(oa, int) and isinstance(ob, int):
                return t.boolc({"lt": oa < ob, "gt": oa > ob, "le": oa <= ob, "ge": oa >= ob}[p[1:]])
        raise Unsupported("pointer comparison")

    # ------------------------------------------------------------- calls
    def call(self, st, i):
        callee = i.x[0]
        if callee.k != "global":
            p = self.val(st, callee)
            if len(p.alts) == 1 and isinstance(p.alts[0][1], tuple):
                name = p.alts[0][1][1]
            else:
                raise Unsupported("indirect call")
        else:
            name = callee.v
        name = self.M.aliases.get(name, name)
        args = [self.val(st, a) for a in i.a]
        return self.call_named(st, name, args, i)

    def call_named(self, st, name, args, i=None):
        c = self.contracts.get(name)
        if c is not None:
            self.used_contracts.add(name)
            return c.apply(self, st, args)
        r = self.model(st, name, args, i)
        if r is not None:
            return r
        f = self.M.fn(name)
        if f is None:
            raise Unsupported("external function %s" % name)
        self.inlined.add(name)
        if self.stack.count(name) >= 1 and self.feasible is not None and not self.feasible(st.g):
            return (None, None, [])     # recursion: this call cannot be reached
        env = st.env
        m, v, ex = self.run(f, args, st)
        if m is not None:
            m.env = env
        return m, v, ex

    def trap(self, st, kind):
        if st.g is not FALSE:
            self.traps.append((st.g, kind, self.where()))
        return (None, None, [])

    def raise_(self, st, kind, code):
        return St(st.g, st.mem, {}, Exc(t.bv(kind, 32), code))

    def model(self, st, name, args, i):
        if name.startswith("llvm."):
            b = name.split(".")
            if b[1] in ("lifetime", "dbg", "assume", "donothing", "experimental", "invariant", "prefetch"):
                return (st, None, [])
            if b[1] == "ubsantrap":
                return self.trap(st, "UB:" + TRAPS.get(args[0].aux, str(args[0].aux)))
            if b[1] == "trap":
                return self.trap(st, "trap")
            if name.endswith(tuple(".with.overflow.i%d" % k for k in (8, 16, 32, 64))) and "with" in b:
                a, c = args
                n = a.sort
                sg = b[1][0] == "s"
                fi = {"add": t.iadd, "sub": t.isub, "mul": t.imul}[b[1][1:]]
                fb = {"add": t.add, "sub": t.sub, "mul": t.mul}[b[1][1:]]
                e = fi(t.bval(a, sg), t.bval(c, sg))
                lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, (1 << n) - 1)
                return (st, (fb(a, c), t.b1(lnot(t.between(lo, e, hi)))), [])
            if b[1] in ("memcpy", "memmove"):
                if not t.isc(args[2]):
                    raise Unsupported("memcpy size")
                self.memcpy(st, args[0], args[1], args[2].aux)
                return (st, None, [])
            if b[1] == "memset":
                if not t.isc(args[2]):
                    raise Unsupported("memset size")
                for k in range(args[2].aux):
                    self.store(st, self.padd(args[0], k, []), ir.INTT(8), args[1])
                return (st, None, [])
            if b[1] in ("smax", "smin", "umax", "umin"):
                f = t.slt if b[1][0] == "s" else t.ult
                a, c = args
                lt = f(a, c)
                return (st, ite(lt, c, a) if b[1][1:] == "max" else ite(lt, a, c), [])
            if b[1] == "abs":
                a = args[0]
                n = a.sort
                neg = t.slt(a, t.bv(0, n))
                return (st, ite(neg, t.sub(t.bv(0, n), a), a), [])
            if b[1] in ("ctlz", "cttz", "ctpop"):
                a = args[0]
                n = a.sort
                bit = lambda k: t.eq(t.extract(a, k, k), t.bv(1, 1))
                if b[1] == "ctpop":
                    r = t.bv(0, n)
                    for k in range(n):
                        r = t.add(r, t.zext(t.extract(a, k, k), n) if n > 1 else a)
                else:
                    r = t.bv(n, n)
                    for k in (range(n) if b[1] == "ctlz" else reversed(range(n))):
                        r = ite(bit(k), t.bv(n - 1 - k if b[1] == "ctlz" else k, n), r)
                return (st, r, [])
            if b[1] in ("expect",):
                return (st, args[0], [])
            if b[1] == "is" and b[2] == "constant":
                return (st, t.bv(0, 1), [])
            if b[1] == "eh" and b[2] == "typeid":
                return (st, t.fresh("typeid", 32), [])
            raise Unsupported("intrinsic " + name)
        if name in ("__assert_fail", "abort", "_ZSt9terminatev", "__clang_call_terminate", "exit", "_exit"):
            return self.trap(st, "abort:" + name)
        if name == "__cxa_allocate_exception":
            o = self.new(st, args[0].aux, "exception", {})
            return (st, P1(o, 0), [])
        if name in ("__cxa_free_exception", "__cxa_end_catch"):
            return (st, None, [])
        if name == "__cxa_throw":
            p, ti = args[0], args[1]
            b = ti.alts[0][1]
            nm = self.objs[b].name if isinstance(b, int) else str(b)
            o = p.alts[0][1]
            d = self.mem(st, o)
            if nm == "@_ZTISt12system_error" and "code" in d:
                return (None, None, [self.raise_(st, EXC_SYSTEM_ERROR, d["code"][1])])
            return (None, None, [self.raise_(st, EXC_OTHER, t.bv(0, 32))])
        if name.startswith("_ZNSt12system_errorC") and "ESt10error_codePKc" in name:
            # trusted libstdc++ constructor: the exception carries exactly this error_code
            self.trusted.add("std::system_error(std::error_code, const char*)")
            o = args[0].alts[0][1]
            d = dict(self.mem(st, o))
            cat = args[2]
            cb = cat.alts[0][1] if isinstance(cat, Ptr) and len(cat.alts) == 1 else None
            cn = self.objs[cb].name if isinstance(cb, int) else "?"
            if "safe_numerics_error_category" in cn:
                d["code"] = (0, args[1])
                st.mem[o] = _CodeDict(d)
            return (st, None, [])
        if name.startswith("_ZNSt3_V214error_categoryC") or name.startswith("_ZNSt3_V214error_categoryD"):
            return (st, None, [])
        for pre, h in self.env_models.items():
            if name.startswith(pre):
                r = h(self, st, name, args, i)
                if r is not None:
                    return r
        return None


class _CodeDict(dict):
    """object contents of a thrown std::system_error; the key 'code' is ghost state"""
