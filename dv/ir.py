"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits."""
import re

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<comment>;.*)
 |(?P<cstr>c"[^"]*")
 |(?P<local>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<str>"[^"]*")
 |(?P<meta>!(?:[-a-zA-Z$._0-9]+|"[^"]*")?)
 |(?P<attr>\#\d+)
 |(?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-f]+|-?\d+)
 |(?P<dots>\.\.\.)
 |(?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
 |(?P<punct>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(line):
    out = []
    pos = 0
    n = len(line)
    while pos < n:
        m = TOK.match(line, pos)
        if not m:
            raise SyntaxError("token at %r" % line[pos:pos + 40])
        pos = m.end()
        k = m.lastgroup
        if k in ("ws",):
            continue
        if k == "comment":
            break
        out.append((k, m.group()))
    return out


def unq(s):
    """%"a b" -> a b"""
    s = s[1:]
    return s[1:-1] if s.startswith('"') else s


class Ty:
    __slots__ = ("k", "n", "el", "fields", "packed", "name")

    def __init__(self, k, n=0, el=None, fields=None, packed=False, name=None):
        self.k, self.n, self.el, self.fields, self.packed, self.name = k, n, el, fields, packed, name

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.n
        if self.k == "array":
            return "[%d x %r]" % (self.n, self.el)
        if self.k == "struct":
            return "{%s}" % ", ".join(map(repr, self.fields))
        if self.k == "named":
            return "%" + self.name
        return self.k


VOID, PTR, LABEL = Ty("void"), Ty("ptr"), Ty("label")
_ints = {}


def INTT(n):
    if n not in _ints:
        _ints[n] = Ty("int", n)
    return _ints[n]


class V:
    """operand: kind in local, global, int, null, undef, zero, agg, str, gep, none, expr"""
    __slots__ = ("k", "v", "ty", "x")

    def __init__(self, k, v=None, ty=None, x=None):
        self.k, self.v, self.ty, self.x = k, v, ty, x


class Ins:
    __slots__ = ("op", "res", "ty", "a", "x")

    def __init__(self, op, res, ty=None, a=(), x=None):
        self.op, self.res, self.ty, self.a, self.x = op, res, ty, a, x


class Fn:
    __slots__ = ("name", "ret", "params", "blocks", "order", "src", "linkage", "sretty", "ret_ext", "pext", "demangled", "_topo")

    def __init__(self):
        self._topo = None


PARAM_ATTRS = set("noundef nonnull zeroext signext inreg byval sret noalias nocapture readonly readnone writeonly "
                  "returned immarg dereferenceable dereferenceable_or_null align nofree inalloca nest swiftself "
                  "swifterror elementtype allocalign allocptr range writable dead_on_unwind captures initializes".split())
LINK = set("private internal available_externally linkonce weak common appending extern_weak linkonce_odr weak_odr "
           "external dso_local dso_preemptable default hidden protected thread_local unnamed_addr local_unnamed_addr "
           "externally_initialized dllimport dllexport fastcc ccc coldcc tail musttail notail nnan ninf nsz arcp "
           "contract afn reassoc fast inbounds nuw nsw exact inrange nneg disjoint volatile".split())


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def at(self, s):
        return self.i < len(self.t) and self.t[self.i][1] == s

    def eat(self, s):
        if self.at(s):
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.eat(s):
            raise SyntaxError("expected %r at %r" % (s, self.t[self.i:self.i + 6]))

    def end(self):
        return self.i >= len(self.t)

    # ---- types
    def type(self):
        k, s = self.next()
        if k == "word":
            if s == "void":
                t = VOID
            elif s == "ptr":
                t = PTR
                if self.at("addrspace"):
                    self.i += 4
            elif re.fullmatch(r"i\d+", s):
                t = INTT(int(s[1:]))
            elif s == "label":
                t = LABEL
            elif s in ("float", "double", "x86_fp80", "half", "fp128", "metadata", "token"):
                t = Ty(s)
            else:
                raise SyntaxError("type %r" % s)
        elif s == "[":
            n = int(self.next()[1])
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = Ty("array", n, e)
        elif s == "{":
            t = Ty("struct", fields=self.fields("}"))
        elif s == "<":
            if self.at("{"):
                self.next()
                t = Ty("struct", fields=self.fields("}"), packed=True)
                self.expect(">")
            else:
                n = int(self.next()[1])
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = Ty("vector", n, e)
        elif k == "local":
            t = Ty("named", name=unq(s))
        else:
            raise SyntaxError("type %r" % (s,))
        if self.at("("):            # function type: only seen in varargs calls
            self.next()
            while not self.eat(")"):
                if self.peek()[0] == "dots":
                    self.next()
                else:
                    self.type()
                self.eat(",")
        return t

    def fields(self, close):
        f = []
        while not self.eat(close):
            f.append(self.type())
            self.eat(",")
        return f

    def attrs(self):
        """skip parameter/return attributes; returns the set seen"""
        seen = {}
        while True:
            k, s = self.peek()
            if k == "word" and s in PARAM_ATTRS:
                self.next()
                v = True
                if self.at("("):
                    d = 0
                    st = self.i
                    while True:
                        x = self.next()[1]
                        if x == "(":
                            d += 1
                        elif x == ")":
                            d -= 1
                            if d == 0:
                                break
                    v = self.t[st + 1:self.i - 1]
                elif s == "align":
                    self.next()
                seen[s] = v
            elif k in ("str", "attr"):
                self.next()
                if self.at("=") and self.peek(1)[0] == "str":
                    self.i += 2
            else:
                return seen

    # ---- values
    def value(self, ty):
        k, s = self.next()
        if k == "local":
            return V("local", unq(s), ty)
        if k == "glob":
            return V("global", unq(s), ty)
        if k == "num":
            if ty.k == "int":
                return V("int", int(s, 0), ty)
            return V("float", s, ty)
        if k == "cstr":
            return V("str", decode_cstr(s[2:-1]), ty)
        if s == "true":
            return V("int", 1, ty)
        if s == "false":
            return V("int", 0, ty)
        if s == "null":
            return V("null", None, ty)
        if s in ("undef", "poison"):
            return V("undef", None, ty)
        if s == "zeroinitializer":
            return V("zero", None, ty)
        if s == "none":
            return V("none", None, ty)
        if s in ("{", "["):
            close = "}" if s == "{" else "]"
            return V("agg", self.list(close), ty)
        if s == "<":
            if self.eat("{"):
                l = self.list("}")
                self.expect(">")
                return V("agg", l, ty)
            return V("agg", self.list(">"), ty)
        if s in ("dso_local_equivalent", "no_cfi"):
            return self.value(ty)
        if k == "word":
            # constant expression
            while self.peek()[1] in LINK:
                self.next()
            if s == "getelementptr":
                self.expect("(")
                base = self.type()
                self.expect(",")
                ops = []
                while not self.eat(")"):
                    while self.peek()[1] in LINK:
                        self.next()
                    ops.append(self.tv())
                    self.eat(",")
                return V("gep", ops, ty, base)
            if s in ("ptrtoint", "inttoptr", "bitcast", "trunc", "addrspacecast"):
                self.expect("(")
                v = self.tv()
                self.expect("to")
                self.type()
                self.expect(")")
                return V("cexpr", v, ty, s)
            if s in ("sub", "add", "xor", "mul", "shl"):
                self.expect("(")
                a = self.tv()
                self.expect(",")
                b = self.tv()
                self.expect(")")
                return V("cbin", (a, b), ty, s)
        raise SyntaxError("value %r (%r)" % (s, ty))

    def tv(self):
        t = self.type()
        self.attrs()
        return self.value(t)

    def list(self, close):
        l = []
        while not self.eat(close):
            l.append(self.tv())
            self.eat(",")
        return l


def decode_cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
                continue
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i].encode("latin1", "replace")
            i += 1
    return bytes(out)


class Module:
    def __init__(self):
        self.types, self.globals, self.fns, self.raw, self.decls = {}, {}, {}, {}, {}
        self.aliases = {}

    def fn(self, name):
        f = self.fns.get(name)
        if f is None and name in self.raw:
            f = self.fns[name] = parse_fn(self.raw[name])
        return f


def parse_module(text):
    M = Module()
    lines = text.split("\n")
    i, n = 0, len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith("define "):
            j = i
            while lines[j] != "}":
                j += 1
            m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
            nm = m.group(1)
            nm = nm[1:-1] if nm.startswith('"') else nm
            M.raw[nm] = lines[i:j]
            i = j + 1
            continue
        if ln.startswith("%") and " = type " in ln:
            p = P(tokenize(ln))
            nm = unq(p.next()[1])
            p.expect("=")
            p.expect("type")
            if p.at("opaque"):
                M.types[nm] = Ty("struct", fields=[])
            else:
                M.types[nm] = p.type()
        elif ln.startswith("@"):
            m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = ', ln)
            nm = m.group(1)
            nm = nm[1:-1] if nm.startswith('"') else nm
            M.globals[nm] = ln
            if " alias " in ln:
                g = re.findall(r'@("[^"]*"|[-a-zA-Z$._0-9]+)', ln)
                tgt = g[-1]
                M.aliases[nm] = tgt[1:-1] if tgt.startswith('"') else tgt
        elif ln.startswith("declare "):
            m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
            nm = m.group(1)
            M.decls[nm[1:-1] if nm.startswith('"') else nm] = ln
        i += 1
    return M


def parse_global(ln):
    """-> (is_const, type, init value or None)"""
    p = P(tokenize(ln))
    p.next()
    p.expect("=")
    const = False
    ext = False
    while True:
        k, s = p.peek()
        if s in ("constant", "global"):
            const = s == "constant"
            p.next()
            break
        if s in ("external", "extern_weak"):
            ext = True
        p.next()
    t = p.type()
    if ext or p.end() or p.at(","):
        return const, t, None
    return const, t, p.value(t)


def parse_fn(lines):
    f = Fn()
    h = P(tokenize(lines[0]))
    h.expect("define")
    f.linkage = set()
    while h.peek()[1] in LINK:
        f.linkage.add(h.next()[1])
    ra = h.attrs()
    f.ret_ext = "zeroext" if "zeroext" in ra else "signext" if "signext" in ra else None
    f.ret = h.type()
    f.name = unq(h.next()[1])
    h.expect("(")
    f.params, f.pext = [], []
    f.sretty = None
    while not h.eat(")"):
        if h.peek()[0] == "dots":
            h.next()
            continue
        t = h.type()
        a = h.attrs()
        if "sret" in a:
            f.sretty = P(a["sret"]).type()
        k, s = h.peek()
        nm = unq(h.next()[1]) if k == "local" else str(len(f.params))
        f.params.append((nm, t, a))
        h.eat(",")
    f.blocks, f.order = {}, []
    cur = None
    i = 1
    n = len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if not ln.strip():
            continue
        if ln[0] not in " \t":
            m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if not m:
                raise SyntaxError("label %r" % ln)
            nm = m.group(1)
            nm = nm[1:-1] if nm.startswith('"') else nm
            cur = []
            f.blocks[nm] = cur
            f.order.append(nm)
            continue
        if cur is None:
            cur = []
            nm = str(len(f.params))
            f.blocks[nm] = cur
            f.order.append(nm)
        # join continuation lines (switch, invoke, landingpad)
        s = ln
        if s.lstrip().startswith("switch ") or " switch " in s[:12]:
            while "]" not in lines[i - 1]:
                s += " " + lines[i].split(";")[0]
                i += 1
        elif "invoke " in s[:60] and " to label " not in s:
            s += " " + lines[i]
            i += 1
        elif " landingpad " in s:
            while i < n and re.match(r"\s+(catch|filter|cleanup)\b", lines[i]):
                s += " " + lines[i].strip()
                i += 1
        cur.append(parse_ins(s))
    return f


BINOPS = set("add sub mul udiv sdiv urem srem and or xor shl lshr ashr".split())
CASTS = set("trunc zext sext ptrtoint inttoptr bitcast fptosi fptoui sitofp uitofp fpext fptrunc addrspacecast".split())


def label(p):
    p.expect("label")
    return unq(p.next()[1])


def parse_ins(s):
    p = P(tokenize(s))
    res = None
    if p.peek()[0] == "local" and p.peek(1)[1] == "=":
        res = unq(p.next()[1])
        p.next()
    while p.peek()[1] in ("tail", "musttail", "notail"):
        p.next()
    op = p.next()[1]
    if op in BINOPS:
        fl = set()
        while p.peek()[1] in LINK:
            fl.add(p.next()[1])
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        return Ins(op, res, t, (a, b), fl)
    if op in CASTS:
        fl = set()
        while p.peek()[1] in LINK:
            fl.add(p.next()[1])
        a = p.tv()
        p.expect("to")
        return Ins(op, res, p.type(), (a,), fl)
    if op == "load":
        while p.peek()[1] in ("atomic", "volatile"):
            p.next()
        t = p.type()
        p.expect(",")
        return Ins("load", res, t, (p.tv(),))
    if op == "store":
        while p.peek()[1] in ("atomic", "volatile"):
            p.next()
        a = p.tv()
        p.expect(",")
        return Ins("store", None, None, (a, p.tv()))
    if op == "alloca":
        t = p.type()
        cnt = None
        if p.at(",") and p.peek(1)[0] == "word" and re.fullmatch(r"i\d+", p.peek(1)[1]):
            p.next()
            cnt = p.tv()
        return Ins("alloca", res, t, (cnt,) if cnt else ())
    if op == "getelementptr":
        while p.peek()[1] in LINK:
            p.next()
        t = p.type()
        ops = []
        while p.eat(","):
            if p.peek()[0] == "meta":
                break
            ops.append(p.tv())
        return Ins("gep", res, t, tuple(ops))
    if op == "icmp":
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.expect(",")
        return Ins("icmp", res, t, (a, p.value(t)), pred)
    if op == "fcmp":
        while p.peek()[1] in LINK:
            p.next()
        return Ins("fcmp", res, None, ())
    if op == "br":
        if p.at("label"):
            return Ins("br", None, None, (), (label(p),))
        c = p.tv()
        p.expect(",")
        a = label(p)
        p.expect(",")
        return Ins("br", None, None, (c,), (a, label(p)))
    if op == "switch":
        v = p.tv()
        p.expect(",")
        d = label(p)
        p.expect("[")
        cases = []
        while not p.eat("]"):
            c = p.tv()
            p.expect(",")
            cases.append((c.v, label(p)))
        return Ins("switch", None, None, (v,), (d, cases))
    if op == "ret":
        t = p.type()
        if t.k == "void":
            return Ins("ret", None, t, ())
        return Ins("ret", None, t, (p.value(t),))
    if op == "unreachable":
        return Ins("unreachable", None)
    if op == "resume":
        return Ins("resume", None, None, (p.tv(),))
    if op == "phi":
        while p.peek()[1] in LINK:
            p.next()
        t = p.type()
        inc = []
        while p.eat("["):
            v = p.value(t)
            p.expect(",")
            b = unq(p.next()[1])
            p.expect("]")
            inc.append((v, b))
            p.eat(",")
        return Ins("phi", res, t, (), inc)
    if op == "select":
        while p.peek()[1] in LINK:
            p.next()
        c = p.tv()
        p.expect(",")
        a = p.tv()
        p.expect(",")
        b = p.tv()
        return Ins("select", res, a.ty, (c, a, b))
    if op == "extractvalue":
        a = p.tv()
        idx = []
        while p.eat(","):
            if p.peek()[0] != "num":
                break
            idx.append(int(p.next()[1]))
        return Ins("extractvalue", res, None, (a,), idx)
    if op == "insertvalue":
        a = p.tv()
        p.expect(",")
        b = p.tv()
        idx = []
        while p.eat(","):
            if p.peek()[0] != "num":
                break
            idx.append(int(p.next()[1]))
        return Ins("insertvalue", res, a.ty, (a, b), idx)
    if op == "freeze":
        return Ins("freeze", res, None, (p.tv(),))
    if op == "landingpad":
        t = p.type()
        clauses = []
        while not p.end():
            k, w = p.next()
            if w == "cleanup":
                clauses.append(("cleanup", None))
            elif w in ("catch", "filter"):
                clauses.append((w, p.tv()))
        return Ins("landingpad", res, t, (), clauses)
    if op in ("call", "invoke"):
        while p.peek()[1] in LINK:
            p.next()
        p.attrs()
        t = p.type()
        k, sname = p.peek()
        if k in ("glob", "local"):
            p.next()
            callee = V("global" if k == "glob" else "local", unq(sname), PTR)
        elif sname == "asm":
            return Ins("asm", res, t)
        else:
            callee = p.value(PTR)
        p.expect("(")
        args = []
        while not p.eat(")"):
            at = p.type()
            if at.k == "metadata":
                d = 0
                while not (p.at(",") or p.at(")")) or d:
                    x = p.next()[1]
                    d += x in "([{"
                    d -= x in ")]}"
                p.eat(",")
                continue
            p.attrs()
            args.append(p.value(at))
            p.eat(",")
        x = None
        if op == "invoke":
            while not p.at("to"):
                p.next()
            p.expect("to")
            a = label(p)
            p.expect("unwind")
            x = (a, label(p))
        return Ins(op, res, t, tuple(args), (callee, x))
    if op in ("fadd", "fsub", "fmul", "fdiv", "frem", "fneg", "atomicrmw", "cmpxchg", "fence", "va_arg",
              "extractelement", "insertelement", "shufflevector", "indirectbr", "cleanupret", "catchret"):
        return Ins("unsupported", res, None, (), op)
    raise SyntaxError("instruction %r in %r" % (op, s))
