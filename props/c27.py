"""C27 whole expressions of safe values are exact or report an error"""
import random
from safeops import *

# shapes: nested tuples (operator, left, right), ("neg", x); leaves "a", "b", "c" (operands) or integers (safe literals)
SHAPES = [
    ("add", ("mul", "a", "b"), "c"), ("sub", ("mul", "a", "b"), "c"), ("sub", "c", ("mul", "a", "b")),
    ("mul", ("add", "a", "b"), "c"), ("mul", ("sub", "a", "b"), "c"), ("add", ("add", "a", "b"), "c"),
    ("sub", ("sub", "a", "b"), "c"), ("sub", "a", ("sub", "b", "c")), ("add", ("sub", "a", "b"), "a"),
    ("div", ("add", "a", "b"), "c"), ("add", ("div", "a", "b"), "c"), ("mod", ("add", "a", "b"), "c"),
    ("sub", ("mod", "a", "b"), "c"), ("mul", ("div", "a", "b"), "c"), ("div", ("sub", "a", "b"), "c"),
    ("div", ("add", "a", "b"), 2), ("add", ("mul", "a", 2), 1), ("sub", ("mul", 3, "a"), "b"), ("mod", ("mul", "a", "b"), 7),
    ("add", ("mul", "a", "a"), ("mul", "b", "b")), ("sub", ("mul", "a", "a"), "b"), ("mul", ("mul", "a", "a"), "a"),
    ("add", ("neg", "a"), "b"), ("neg", ("add", "a", "b")), ("mul", ("neg", "a"), "b"), ("sub", ("neg", "a"), ("neg", "b")),
    ("shr", ("add", "a", "b"), 1), ("add", ("shr", "a", 3), "b"), ("add", ("shl", "a", 2), "b"), ("shl", ("sub", "a", "b"), 1),
    ("mul", ("add", "a", 1), ("sub", "b", 1)), ("div", "a", ("add", "b", 1)), ("mod", "a", ("sub", "b", "c")),
    ("div", ("mul", "a", "b"), "c"), ("sub", ("add", "a", "b"), ("mul", "a", "b")), ("div", ("div", "a", "b"), "c"),
    ("add", ("add", ("mul", "a", "b"), ("mul", "b", "c")), "a"), ("mul", ("mul", "a", "b"), "c"),
    ("sub", ("mod", "a", 10), ("div", "b", 10)), ("mod", ("mod", "a", "b"), "c"),
]
CMP = ["lt", "le", "eq", "ge", "gt", "ne"]


def leaves(n):
    if isinstance(n, str):
        return {n}
    if isinstance(n, int):
        return set()
    return set().union(*[leaves(x) for x in n[1:]])


def builtin_ok(n, v):
    """every operator on the built-in leaf v has a safe operand of its own policy besides"""
    if isinstance(n, (str, int)):
        return True
    if n[0] == "neg":
        return n[1] != v and builtin_ok(n[1], v)
    if v in n[1:] and not (set().union(*map(leaves, n[1:])) - {v}):
        return False
    return builtin_ok(n[1], v) and builtin_ok(n[2], v)


def tag(n):
    if isinstance(n, (str, int)):
        return str(n)
    return "_".join([n[0]] + [tag(x) for x in n[1:]])


def text(n, wrap):
    if isinstance(n, str):
        return wrap(n)
    if isinstance(n, int):
        return "safe_signed_literal<%d>()" % n
    if n[0] == "neg":
        return "(- %s)" % text(n[1], wrap)
    return "(%s %s %s)" % (text(n[1], wrap), OPC[n[0]], text(n[2], wrap))


def meaning(n, env):
    """-> (value, defined)"""
    if isinstance(n, str):
        return env[n], TRUE
    if isinstance(n, int):
        return t.ic(n), TRUE
    if n[0] == "neg":
        x, d = meaning(n[1], env)
        return t.ineg(x), d
    (x, d), (y, f) = meaning(n[1], env), meaning(n[2], env)
    if n[0] in CMP:
        r = {"lt": t.ilt(x, y), "gt": t.igt(x, y), "le": t.ile(x, y), "ge": t.ile(y, x), "eq": t.ieq(x, y), "ne": lnot(t.ieq(x, y))}[n[0]]
        return ite(r, t.ic(1), t.ic(0)), land(d, f)
    dom = TRUE
    if n[0] in ("div", "mod"):
        dom = lnot(t.ieq(y, 0))
    elif n[0] in ("shl", "shr"):
        dom = t.ile(0, x)
    return exact(n[0], x, y), land(d, f, dom)


def expr(shape, ops, p, x, target=None):
    """ops: operand per leaf"""
    vs = sorted(leaves(shape))
    cmp_ = shape[0] in CMP
    nm = "%s_%s_%s%s%s" % (tag(shape), "_".join(ops[v].tag() for v in vs), p, x, "_to_" + target.tag() if target else "")
    P, X = POL[p], EXC[x]
    code = "".join("typedef %s %s_%s;\n" % (ops[v].cls(P, X), v.upper(), nm) for v in vs)
    ty = "std::decay<decltype%s>::type" % text(shape, lambda v: "std::declval<%s_%s const &>()" % (v.upper(), nm))
    if target:
        code += "typedef %s T_%s;\n" % (target.cls(P, X), nm)
        ty = "T_" + nm
    if not cmp_:
        code += "META(%s, %s)\n" % (nm, ty)
    body = " ".join(ops[v].decl("%s_%s" % (v.upper(), nm), v, v + "_") for v in vs)
    e = text(shape, lambda v: v)
    if target:
        e = "T_%s(%s)" % (nm, e)
    code += 'extern "C" void H_%s(%s, u64 * out){ %s out[0] = hv::ov(%s); }\n' % (nm, ", ".join("%s %s_" % (cpp(ops[v].ty), v) for v in vs), body, e)

    def posts(e):
        v, d = meaning(shape, dict(zip(vs, e.A)))
        if cmp_:
            return [("returns normally only with the truth", imp(e.normal, land(d, t.ieq(e.o(0), v))))]
        lo, hi = e.declared()
        return [("returns normally only with the exact value", imp(e.normal, land(d, t.ieq(e.res(), v)))),
                ("the value lies in the declared range", imp(e.normal, between(lo, e.res(), hi))),
                ("the code is an arithmetic one", imp(e.threw, lor(*[t.ieq(e.code, c) for c in (POS, NEG, DOM, NEGSH, BIGSH, NEGVAL)])))]
    return Case(nm, code, [ops[v].arg() for v in vs], posts, meta=not cmp_, fn="expression %s on %s" % (e, ", ".join(ops[v].tag() for v in vs)))


SMALL = [sf("sc"), sf("uc"), sf("s"), sf("us"), rs(-100, 100), ru(0, 1000), rg("i", -1000, 46340), rg("s", -300, 5), rg("us", 0, 32), rg("sc", -7, -3)]


def job(tier, seed=1):
    rnd = random.Random(27)
    cs = []
    full = [sf(x) for x in W8]
    n = 10 if tier == "quick" else 40
    for shape in SHAPES:
        vs = sorted(leaves(shape))
        for k in range(n):
            pool = (SMALL + full if k % 3 == 0 else full if k % 3 == 1 else GRID + full)
            ops = {v: rnd.choice(pool) for v in vs}
            if k % 4 == 3 and builtin_ok(shape, vs[-1]):
                ops[vs[-1]] = bi(rnd.choice(W8))
            p = "na"[(k + k // 6) % 2]
            shift = "shl" in tag(shape) or "shr" in tag(shape)
            cs.append(expr(shape, ops, p, "s" if shift else "sl"[(k // 2) % 2]))
    # the value of an expression stored in another safe type
    for j, shape in enumerate(SHAPES):
        vs = sorted(leaves(shape))
        for k in range(n // 2):
            ops = {v: rnd.choice((SMALL, full)[k % 2]) for v in vs}
            shift = "shl" in tag(shape) or "shr" in tag(shape)
            cs.append(expr(shape, ops, "na"[(j + k) % 2], "s" if shift else "sl"[k % 2], full[(j + 3 * k) % 8]))
    # comparisons of expressions
    for j, shape in enumerate(SHAPES):
        for k in range(n // 3):
            q = (CMP[(j + k) % 6], shape, "d") if (j + k) % 2 else (CMP[(j + k) % 6], "d", shape)
            ops = {v: rnd.choice((SMALL, full)[k % 2]) for v in sorted(leaves(q))}
            ops["d"] = rnd.choice(full)
            cs.append(expr(q, ops, "na"[(j + k) % 2], "s"))
    return Job("C27", cs, chunk=8, contracts=True)
