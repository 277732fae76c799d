"""Prints the lemma schemas that dv/lower.py hands to the solver as Lean 4 theorems.

The text is produced by running IntLower.lemmas() and IntLower.tdiv() themselves on generic unknowns, so a lemma that is
changed or added there appears here as another theorem.  python3-vt lean/gen.py > Lemmas.lean"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "dv"))
sys.dont_write_bytecode = True
import z3
import lower

I = z3.Int


def show(e):
    k = e.decl().kind()
    a = [show(x) for x in e.children()]
    if z3.is_int_value(e):
        return "(%d : Int)" % e.as_long()
    if z3.is_true(e):
        return "True"
    if z3.is_false(e):
        return "False"
    if e.num_args() == 0:
        return e.decl().name()
    Z = z3
    if k == Z.Z3_OP_UMINUS:
        return "(-%s)" % a[0]
    if k == Z.Z3_OP_NOT:
        return "(¬ %s)" % a[0]
    if k == Z.Z3_OP_DISTINCT:
        return "(%s ≠ %s)" % tuple(a)
    if k == Z.Z3_OP_ITE:
        return "(if %s then %s else %s)" % tuple(a)
    op = {Z.Z3_OP_ADD: "+", Z.Z3_OP_SUB: "-", Z.Z3_OP_MUL: "*", Z.Z3_OP_AND: "∧", Z.Z3_OP_OR: "∨", Z.Z3_OP_IMPLIES: "→",
          Z.Z3_OP_EQ: "=", Z.Z3_OP_LE: "≤", Z.Z3_OP_LT: "<", Z.Z3_OP_GE: "≥", Z.Z3_OP_GT: ">"}[k]
    if k == Z.Z3_OP_IMPLIES:
        return "(%s → %s)" % (a[0], a[1])
    return "(" + (" %s " % op).join(a) + ")"


def names(e, acc):
    if e.num_args() == 0:
        if not (z3.is_int_value(e) or z3.is_true(e) or z3.is_false(e)):
            acc.add(e.decl().name())
    for c in e.children():
        names(c, acc)
    return acc


def conclusions(f):
    """H -> (A and B): one theorem each"""
    if f.decl().kind() == z3.Z3_OP_AND:
        return [g for x in f.children() for g in conclusions(x)]
    if f.decl().kind() == z3.Z3_OP_IMPLIES:
        h, c = f.children()
        return [z3.Implies(h, g) for g in conclusions(c)]
    return [f]


OUT, SEEN = [], set()


def theorem(fam, hyps, f, tactic):
    for g in conclusions(f):
        # H1 -> H2 -> C  ==> hypotheses
        hs, c = [], g
        while c.decl().kind() == z3.Z3_OP_IMPLIES:
            hs.append(c.children()[0])
            c = c.children()[1]
        s = " → ".join(show(x) for x in hs + [c])
        key = (tuple(h for _, h in hyps), s)
        if key in SEEN:
            continue
        SEEN.add(key)
        vs = set()
        for x in hs + [c]:
            names(x, vs)
        import re
        for _, h in hyps:
            vs |= set(re.findall(r"\b[a-z]+[0-9]*\b", h)) - {"tdiv", "tmod"}
        intro = "".join(" H%d" % k for k in range(len(hs)))
        OUT.append("theorem %s_%d (%s : Int) %s : %s := by\n%s  %s" % (
            fam, len(OUT), " ".join(sorted(vs)), " ".join("(%s : %s)" % h for h in hyps), s,
            "  intro%s\n" % intro if hs else "", tactic))


def product(p, a, b, lo=("al", "ah"), hi=("bl", "bh")):
    return (I(p), I(a), I(b), (I(lo[0]), I(lo[1])), (I(hi[0]), I(hi[1])))


def main():
    # one product with bounds
    L = lower.IntLower()
    L.prods = {1: product("p", "a", "b")}
    hy = [("hp", "p = a * b"), ("h1", "al ≤ a"), ("h2", "a ≤ ah"), ("h3", "bl ≤ b"), ("h4", "b ≤ bh")]
    for f in L.lemmas():
        theorem("mul", hy, f, "prod1")
    # two products: sharing a factor in every position, and unrelated
    nb = (None, None)
    for (x1, y1, x2, y2) in (("a", "b", "c", "b"), ("a", "b", "b", "c"), ("b", "a", "c", "b"), ("b", "a", "b", "c"), ("a", "b", "c", "d"), ("a", "a", "b", "b"), ("a", "a", "a", "b")):
        L = lower.IntLower()
        L.prods = {1: (I("p"), I(x1), I(y1), nb, nb), 2: (I("q"), I(x2), I(y2), nb, nb)}
        hy = [("hp", "p = %s * %s" % (x1, y1)), ("hq", "q = %s * %s" % (x2, y2))]
        for f in L.lemmas():
            if len(names(f, set()) & {"p", "q"}) == 2:
                theorem("mul2", hy, f, "prod2 b")
    # truncated division: the defining facts
    L = lower.IntLower()
    fr = iter([I("q"), I("r"), I("p")])
    L.fresh = lambda n: next(fr)
    lower.max, lower.abs = (lambda a, b: I("m")), (lambda a: a)
    L.tdiv(I("a"), (I("al"), I("ah")), I("b"), nb)
    hy = [("hq", "q = Int.tdiv a b"), ("hr", "r = Int.tmod a b"), ("hp", "p = q * b"), ("h1", "-m ≤ a"), ("h2", "a ≤ m")]
    for f in L.side:
        theorem("div", hy, f, "divfacts a b")
    # two divisions
    for (a1, b1, a2, b2) in (("a", "b", "c", "d"), ("a", "b", "c", "b"), ("a", "b", "a", "d")):
        L = lower.IntLower()
        L.divs = {1: (I("q"), I("r"), I(a1), I(b1)), 2: (I("s"), I("t"), I(a2), I(b2))}
        hy = [("hq", "q = Int.tdiv %s %s" % (a1, b1)), ("hr", "r = Int.tmod %s %s" % (a1, b1)),
              ("hs", "s = Int.tdiv %s %s" % (a2, b2)), ("ht", "t = Int.tmod %s %s" % (a2, b2))]
        for f in L.lemmas():
            theorem("div2", hy, f, "divpair a")
    print(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "prelude.lean")).read())
    print("\n\n".join(OUT))


main()
