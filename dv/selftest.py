"""Tests of the machinery itself (not of the library): for a sample of the cases of every property
  1. the symbolic outcome of the VC generator, evaluated on concrete arguments, is compared with the real code compiled
     by g++ on the same arguments (normal / thrown / code / results / stored objects);
  2. each lowering of the verification condition, with the variables fixed to those arguments, must have the truth
     value the term evaluator gives, and its side conditions and lemmas must be satisfiable.
python3-vt dv/selftest.py [-n CASES] [-r ROWS] [PROPERTY...]     exit 0: no disagreement"""
import argparse, importlib, json, os, random, shutil, sys, tempfile, time, traceback
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, os.path.join(here, "..", "props")]
sys.dont_write_bytecode = True
import multiprocessing as mp
import z3
import drive, vc, lower, execu
import terms as t


def symbolic(v, env):
    """outcome for concrete arguments; None in a slot: not determined by the arguments"""
    known = set(env)
    det = lambda x: not (set(t.variables([x])) - known)
    e = v.e
    traps = [g for g, _, _ in v.ctx.traps]
    r = {"trap": None, "kind": None, "code": None, "out": [], "after": []}
    if not all(map(det, traps + [e.normal, e.threw])):
        return None
    r["trap"] = any(t.evaluate(g, env) for g in traps)
    n, th = t.evaluate(e.normal, env), t.evaluate(e.threw, env)
    r["kind"] = "normal" if n else "threw" if th else "none"
    if n and th:
        r["kind"] = "both"
    if th and det(e.code):
        r["code"] = t.evaluate(e.code, env)
    r["out"] = [t.evaluate(x, env) if det(x) else None for x in e.out]
    r["after"] = [t.evaluate(x, env) if det(x) else None for x in e.after]
    return r


def low(pre, goal, env, log):
    """-> number of lowerings tested"""
    n = 0
    want = t.evaluate(goal, env)
    for mode in ("int", "bv"):
        try:
            if mode == "int":
                L = lower.IntLower(lower.hints([pre, goal]), False)
                g, p = L.B(goal), L.B(pre)
                side = list(L.side) + list(L.lemmas())
                fix = []
                for name, x in L.vars.items():
                    val = env.get(name, 0)
                    if x[0] == "b":
                        fix.append(x[1] == bool(val))
                    elif x[0] == "s":
                        fix.append(x[1] == t.sgn(val, x[2]))
                    else:
                        fix.append(x[1] == val)
                # products and quotients are what they are
                fix += [q == a * b for q, a, b, _, _ in L.prods.values()]
            else:
                L = lower.BvLower()
                g, p = L.B(goal), L.B(pre)
                side = list(getattr(L, "side", []))
                fix = []
                for name, x in L.vars.items():
                    val = env.get(name, 0)
                    x = x[1] if isinstance(x, tuple) else x
                    fix.append(x == (bool(val) if z3.is_bool(x) else val))
        except (lower.NeedBV, RecursionError):
            continue
        s = z3.Solver()
        s.set("timeout", 4000)
        s.add(*side)
        s.add(*fix)
        c = s.check()
        if c == z3.unsat:
            log.append("%s: side conditions unsatisfiable for %s" % (mode, env))
        if c != z3.sat:
            continue
        s.add(g != z3.BoolVal(bool(want)))
        if s.check() == z3.sat:
            log.append("%s: lowering disagrees with the evaluator for %s (evaluator: %s)" % (mode, env, want))
        n += 1
    return n


def one(prop, names, rows, tmp, conn):
    res = {"cases": 0, "runs": 0, "lowerings": 0, "slots": 0, "bad": [], "skipped": 0}
    try:
        job = importlib.import_module(prop.lower()).job("quick")
        by = {c.name: c for c in job.cases}
        for nm in names:
            c = by[nm]
            if job.traps:
                c.code = c.alt
            mods, errs = drive.compile_ll(job, [c], tmp, "st_" + prop)
            if errs or not mods:
                res["skipped"] += 1
                continue
            try:
                v = vc.Vc(mods[0][0], c, None)
            except Exception:
                res["skipped"] += 1
                continue
            cons = vc.Vc  # noqa
            R = drive.samples(c, rows, nm)[:rows]
            outs = None
            if c.ctx is None and c.ext is None or c.native:
                nat = drive.Native(job, c, tmp)
                outs = nat.run(R) if nat.ok else None
            res["cases"] += 1
            goal = t.land(*[g for _, g in v.goals])
            for k, row in enumerate(R):
                env = {"a%d" % i: x for i, x in enumerate(row)}
                free = set(t.variables([v.pre])) - set(env)
                if free or not t.evaluate(v.pre, env):
                    continue
                if k < 3:
                    log = []
                    res["lowerings"] += low(v.pre, goal, dict(env), log)
                    res["bad"] += ["%s %s: %s" % (prop, nm, x) for x in log]
                if outs is None:
                    continue
                s = symbolic(v, env)
                if s is None:
                    continue
                o = outs[k]
                res["runs"] += 1
                bad = None
                if s["trap"]:
                    continue            # undefined behaviour: nothing to compare
                if o["kind"] != s["kind"]:
                    bad = "outcome %s, real %s" % (s["kind"], o["kind"])
                elif o["kind"] == "threw" and s["code"] is not None and o["code"] != s["code"]:
                    bad = "code %s, real %s" % (s["code"], o["code"])
                else:
                    if o["kind"] == "normal":
                        for j, (x, y) in enumerate(zip(s["out"], o["out"])):
                            if x is not None:
                                res["slots"] += 1
                                if x != y:
                                    bad = "result %d: %s, real %s" % (j, x, y)
                    for j, (x, y) in enumerate(zip(s["after"], o["after"])):
                        if x is not None:
                            res["slots"] += 1
                            if (x - y) % (1 << 64):
                                bad = "object %d: %s, real %s" % (j, x, y)
                if bad:
                    res["bad"].append("%s %s %s: %s" % (prop, nm, row, bad))
    except BaseException:
        res["bad"].append("%s: %s" % (prop, traceback.format_exc()[-600:]))
    conn.send(res)
    conn.close()


def run(props, n, rows, seed):
    tmp = tempfile.mkdtemp(prefix="verif.selftest.")
    work = []
    try:
        for p in props:
            job = importlib.import_module(p.lower()).job("quick")
            nm = [c.name for c in job.cases if not c.solo and not c.ill_formed]
            random.Random("%s%s" % (p, seed)).shuffle(nm)
            for k in range(0, min(n, len(nm)), 8):
                work.append((p, nm[k:min(k + 8, n)]))
        tot = {"cases": 0, "runs": 0, "lowerings": 0, "slots": 0, "bad": [], "skipped": 0}
        live = []
        while work or live:
            while work and len(live) < 8:
                p, names = work.pop(0)
                a, b = mp.Pipe(False)
                d = tempfile.mkdtemp(dir=tmp)
                q = mp.Process(target=one, args=(p, names, rows, d, b))
                q.start()
                b.close()
                live.append((q, a, p))
            for ent in list(live):
                q, a, p = ent
                if a.poll(0.02):
                    try:
                        r = a.recv()
                    except EOFError:
                        r = {"bad": ["%s: worker died" % p]}
                    for k in tot:
                        tot[k] += r.get(k, [] if k == "bad" else 0)
                    q.join()
                    live.remove(ent)
        return tot
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("-n", type=int, default=16)
    ap.add_argument("-r", type=int, default=40)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("props", nargs="*")
    a = ap.parse_args()
    ps = a.props or ["C%02d" % k for k in range(1, 28)]
    mp.set_start_method("fork")
    t0 = time.time()
    r = run(ps, a.n, a.r, a.s)
    for x in r["bad"][:40]:
        print("DISAGREE", x)
    print("selftest: %d cases, %d runs compared with the real code, %d result slots, %d lowerings checked, %d skipped, %d disagreements, %.0fs" % (
        r["cases"], r["runs"], r["slots"], r["lowerings"], r["skipped"], len(r["bad"]), time.time() - t0))
    sys.exit(1 if r["bad"] else 0)
