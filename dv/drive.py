"""Check driver: rebuild harness IR from /repo, generate and discharge the
obligations in parallel, replay failures on the real code, write evidence."""
import json, os, random, re, shutil, subprocess, sys, time, traceback, signal
import multiprocessing as mp

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = os.path.join(REPO, "include")
JOBS = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 8))))
CLANG = ["clang++", "-std=c++14", "-I" + INC, "-I" + os.path.join(VERIF, "harness"), "-O0", "-S", "-emit-llvm",
         "-fsanitize=undefined", "-fno-sanitize=null,alignment,vptr,object-size,function,nonnull-attribute,"
         "returns-nonnull-attribute,pointer-overflow,array-bounds", "-fsanitize-trap=all", "-fno-discard-value-names",
         "-ftemplate-depth=2000", "-w"]
GXX = ["g++", "-std=c++14", "-I" + INC, "-I" + os.path.join(VERIF, "harness"), "-O0", "-w",
       "-fsanitize=undefined", "-fno-sanitize-recover=all", "-ftemplate-depth=2000"]

import terms as t
import ir, execu, vc, lower


NOCOMPILE = "instance does not compile"


class Job:
    """a property check"""

    def __init__(self, prop, cases, header="", chunk=40, contracts=None, budget=20.0, post=None, traps=False):
        seen = {}
        for c in cases:
            # the same instance named twice: once is enough
            assert seen.setdefault(c.name, c.code) == c.code, c.name
        uniq = {c.name: c for c in cases}
        self.prop, self.cases, self.header, self.chunk = prop, list(uniq.values()), header, chunk
        self.contracts = contracts
        self.budget = budget
        self.extra = post
        self.traps = traps      # the compiler may refuse an instance: exactly if it can fail


def source(job, cases):
    return '#include "h.hpp"\n' + job.header + "\n" + "\n".join(c.code for c in cases) + "\n"


def compile_ll(job, cases, tmp, tag, found=0):
    """-> (list of (module, cases), list of (case, error))"""
    src = os.path.join(tmp, tag + ".cpp")
    with open(src, "w") as f:
        f.write(source(job, cases))
    ll = os.path.join(tmp, tag + ".ll")
    p = subprocess.run(CLANG + [src, "-o", ll], capture_output=True, text=True)
    if p.returncode == 0:
        txt = open(ll).read()
        os.unlink(ll)
        os.unlink(src)
        return [(ir.parse_module(txt), cases)], []
    if len(cases) == 1:
        return [], [(cases[0], p.stderr[:6000])]
    h = len(cases) // 2
    a = compile_ll(job, cases[:h], tmp, tag + "a", found)
    if found + len(a[1]) >= 4:
        return a        # the verdict is settled
    b = compile_ll(job, cases[h:], tmp, tag + "b", found + len(a[1]))
    return a[0] + b[0], a[1] + b[1]


CASELINE = re.compile(r"^case:([^:]+):\d+:\d+: ")


def refused(job, cases, tmp, tag):
    """names of the cases the compiler refuses, with the first message; None: not attributable"""
    src = os.path.join(tmp, tag + "t.cpp")
    with open(src, "w") as f:
        f.write('#include "h.hpp"\n' + job.header + "\n")
        for c in cases:
            f.write('#line 1 "case:%s"\n%s\n' % (c.name, c.code))
    fl = [x for x in CLANG if x not in ("-S", "-emit-llvm")]
    p = subprocess.run(fl + ["-fsyntax-only", "-ferror-limit=0", "-ftemplate-backtrace-limit=0", "-fno-caret-diagnostics", src],
                       capture_output=True, text=True)
    os.unlink(src)
    out = {}
    if p.returncode == 0:
        return out
    blocks, cur = [], None
    for ln in p.stderr.splitlines():
        if ": error: " in ln or ": fatal error: " in ln:
            cur = [ln]
            blocks.append(cur)
        elif cur is not None:
            cur.append(ln)
    for b in blocks:
        ns = [m.group(1) for m in map(CASELINE.match, b) if m]
        if not ns:
            return None
        out.setdefault(ns[-1], b[0])
    return out


def trap_chunk(job, cases, tmp, tag):
    """-> modules, results of a chunk of instances under trapping policies"""
    import copy
    # instances of a shared policy are judged on their own: an error in a shared function is reported once
    ref = refused(job, [c for c in cases if not c.solo], tmp, tag)
    for k, c in enumerate(cases):
        if c.solo and ref is not None:
            q = refused(job, [c], tmp, tag + "_s%d" % k)
            if q is None or q:
                ref[c.name] = (q or {}).get(c.name, "refused")
    if ref is None:
        # one by one
        ref = {}
        for k, c in enumerate(cases):
            q = refused(job, [c], tmp, tag + "_%d" % k)
            if q is None or q:
                ref[c.name] = (q or {}).get(c.name, "refused")
    todo, free = [], []
    for c in cases:
        c2 = copy.copy(c)
        if c.name in ref:
            if c.excuse is True:
                free.append(c)
                continue
            c2.code, c2.refused = c.alt, ref[c.name]
        todo.append(c2)
    return compile_ll(job, todo, tmp, tag) + (free,)


ILLFORMED = "a program the property says is ill-formed compiles"


def ill_formed(job, cases, tmp, tag):
    """results of the cases whose program the compiler has to refuse (static assertions of the library, decided by clang)"""
    t0 = time.time()
    ref = refused(job, cases, tmp, tag) if cases else {}
    res = []
    for k, c in enumerate(cases):
        if ref is None or c.name not in ref:
            q = refused(job, [c], tmp, tag + "_%d" % k)     # on its own: None is a refusal as well
            no = None if q == {} else (q or {}).get(c.name, "refused")
        else:
            no = ref[c.name]
        lab = "the compiler refuses the program"
        r = {"case": c.name, "status": "proved", "obligations": [(lab, "proved", "clang")], "labels": [lab],
             "time": 0.0, "solver_s": 0.0, "fn": c.fn, "refused": True}
        if no is None:
            r.update(status="refuted", label=ILLFORMED, obligations=[(lab, "refuted", "clang")])
        res.append(r)
    return res


def witness_case(r, v, case, b):
    """the compiler refuses this instance: some arguments must make it fail"""
    goals = [g for _, g in v.goals]
    lab = "an operation the compiler refuses under the trapping policy can fail"
    if case.excuse and case.excuse(v.e.meta):
        r["labels"], r["excused"] = [], True
        return r
    r["labels"] = [lab]
    good = t.land(*goals)
    for row in samples(case, 200, 1):
        env = {"a%d" % k: x for k, x in enumerate(row)}
        try:
            if t.evaluate(t.land(v.pre, t.lnot(good)), env):
                r["obligations"] = [(lab, "proved", "witness by evaluation")]
                r["solver_s"] = 0.0
                return r
        except Exception:
            break
    q = lower.decide(v.pre, good, b)
    r["solver_s"] += q.time
    if q.status == "refuted":
        r["obligations"] = [(lab, "proved", q.backend + " model")]
    elif q.status == "proved":
        r["obligations"] = [(lab, "refuted", q.backend)]
        r.update(status="refuted", label=lab, detail=case.refused)
    else:
        r["obligations"] = [(lab, "unknown", q.backend)]
        r.update(status="unknown", label=lab, detail=case.refused)
    return r


def verify_case(M, case, cons, budget):
    """-> dict"""
    t0 = time.time()
    r = {"case": case.name, "status": "proved", "obligations": [], "time": 0.0, "solver_s": 0.0, "fn": case.fn}
    try:
        v = vc.Vc(M, case, cons)
    except vc.Failure as e:
        r.update(status="failed", label=str(e))
        return r
    except (execu.Unsupported, SyntaxError, RecursionError, KeyError, AttributeError, IndexError, TypeError,
            AssertionError) as e:
        r.update(status="unsupported", label="%s: %s" % (type(e).__name__, e), tb=traceback.format_exc()[-1500:])
        return r
    r["meta"] = v.e.meta
    r["trusted"] = sorted(v.ctx.trusted)
    r["inlined"] = len(v.ctx.inlined)
    r["contracts"] = sorted(v.ctx.used_contracts)
    goals = v.goals
    r["labels"] = [l for l, _ in goals]
    b = case.budget or budget
    if getattr(case, "refused", None):
        r = witness_case(r, v, case, b)
        r["refused"] = True
        r["time"] = time.time() - t0
        return r
    cov = cover(v, case)
    r["cover"] = cov
    if case.cover and not cov:
        # it must throw for all arguments (fine if the specification says so: the
        # "throws only if" obligation decides), but some exit must be reachable
        r["never_returns"] = True
        if not cover(v, case, "any"):
            r.update(status="failed", label="no exit is reachable for any arguments: the other obligations would hold vacuously")
            r["obligations"] = [(r["label"], "failed", "")]
            return r
    res = lower.decide(v.pre, t.land(*[g for _, g in goals]), b / 2) if len(goals) > 1 else None
    r["solver_s"] += res.time if res else 0
    if res is not None and res.status == "proved":
        r["obligations"] = [(l, "proved", res.backend) for l, _ in goals]
    else:
        for l, g in goals:
            q = lower.decide(v.pre, g, b)
            r["solver_s"] += q.time
            r["obligations"].append((l, q.status, q.backend))
            if q.status == "refuted" and r["status"] != "refuted":
                r.update(status="refuted", label=l, model=q.env)
            elif q.status == "unknown" and r["status"] == "proved":
                r.update(status="unknown", label=l, smt=(q.smt or "")[:200000])
    if r["status"] == "refuted":
        r["args"] = [r["model"].get("a%d" % k, 0) for k in range(len(case.args))]
    r["time"] = time.time() - t0
    return r


def samples(case, n, seed):
    rnd = random.Random("%s/%s/%d" % (seed, case.name, n))
    pools = []
    for a in case.args:
        w = vc.bits(a.ty)
        s = set()
        for k in (0, 1, 2, 3, 5, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256):
            s |= {k, -k, k - 1, -k - 1}
        for k in (7, 8, 15, 16, 31, 32, 62, 63):
            s |= {(1 << k) - 1, 1 << k, (1 << k) + 1, -(1 << k), -(1 << k) - 1, -(1 << k) + 1}
        for d in (0, 1, 2):
            s |= {a.lo + d, a.hi - d}
        l = [x for x in s if a.lo <= x <= a.hi]
        pools.append(sorted(l))
    out = []
    if not pools:
        return [[]]
    for i in range(n):
        row = []
        for a, p in zip(case.args, pools):
            r = rnd.random()
            if a.pool and r < 0.75:
                x = rnd.choice(a.pool)
            elif r < 0.7:
                x = rnd.choice(p)
            elif r < 0.85:
                x = rnd.randint(a.lo, a.hi)
            else:
                k = rnd.randint(1, 64)
                x = rnd.choice([1, -1]) * rnd.getrandbits(k)
                x = min(max(x, a.lo), a.hi)
            row.append(x & ((1 << vc.bits(a.ty)) - 1))
        out.append(row)
    return out


def cover(v, case, what=None):
    """the precondition is satisfiable and a normal (or any) exit is reachable"""
    what = what or case.cover
    if what is None:
        return True
    tgt = v.e.normal if what == "normal" else t.lor(v.e.normal, v.e.threw)
    f = t.land(v.pre, tgt)
    if f is t.TRUE:
        return True
    for row in samples(case, 60, 1):
        env = {"a%d" % k: x for k, x in enumerate(row)}
        try:
            if t.evaluate(f, env):
                return True
        except Exception:
            pass
    return lower.decide(t.TRUE, t.lnot(f), 5).status != "proved"


def chunk_worker(job, idx, tmp, tag, conn):
    res = []
    try:
        t0 = time.time()
        cases = [job.cases[i] for i in idx]
        for r in ill_formed(job, [c for c in cases if c.ill_formed], tmp, tag + "w"):
            conn.send(("r", r))
        cases = [c for c in cases if not c.ill_formed]
        mods, errs, free = trap_chunk(job, cases, tmp, tag) if job.traps else compile_ll(job, cases, tmp, tag) + ([],)
        ct = time.time() - t0
        for c in free:
            # the property allows the refusal whatever the operands: nothing is claimed
            conn.send(("r", {"case": c.name, "status": "proved", "obligations": [], "time": 0.0, "solver_s": 0.0, "fn": c.fn,
                             "labels": [], "refused": True, "excused": True}))
        for c, e in errs:
            res.append({"case": c.name, "status": "failed", "label": NOCOMPILE, "detail": e,
                        "obligations": [], "time": 0, "solver_s": 0, "fn": c.fn})
        cinfo = None
        for M, cs in mods:
            cons = None
            if job.contracts:
                import contracts
                cons = contracts.Registry(M, job.budget, tmp)
            for r in res:
                if r.get("label") == NOCOMPILE and not r.get("sent"):
                    r["sent"] = True
                    conn.send(("r", r))
            for c in cs:
                r = verify_case(M, c, cons, job.budget)
                if cons and r["status"] != "proved":
                    # a contract may say less than the body: decide with every callee inlined
                    r2 = verify_case(M, c, None, job.budget)
                    r2["time"] += r["time"]
                    r2["solver_s"] += r["solver_s"]
                    if r2["status"] == "proved" or r2["status"] == "refuted" or r["status"] == "refuted":
                        r = r2
                res.append(r)
                conn.send(("r", r))
            if cons:
                conn.send(("c", cons.report()))
        for r in res:
            if r.get("label") == NOCOMPILE and not r.get("sent"):
                conn.send(("r", r))
        conn.send(("done", ct))
    except BaseException as e:
        try:
            conn.send(("err", traceback.format_exc()))
        except Exception:
            pass
    conn.close()


def is_settling(r):
    return r["status"] == "refuted" or r.get("label") == NOCOMPILE


def run_chunks(job, idxs, tmp, deadline, log):
    """run chunks of case indices in forked workers; -> results by case, contract reports, errors"""
    todo = []
    n = max(1, min(job.chunk, (len(idxs) + JOBS - 1) // JOBS))
    for k in range(0, len(idxs), n):
        todo.append(idxs[k:k + n])
    out, creps, errors = {}, [], []
    run = []
    k = 0
    t0, stop, nbad = time.time(), None, 0
    ctx = mp.get_context("fork")
    while todo or run:
        while todo and len(run) < JOBS:
            ch = todo.pop(0)
            a, b = ctx.Pipe(False)
            k += 1
            p = ctx.Process(target=chunk_worker, args=(job, ch, tmp, "c%d" % k, b))
            p.start()
            b.close()
            run.append((p, a, ch, time.time()))
        ready = mp.connection.wait([a for _, a, _, _ in run], timeout=1.0)
        for ent in list(run):
            p, a, ch, st = ent
            dead = False
            while a in ready and a.poll():
                try:
                    m = a.recv()
                except EOFError:
                    dead = True
                    break
                if m[0] == "r":
                    out[m[1]["case"]] = m[1]
                    nbad += is_settling(m[1])
                    if nbad >= 8 and not stop:
                        # enough counterexamples: the verdict is settled
                        stop = max(time.time() + 20, t0 + 60)
                elif m[0] == "c":
                    creps.append(m[1])
                elif m[0] == "err":
                    errors.append(m[1])
            if dead or not p.is_alive() and not a.poll():
                p.join()
                run.remove(ent)
            elif time.time() > deadline or stop and time.time() > stop:
                p.kill()
                p.join()
                run.remove(ent)
                errors.append("deadline" if not stop else "stopped after %d refuted instances" % nbad)
        if stop and time.time() > stop:
            todo = []
    return out, creps, errors


# ------------------------------------------------------------------ replay on the real code
def driver_source(job, case):
    args = []
    pre = ""
    post = ""
    for k, a in enumerate(case.args):
        ct = vc.cpp(a.ty)
        if a.kind == "obj":
            pre += "    typedef %s O%d; O%d o%d((%s)a[%d]);\n" % (a.cls, k, k, k, ct, k)
            args.append("o%d" % k)
            post += "after[(*na)++] = (u64)(i64)base_value(o%d); " % k
        else:
            args.append("(%s)a[%d]" % (ct, k))
    args.append("out")
    body = pre
    if post:
        body += "    struct G { std::function<void()> f; ~G(){ f(); } } g{[&]{ %s }};\n" % post
    body += "    H_%s(%s);\n" % (case.name, ", ".join(args))
    return ('#define HV_REPLAY 1\n#include <functional>\n' + source(job, [case]) + '#include "main.hpp"\n'
            'int main(){\n  hv_loop(%d, %d, [](const u64 * a, u64 * out, u64 * after, int * na){ (void)a;(void)na;(void)after;\n%s  });\n}\n'
            % (len(case.args), case.nout, body))


class Native:
    def __init__(self, job, case, tmp, cxx=None):
        self.job, self.case = job, case
        self.src = driver_source(job, case)
        self.cpp = os.path.join(tmp, "replay_%s.cpp" % case.name)
        self.exe = self.cpp[:-4] + ".exe"
        with open(self.cpp, "w") as f:
            f.write(self.src)
        p = subprocess.run((cxx or GXX) + [self.cpp, "-o", self.exe], capture_output=True, text=True)
        self.ok = p.returncode == 0
        self.err = p.stderr[:4000]

    def run(self, rows):
        inp = "\n".join(" ".join(str(x) for x in r) for r in rows) + "\n"
        p = subprocess.run([self.exe], input=inp, capture_output=True, text=True, timeout=120)
        outs = []
        no = self.case.nout
        for ln in p.stdout.splitlines():
            w = ln.split()
            if w[0] == "trap":
                outs.append({"kind": "trap", "msg": "process ended with status %s" % w[1]})
            else:
                v = [int(x) for x in w[3:]]
                outs.append({"kind": w[0], "code": int(w[1]), "syserr": w[2] == "1", "out": v[:no], "after": v[no:]})
        return outs


def replay(job, case, r, tmp, nsearch):
    """confirm a failed obligation on the real code; -> (confirmed, record)"""
    rec = {"property": job.prop, "case": case.name, "obligation": r.get("label"), "verifier_status": r["status"],
           "detail": r.get("detail") or r.get("tb") or "", "note": case.note,
           "obligations": r.get("obligations"), "model": {k: str(v) for k, v in (r.get("model") or {}).items()}}
    if r.get("label") == NOCOMPILE:
        rec["what"] = "an instance of the public interface that must compile no longer compiles"
        rec["source"] = source(job, [case])
        return True, rec
    if r.get("label") == ILLFORMED:
        rec["what"] = ILLFORMED
        rec["source"] = source(job, [case])
        src = os.path.join(tmp, "ill_%s.cpp" % case.name)
        with open(src, "w") as f:
            f.write(rec["source"])
        p = subprocess.run(GXX + ["-fsyntax-only", src], capture_output=True, text=True)
        return p.returncode == 0, rec       # g++ agrees that it compiles
    if r.get("refused"):
        # the arguments that must not matter: every one succeeds under the throwing policy, the compiler refuses
        rec["what"] = "refused by the compiler under the trapping policy although no arguments make it fail"
        rec["source"] = source(job, [case])
        return r["status"] == "refuted", rec
    if (case.ctx is not None or case.ext is not None) and not case.native:
        rec["source"] = source(job, [case])
        return False, rec
    try:
        nat = Native(job, case, tmp)
        rec["source"] = nat.src
        if not nat.ok:
            rec["compile"] = nat.err
            return False, rec
        meta = r.get("meta")
        if meta is None and case.meta:
            return False, rec
        rows = []
        if r.get("args") is not None:
            rows.append(r["args"])
        rows += samples(case, nsearch, os.environ.get("VERIF_SEED", "1"))
        outs = nat.run(rows)
        for row, o in zip(rows, outs):
            bad = vc.concrete(case, meta, row, o)
            if bad:
                rec.update(args=[t.sgn(x, vc.bits(a.ty)) if vc.signed(a.ty) else x for x, a in zip(row, case.args)],
                           observed=o, violated=bad)
                return True, rec
    except Exception as e:
        rec["replay_error"] = "%s: %s" % (type(e).__name__, e)
    rec["smt"] = r.get("smt", "")[:50000]
    return False, rec


def known_findings(prop):
    f = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(f):
        return []
    return [x for x in json.load(open(f)).get("findings", []) if x.get("property") == prop]


def run(job, tier, seed):
    t0 = time.time()
    tmp = os.path.join("/tmp", "verif.%s.%d" % (job.prop, os.getpid()))
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    try:
        return _run(job, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run(job, tier, seed, tmp, t0):
    names = [c.name for c in job.cases]
    assert len(set(names)) == len(names), "duplicate case names"
    byname = {c.name: c for c in job.cases}
    deadline = t0 + (600 if tier == "quick" else 3 * 3600)
    idxs = list(range(len(job.cases)))
    random.Random(7).shuffle(idxs)
    out, creps, errors = run_chunks(job, idxs, tmp, deadline, None)
    # a worker that died or ran out of memory: once more, one case at a time
    miss = [i for i in idxs if job.cases[i].name not in out]
    settled = sum(is_settling(r) for r in out.values()) >= 8
    if miss and not settled and time.time() < deadline - 60:
        j2 = Job(job.prop, job.cases, job.header, 1, job.contracts, job.budget, traps=job.traps)
        o2, c2, e2 = run_chunks(j2, miss, tmp, deadline, None)
        out.update(o2)
        creps += c2
        errors += e2
    # undecided: once more with a larger budget
    unk = [i for i in idxs if out.get(job.cases[i].name, {}).get("status") == "unknown"]
    if unk and not settled and time.time() < deadline - 120:
        j2 = Job(job.prop, job.cases, job.header, 1, job.contracts, job.budget * 4, traps=job.traps)
        o2, c2, e2 = run_chunks(j2, unk[:64], tmp, min(deadline, time.time() + 240), None)
        out.update(o2)
    for c in job.cases:
        if c.name not in out and settled:
            out[c.name] = {"case": c.name, "status": "skipped", "label": "not examined: violations were found already",
                           "obligations": [], "time": 0, "solver_s": 0, "fn": c.fn}
        elif c.name not in out:
            out[c.name] = {"case": c.name, "status": "unknown", "label": "not decided within the time limit",
                           "obligations": [], "time": 0, "solver_s": 0, "fn": c.fn}
    bad = [r for r in out.values() if r["status"] not in ("proved", "skipped")]
    never = [r for r in out.values() if r.get("never_returns")]
    known = known_findings(job.prop)
    kn = [k["case"] for k in known]
    viol, knownhit = [], []
    bad.sort(key=lambda r: (r["status"] != "refuted", r["case"]))
    for r in bad:
        ks = [k for k in known if re.fullmatch(k["case"], r["case"]) and
              (not k.get("label") or re.search(k["label"], r.get("label") or ""))]
        if ks:
            knownhit.append((r, ks[0]))
        else:
            viol.append(r)
    rdir = os.path.join(VERIF, "replays", job.prop)
    shutil.rmtree(rdir, ignore_errors=True)
    lines = []
    confirmed = 0
    for n, r in enumerate(viol):
        if n >= 12 and confirmed:
            break
        if n >= 40 or lines and time.time() > deadline + 150:
            break
        c = byname[r["case"]]
        ok, rec = replay(job, c, r, tmp, 400 if r["status"] == "refuted" else 3000)
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, c.name + ".json")
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        if ok:
            confirmed += 1
            lines.insert(0, "VIOLATION property=%s replay=%s" % (job.prop, path))
        else:
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (job.prop, path))
    for r, k in knownhit:
        print("KNOWN-FINDING: property=%s %s (%s)" % (job.prop, k["what"], r["case"]))
    extra = job.extra(job, tier) if job.extra else {}
    obl = sum(len(r["obligations"]) for r in out.values())
    dis = sum(1 for r in out.values() for o in r["obligations"] if o[1] == "proved")
    be = {}
    for r in out.values():
        for o in r["obligations"]:
            if o[1] == "proved":
                be[o[2]] = be.get(o[2], 0) + 1
    cver, cused = {}, 0
    for cr in creps:
        for k, v in cr["functions"].items():
            cver.setdefault(k, v)
    cov = {
        "obligations": obl + sum(v["obligations"] for v in cver.values()),
        "discharged": dis + sum(v["discharged"] for v in cver.values()),
        "checker_cmd": "python3-vt check.py %s --tier %s (clang 18 LLVM IR of the current source -> VC generator dv/execu.py -> z3 %s, cvc5 1.1.2 as second back end)" % (job.prop, tier, _z3v()),
        "trusted_base": ["clang 18 front end (templates, overload resolution, -O0 IR with UBSan checks)",
                         "dv/ir.py, dv/execu.py (IR semantics), dv/lower.py (SMT lowering)", "z3 / cvc5 unsat answers"]
        + sorted({x for r in out.values() for x in r.get("trusted", [])}),
        "instances_under_contract": len(out),
        "instances_proved": len(out) - len(bad),
        "by_backend": be,
        "solver_s": round(sum(r["solver_s"] for r in out.values()), 2),
        "callee_contracts_verified": len([v for v in cver.values() if v["ok"]]),
        "callee_contracts_rejected_then_inlined": sorted(k for k, v in cver.items() if not v["ok"])[:20],
        "instances_refused_by_the_compiler": sum(1 for r in out.values() if r.get("refused")),
        "instances_refused_that_the_property_allows_to_be_refused": sum(1 for r in out.values() if r.get("excused")),
        "instances_that_always_report_an_error": len(never),
        "undecided": [r["case"] + ": " + str(r.get("label")) for r in bad if r["status"] in ("unknown", "unsupported")][:20],
        "worker_errors": errors[:3],
        "samples": [{"instance": r["case"], "obligations": [o[0] + " [" + o[2] + "]" for o in r["obligations"][:6]]}
                    for r in list(out.values())[:4]],
    }
    cov.update(extra)
    ev = {"property": job.prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
          "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", job.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    print("%s: %d instances, %d/%d obligations discharged, %d violations, %d known, %.1fs" % (
        job.prop, len(out), cov["discharged"], cov["obligations"], len(viol), len(knownhit), time.time() - t0))
    sys.stdout.flush()
    return 1 if viol else 0


def _z3v():
    import z3
    return z3.get_version_string()


ASSUME = [
    "each theorem is per instance: all argument values are covered, the type/range/policy combinations are the enumerated ones",
    "LP64 x86-64 ABI, two's complement; gcc and clang agree on the meaning of the analysed code (counterexamples are replayed with g++)",
    "libstdc++'s std::system_error(std::error_code, const char*) carries the given code (its constructor is modelled, not verified)",
    "memory allocation for exceptions succeeds",
]
