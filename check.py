#!/opt/veriftools/pyvenv/bin/python3
import argparse, importlib, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, "dv"), os.path.join(here, "props")]
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None, help="regular expression over instance names")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import drive
    mod = importlib.import_module(a.prop.lower())
    job = mod.job(a.tier)
    if a.only:
        import re
        job.cases = [c for c in job.cases if re.search(a.only, c.name)]
    rc = drive.run(job, a.tier, seed)
    if a.tier == "thorough" and not a.only:
        trust(job.prop, seed)
    sys.exit(rc)


def trust(prop, seed):
    """how far the machinery itself can be trusted: goes into the evidence, never into the verdict"""
    import json, subprocess, tempfile
    import selftest
    r = selftest.run([prop], 40, 80, seed)
    ev = os.path.join(here, "evidence", prop + ".json")
    d = json.load(open(ev))
    c = d["coverage"]
    c["selftest"] = {"cases": r["cases"], "runs_compared_with_the_real_code": r["runs"], "lowerings_compared_with_the_evaluator": r["lowerings"],
                     "disagreements": r["bad"][:20]}
    with tempfile.TemporaryDirectory() as tmp:
        f = os.path.join(tmp, "Lemmas.lean")
        try:
            txt = subprocess.run([sys.executable, os.path.join(here, "lean", "gen.py")], capture_output=True, text=True, check=True).stdout
            open(f, "w").write(txt)
            p = subprocess.run(["lean", f], capture_output=True, text=True, timeout=600)
            ok = p.returncode == 0 and "sorry" not in txt + p.stdout and ": error" not in p.stdout
            c["lemma_schemas_proved_in_lean"] = txt.count("\ntheorem ") if ok else "NOT PROVED: " + p.stdout[:500]
        except Exception as e:
            c["lemma_schemas_proved_in_lean"] = "not run: %s" % e
    json.dump(d, open(ev, "w"), indent=1)
    print("selftest %s: %d runs, %d disagreements; lemma schemas: %s" % (prop, r["runs"], len(r["bad"]), c["lemma_schemas_proved_in_lean"]))


main()
