"""failjson.py PROP PART OUT [seed]: runs the part's cases and writes [case, log, event number, clauses] of the failing ones."""
import sys, random, tempfile, json, importlib, shutil
sys.path.insert(0, "/verif/lib")
import fw
prop, only, out = sys.argv[1:4]
seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
for P in importlib.import_module("props." + prop.lower()).PARTS:
    part = P(True, seed)
    if part.name != only: continue
    wd = tempfile.mkdtemp()
    cases, _ = part.spec_cases(wd)
    cases = cases + part.gen(random.Random("%s/%s/%s" % (prop, part.name, seed)))
    for i, c in enumerate(cases): c.setdefault("id", "c%d" % i)
    logs = fw.run_driver(part.driver, cases, wd, case_timeout=part.case_timeout, env=part.env)
    by = {c["id"]: c for c in cases}
    crash = [l for l in logs if l.get("crash")]
    ok = [part.post(by[l["id"]], l) for l in logs if not l.get("crash")]
    f, _ = fw.validate(part.trace, part.trace + ".cfg", ok, wd)
    res = [[by[l["id"]], l, f[l["id"]][0], f[l["id"]][1]] for l in ok if l["id"] in f]
    json.dump(dict(fails=res, crash=crash, n=len(logs)), open(out, "w"))
    print(len(logs), "logs", len(res), "failures", len(crash), "crashes")
    for l in crash[:5]: print(l["id"], l["crash"], l.get("tb", "")[-500:])
    import collections
    for k, n in collections.Counter(r[3] for r in res).most_common(12): print(n, k[:300])
    shutil.rmtree(wd)
