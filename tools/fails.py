"""fails.py PROP [seed] [max] [part]: runs the check's cases once and prints every failing event."""
import sys, os, random, tempfile, shutil, json, collections
sys.path.insert(0, "/verif/lib")
import fw, importlib
prop, seed = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 1
mx = int(sys.argv[3]) if len(sys.argv) > 3 else 40
only = sys.argv[4] if len(sys.argv) > 4 else None
m = importlib.import_module("props." + prop.lower())
n = 0
def brief(v):
    """Shortens tagged values {z,t,n}."""
    if isinstance(v, dict):
        if set(v) == {"z", "t", "n"}: return v["t"] if v["z"] == "s" else v["n"] / 1000.0 if v["z"] == "n" else None if v["z"] == "0" else v
        return {k: brief(x) for k, x in v.items()}
    return [brief(x) for x in v] if isinstance(v, list) else v
for P in m.PARTS:
    part = P(True, seed)
    if only and part.name != only: continue
    wd = tempfile.mkdtemp()
    cases, _ = part.spec_cases(wd)
    cases = cases + part.gen(random.Random("%s/%s/%s" % (prop, part.name, seed)))
    for i, c in enumerate(cases): c.setdefault("id", "c%d" % i)
    logs = fw.run_driver(part.driver, cases, wd, case_timeout=part.case_timeout, env=part.env)
    by = {c["id"]: c for c in cases}
    ok = []
    for l in logs:
        if l.get("crash"):
            n += 1
            if n < mx: print("CRASH", l["id"], l["crash"], l.get("tb", "")[-600:])
        else: ok.append(part.post(by[l["id"]], l))
    f, _ = fw.validate(part.trace, part.trace + ".cfg", ok, wd)
    cnt = collections.Counter(v[1][:300] for v in f.values())
    print(part.name, len(ok), "logs", len(f), "failures", dict(cnt))
    for l in ok:
        if l["id"] in f:
            n += 1
            if n < mx:
                e, cl = f[l["id"]]
                ev = l["ev"][e - 1] if e else l["ev"]
                if prop == "C03" and ev["op"] == "end": ev = {"rest": ev["o"]["rest"], "after": ev["o"]["after"]}
                if prop == "C02" and ev["op"] == "end":
                    fs = [f for f in fw.re.findall(r"[a-z_]+\.txt", cl)] or ["x"]
                    ev = {"x": [y["x"] for y in l["ev"][:-1] if y["x"]["f"] in fs], "e": [y for y in ev["o"]["ents"] if y["f"] in fs], "o": {k: v for k, v in ev["o"].items() if k in ("links", "services", "shapes", "zones")}}
                print(l["id"], e, cl, json.dumps(brief(ev), ensure_ascii=False)[:2500])
    shutil.rmtree(wd)
fw.kill_all()
