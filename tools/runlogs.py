"""runlogs.py PROP PART OUT [seed]: the raw logs of a part's cases as a JSON list."""
import sys, random, tempfile, json, importlib, shutil
sys.path.insert(0, "/verif/lib")
import fw
prop, only, out = sys.argv[1:4]
seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
for P in importlib.import_module("props." + prop.lower()).PARTS:
    part = P(True, seed)
    if part.name != only: continue
    wd = tempfile.mkdtemp()
    cases, _ = part.spec_cases(wd)
    cases = cases + part.gen(random.Random("%s/%s/%s" % (prop, part.name, seed)))
    for i, c in enumerate(cases): c.setdefault("id", "c%d" % i)
    json.dump(fw.run_driver(part.driver, cases, wd, case_timeout=part.case_timeout, env=part.env), open(out, "w"))
    shutil.rmtree(wd)
