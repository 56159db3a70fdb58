"""mkseed.py SPEC.py...: SPEC defines id, prop, needs, breaks, edits [(file, old, new)], demo (python
text run by jython in /repo; exit 0 unchanged).  Writes seeded/<id>/."""
import json, os, subprocess, sys, tempfile, shutil
def make(id, prop, needs, breaks, edits, demo):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.check_call(["git", "clone", "-q", os.environ.get("SEED_REPO", "/repo"), w + "/r"])
    for f, old, new in edits:
        p = w + "/r/" + f
        s = open(p, newline="").read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, "w", newline="").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "diff"], cwd=w + "/r").decode()
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write("import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\nimport transitfeed\n" + demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport LANG=C.UTF-8 TZ=UTC\nunset PYTHONPATH JYTHONPATH\nexec /opt/jy/bin/jython "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
if __name__ == "__main__":
    for f in sys.argv[1:]:
        exec(open(f).read())
