"""from fix import fix: fix(path, [(old, new)], message) edits /repo and commits "fix: message"."""
import os, subprocess
REPO = os.environ.get("VERIF_REPO", "/repo")
def fix(path, edits, msg):
    p = REPO + "/" + path
    s = open(p, newline="").read()
    for old, new in edits:
        assert s.count(old) == 1, (s.count(old), old)
        s = s.replace(old, new)
    open(p, "w", newline="").write(s)
    subprocess.check_call(["git", "commit", "-qam", "fix: " + msg], cwd=REPO)
    print(subprocess.check_output(["git", "log", "--oneline", "-1"], cwd=REPO).decode().strip())
