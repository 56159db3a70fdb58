"""Fills the generated lists of DESIGN.md (kept between markers)."""
import glob, json, os, re
p = "/verif/DESIGN.md"
s = open(p).read()
rows = []
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f)); rows.append("- %s (%s): %s" % (f.split("/")[3], m["property"], m["needs"]))
n = len([l for l in open("/verif/known_findings.txt") if l.startswith("fixed:")])
s = s.replace("@SEEDS@", "<!--seeds-->\n<!--/seeds-->").replace("@NFIXED@", "<!--n-->0<!--/n-->")
s = re.sub("(?s)<!--seeds-->.*?<!--/seeds-->", lambda _: "<!--seeds-->\n" + "\n".join(rows) + "\n<!--/seeds-->", s)
s = re.sub("<!--n-->.*?<!--/n-->", "<!--n-->%d<!--/n-->" % n, s)
open(p, "w").write(s)
