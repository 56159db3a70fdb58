from fw import *
import base64
from urllib.parse import unquote

EXTS = ["css", "js", "png", "html", "txt", "vbs", "gif"]

class Paths(Part):
    """Request paths of any spelling to a directory with secrets around it."""
    name, driver, trace = "paths", "files", "FilesTrace"
    mc = [("FilesMC", "FilesMC.cfg")]
    mc_thorough = [("FilesMC", "FilesMC2.cfg")]
    case_timeout = 120

    def gen(self, rng):
        cases = []
        for _ in range(60 if self.quick else 1200):
            tree, n = [], [0]
            def add(path, secret=False):
                n[0] += 1
                b = b"%d" % n[0] + rng.choice([b"", b"\r\n", b"\n\n", b"\x00\xff\x80", b"x" * 5000, "é".encode(), b"\r", b"\x1a"]) * rng.choice([1, 2]) + (b"SECRET" if secret else b"")
                tree.append(dict(path=path, dir=False, b64=base64.b64encode(b).decode()))
            def mkdir(path): tree.append(dict(path=path, dir=True, b64=""))
            names = ["style.css", "index.html"] + rng.sample(["a.png", "b-1_x.js", "x.txt", "9.gif", "svgcheck.vbs", "a.b.css", "Up.css", ".hid.css", "noext", "z.unknown", "y.css~",
                                                              "a" * 64 + ".css", "b" * 65 + ".css", "deep.js", "é.css", "x y.css", "k.CSS", "..a.css", "-.txt", "_.png"], 8)
            for x in names: add(["served", x])
            mkdir(["served", "deep"]); add(["served", "deep", "in.css"], True); add(["served", "deep", "style.css"], True)
            mkdir(["served", "dir.css"])
            add(["secret.txt"], True); add(["style.txt"], True)
            mkdir(["served2"]); add(["served2", "secret.css"], True); add(["served2", "style.css"], True)
            words = names + ["deep", "dir.css", "secret.txt", "style.txt", "served2", "secret.css", "served", "etc", "passwd", "nosuch.css", "in.css"]
            gets = []
            for k in range(36 if self.quick else 80):
                q = rng.random()
                if k % 2:                # plainly spelled walks through existing directories
                    walk = [rng.choice(["deep", "..", "..", ".", "dir.css", "served2"]) for _ in range(rng.choice([0, 1, 2, 2, 3, 3, 4]))]
                    p = "/" + "/".join(["file"] + walk + [rng.choice(["secret.txt", "style.txt", "style.css", "secret.css", "in.css", "index.html"])])
                    gets.append(dict(path=p, segs=p.split("/")[1:], raw=True))
                    continue
                if q < .35: segs = ["file", rng.choice(names)]
                elif q < .5: segs = ["file"] + [rng.choice(["..", ".", "", "deep", "served2", "..", "dir.css"]) for _ in range(rng.choice([1, 1, 2, 3]))] + [rng.choice(words)]
                elif q < .6: segs = [rng.choice(["", ".", "..", "file", "nosuch", "file", "served"]) for _ in range(rng.choice([1, 2, 3]))] + [rng.choice(words)]
                elif q < .7: segs = ["file"] + ["..", rng.choice(["secret.txt", "style.txt", "served2/style.css", "served/style.css", "file/style.css"])]
                elif q < .75: segs = ["file", "", "etc", "passwd"]
                else: segs = ["file", rng.choice(words)]
                sep = [rng.choice(["/"] * 12 + ["%2f", "%2F", "//", "\\", "%5c"]) for _ in segs]
                p = ""
                for i, w in enumerate(segs):
                    q = rng.random()
                    if q < .06: w = "".join("%%%02x" % b for b in w.encode())
                    elif q < .12 and w: k = rng.randrange(len(w)); w = w[:k] + "".join("%%%02X" % b for b in w[k].encode()) + w[k + 1:]
                    elif q < .16: w = w.upper()
                    elif q < .19: w += rng.choice(["%00", ".", "/", "%20", "/.", "/..", "%0a", "~", "%"])
                    p += ("/" if i == 0 else sep[i]) + w
                p = p.replace(" ", "%20")
                if p.startswith("//"): p = "/" + p.lstrip("/")
                tail = rng.choice([""] * 8 + ["?", "?x=1", "#a", "?a/../b", "?file=../secret.txt"])
                path = p + tail
                dec = unquote(p).split("/")[1:]
                if p == "/" or any(unquote(p).startswith("/" + x) for x in ("json", "ttablegraph")): continue
                gets.append(dict(path=path, segs=dec, raw=p == "/" + "/".join(dec)))
            cases.append(dict(tree=tree, files=names, gets=gets))
        return cases

    def nontrivial(self, log):
        return any(e["o"]["status"] == 200 for e in log["ev"])

PARTS = [Paths]
ASSUMPTIONS = ["the served directory holds no symbolic links", "files whose names are not made of lower-case letters, digits, _ and - with one dot, or whose type is unknown, need not be served"]
