from fw import *
import viewcases
from viewcases import text, num, NONE, BAD, enc

class Edited(Part):
    """Moves, saves, restarts and requests over HTTP of a location editor."""
    name, driver, trace = "edited", "editor", "EditorTrace"
    case_timeout = 120
    mc = [("EditorMC", "EditorMC.cfg")]
    mc_thorough = [("EditorMC", "EditorMC2.cfg")]

    def gen(self, rng):
        cases = []
        for _ in range(48 if self.quick else 1200):
            f, tab, base = viewcases.feed(rng)
            gets, far = [], rng.random() < .5
            for _ in range(14 if self.quick else 30):
                op = rng.choice(["move"] * 6 + ["save"] * 2 + ["get"] * 5 + ["restart"])
                if op == "get":
                    kind = "home"
                    while kind not in (("boundboxstops",) if far else ("neareststops",)) + ( "stopsearch", "tripstoptimes", "tripshape"):
                        g = viewcases.requests(rng, f, base, 1)[0]; kind = g["kind"]
                    gets.append(dict(g, op="get")); continue
                p, q = {}, []
                if op == "move":
                    p["id"] = text(rng.choice(f["stops"])["id"]) if rng.random() < .85 else rng.choice([text("zz"), text(""), NONE])
                    for k, m in (("lat", 90000), ("lng", 180000)):
                        x = rng.random()
                        p[k] = num(rng.choice([m, -m, rng.randrange(2000, m), -rng.randrange(2000, m), rng.randrange(2000, m)])) if x < .35 and far else \
                               num(10 * rng.randrange(12) + (1000 if k == "lat" else -50000)) if x < .82 else \
                               num(rng.choice([m + 1, -m - 1, 2 * m, 400000])) if x < .88 else BAD if x < .95 else NONE
                    for k in p:
                        v = p[k]
                        if v["k"] == "text": q.append(k + "=" + enc(v["t"]))
                        elif v["k"] == "bad": q.append(k + "=" + rng.choice(["x", "", "nan", "NaN", "inf", "-inf", "1e999", "1,5", "--1", "0x10", "%C3%85"]))
                        elif v["k"] == "num": q.append(k + "=" + rng.choice(["%.3f", "%.4f", "%r"]) % (v["n"] / 1000))
                    rng.shuffle(q)
                path = "" if op == "restart" else "/json/" + dict(move="setstoplocation", save="savedata")[op] + ("?" + "&".join(q) if q else "")
                gets.append(dict(op=op, kind=op, p=p, path=path))
            cases.append(dict(feed=f, tables=tab, gets=gets, where="file" if rng.random() < .85 else "dir"))
        return cases

    def nontrivial(self, log):
        return any(e["op"] == "move" and e["o"]["status"] == 200 for e in log["ev"])

PARTS = [Edited]
ASSUMPTIONS = ["coordinates are whole thousandths of a degree", "the feed was written by the library, so that a save has nothing else to change",
               "each save is over before the next request and the disk takes it; a directory is not written over, so a feed loaded from one is not saved"]
