from fw import *

class Shape(Part):
    name, driver, trace = "shape", "shape", "ShapeTrace"
    mc = [("ShapeMC", "ShapeMC.cfg")]
    mc_thorough = [("ShapeMC", "ShapeMC2.cfg")]

    def spec_cases(self, wd):
        n = 15 if self.quick else 400
        st, text = model_check("ShapeMC", "ShapeGen.cfg", wd, workers=1, args=["-simulate", "num=%d" % n, "-depth", "9", "-seed", str(self.seed)])
        rng = random.Random(self.seed)
        return [dict(mode="api", ops=[self.native(rng, o, True) for o in h]) for h in printed_json(text)], [st]

    def queries(self, rng, seen):
        q = {rng.randrange(0, 84) for _ in range(2)} | set(rng.sample(seen, min(2, len(seen)))) | {0}
        return sorted(q)

    def native(self, rng, o, api, bad=""):
        if o["op"] == "clear": return dict(op="clear", at=[0, 5])
        p = o["p"]
        v, odd = {}, 0
        for k, s in (("lat", 1000), ("lon", 1000)):
            x = p[k] / s
            v[k] = x if api else "%.3f" % x
            if p[k] % 1000 == 0 and rng.random() < .5: v[k] = p[k] // 1000 if api else str(p[k] // 1000)
            if api and rng.random() < .2: v[k] = "%.3f" % x
        if p["dist"] == -1: v["dist"] = rng.choice([None, ""]) if api else ""
        else:
            v["dist"] = p["dist"] / 4 if api else "%.2f" % (p["dist"] / 4)
            if p["dist"] % 4 == 0 and rng.random() < .6: v["dist"] = p["dist"] // 4 if api else str(p["dist"] // 4)
            if api and rng.random() < .2: v["dist"] = "%.2f" % (p["dist"] / 4)
        v["seq"] = p["seq"] if api and rng.random() < .8 else str(p["seq"])
        if not bad and rng.random() < .06:
            # unusual spellings are reported and understood
            k = rng.choice(["lat", "dist", "seq"] if o["op"] == "add" else ["lat"])
            if k == "seq": v[k], odd = "0%d" % p["seq"], 1
            elif k == "dist" and p["dist"] != -1: v[k], odd = "%.4fe0" % (p["dist"] / 4), 1
            elif k == "lat": v[k], odd = "%.3fe0" % (p["lat"] / 1000), 1
        if bad:
            col = bad
            if bad == "lat": v["lat"], col = rng.choice(["x", "", "90.5", "-91", "0x20"] + ([None, 90.01] if api else [])), "shape_pt_lat"
            elif bad == "lon": v["lon"], col = rng.choice(["x", "", "180.5", "-181"] + ([None, -180.5] if api else [])), "shape_pt_lon"
            elif bad == "origin":
                v["lat"], v["lon"] = (0.5, -0.9) if api else ("0.5", "-0.9")
                col = "shape_pt_lat"
            elif bad == "dist": v["dist"], col = rng.choice(["x", "-0.5", "-1"] + ([-0.25] if api else [])), "shape_dist_traveled"
            elif bad == "seq": v["seq"], col = rng.choice(["x", "", "-1", "1.5"] + ([-1, -7] if api else [])), "shape_pt_sequence"
            return dict(op=o["op"], p=p, v=v, bad=col, odd=0, at=[])
        return dict(op=o["op"], p=p, v=v, bad="", odd=odd, at=self.queries(rng, [max(0, p["dist"])]))

    def shape(self, rng, n):
        """points in order, with the distances measured, partly or not"""
        how = rng.choice(["all", "all", "all", "all", "all", "some", "some", "none", "wild"])
        seq, d, ps = rng.choice([0, 1, 5]), rng.choice([0, 0, 3]), []
        lat, lon = rng.choice([(47000, 8000), (-33000, 151000), (0, 30000), (60000, -2000), (10000, 179000)])
        for i in range(n):
            dist = d if how in ("all", "some") else -1 if how == "none" else rng.randrange(0, 40)
            if how == "some" and rng.random() < .35: dist = -1
            ps.append(dict(seq=seq, lat=lat, lon=max(-180000, min(180000, lon)), dist=dist))
            seq += rng.choice([1, 1, 2, 10])
            d += rng.choice([0, 1, 2, 4, 4, 7])
            lat += rng.choice([0, 1000, 500, -800, 2000])
            lon += rng.choice([0, 1000, -700, 300])
        q = rng.random()
        if q < .1 and n > 1:   # a sequence number used twice
            i = rng.randrange(n)
            j = rng.randrange(n)
            ps[i]["seq"] = ps[j]["seq"]
        elif q < .18 and n > 1:   # distances that fall back
            i = rng.randrange(n)
            if ps[i]["dist"] != -1: ps[i]["dist"] = rng.randrange(0, 40)
        return ps

    def gen(self, rng):
        n = 260 if self.quick else 8000
        cases = []
        for _ in range(n // 2):
            ps = self.shape(rng, rng.randrange(1, 8))
            if rng.random() < .6: rng.shuffle(ps)
            ops, last = [], 0
            for p in ps:
                op = "add" if rng.random() < .7 else "append"
                bad = rng.choice(["lat", "lon", "origin", "dist"] + (["seq", "shape_id"] if op == "add" else [])) if rng.random() < .08 else ""
                ops.append(self.native(rng, dict(op=op, p=p), True, bad))
                if rng.random() < .06: ops.append(dict(op="clear", at=[0]))
            ops[-1]["at"] = list(range(0, 60, 3)) + sorted({max(0, p["dist"]) for p in ps})
            cases.append(dict(mode="api", ops=ops))
        for _ in range(n // 2):
            ops = []
            for sid in rng.sample(["a", "b", "é 1", "0"], rng.randrange(1, 4)):
                for p in self.shape(rng, rng.randrange(1, 7)):
                    bad = rng.choice(["lat", "lon", "origin", "dist", "seq"]) if rng.random() < .08 else ""
                    o = self.native(rng, dict(op="add", p=p), False, bad)
                    o["id"] = sid
                    ops.append(o)
            if rng.random() < .7: rng.shuffle(ops)
            cases.append(dict(mode="load", ops=ops, used=rng.sample(["a", "b", "0"], rng.randrange(0, 3)), at=sorted(rng.sample(range(60), 8))))
        return cases

    def nontrivial(self, log):
        return any(e["op"] == "at" and e["o"]["found"] for e in log["ev"])

PARTS = [Shape]
ASSUMPTIONS = ["Coordinates are multiples of 0.001 degree, distances multiples of a quarter; located points are compared to 0.001 degree.",
               "Among points with the same sequence number (reported) any order is accepted; no point is demanded where measured distances fall back (reported)."]
