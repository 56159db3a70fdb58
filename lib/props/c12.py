from fw import *
ND = -1000000
MAX = {0: 100, 1: 150, 2: 300, 3: 100, 4: 80, 5: 50, 6: 50, 7: 50}

class StopSeq(Part):
    name, driver, trace = "stopseq", "stopseq", "StopSeqTrace"
    mc = [("StopSeqMC", "StopSeqMC.cfg")]

    def gen(self, rng):
        return [self.one(rng) for _ in range(220 if self.quick else 6000)]

    def one(self, rng):
        n = rng.randrange(2, 9)
        span = rng.choice([300, 3000, 20000, 100000])
        stops = sorted(rng.sample(range(10, span + 100, 3), n))
        types = [rng.choice([3, 3, 1, 1, 0, 2, 4, 5, 6, 7]) for _ in range(rng.choice([1, 2, 2, 3]))]
        shape = []
        if rng.random() < .5:
            d, p = rng.choice([0, 0, 15]), stops[0]
            for k in range(rng.randrange(1, 6)):
                shape.append(dict(p=p + rng.choice([0, 0, 40, -700, 1500]), d=d))
                d += rng.choice([5, 10, 13, 30, 30])
                p += span // 4
            if rng.random() < .1:
                for q in shape: q["d"] = 0
            for q in shape: q["p"] = max(1, q["p"])
        trips = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            trips.append(self.trip(rng, stops, types, shape))
        if rng.random() < .3 and trips:
            t = json.loads(json.dumps(rng.choice(trips)))
            q = rng.random()
            if q < .3: t["service"] = 3 - t["service"]
            elif q < .5 and len(t["rows"]) > 2: t["rows"].pop(1)
            elif q < .6:
                for r in t["rows"]:
                    for k in ("arr", "dep"):
                        if r[k] >= 0: r[k] += 60
            t["route"] = rng.randrange(len(types)) + 1
            trips.append(t)
        # keep clear of the exact limits, where floating point decides
        w = dict(type=types, stops=stops, shape=shape, trips=trips, dup=rng.random() < .5)
        if self.close(w):
            return self.one(rng)
        total = sum(len(t["rows"]) for t in trips)
        order = list(range(total))
        if rng.random() < .5: rng.shuffle(order)
        return dict(w=w, order=order, lon=rng.choice(["-116.5", "0.0", "8"]))

    def trip(self, rng, stops, types, shape):
        route = rng.randrange(len(types)) + 1
        mx = MAX[types[route - 1]]
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10])
        seq = rng.choice([0, 1, 5])
        t = rng.choice([0, 0, 3600, 86000, 90000]) + rng.choice([0, 0, 30])
        d = rng.choice([0, 0, 5, 20])
        withd = rng.random() < .5
        same = rng.random() < .25
        rows = []
        order = list(range(len(stops)))
        if rng.random() < .3: rng.shuffle(order)
        prev = None
        for i in range(n):
            s = order[i % len(order)] if rng.random() < .9 else rng.randrange(len(stops))
            if same and rng.random() < .85:
                a = t
            elif prev is None:
                a = t
            else:
                need = abs(stops[s] - stops[prev]) * 18 / (5.0 * mx)
                a = t + rng.choice([int(need * .9), int(need * 1.1) + 1, int(need * 3) + 60, int(need) + 1, 0, 60, -60 if rng.random() < .3 else 60])
                if rng.random() < .3: a = a // 60 * 60
            a = max(0, a)
            dep = a + (0 if same else rng.choice([0, 0, 0, 20, 60]))
            r = dict(seq=seq, arr=a, dep=dep, stop=s + 1, d=ND, pk=rng.choice([-1, -1, 0, 1]), do=rng.choice([-1, -1, 0, 1]))
            q = rng.random()
            if q < .12: r["arr"] = r["dep"] = -1
            elif q < .15: r["arr"] = -1
            elif q < .18: r["dep"] = -1
            elif q < .21: r["dep"] = max(0, a - 10)
            if withd and rng.random() < .85:
                r["d"] = d if rng.random() < .93 else rng.choice([-5, max(0, d - 20), 0])
                d += rng.choice([0, 5, 10, 10, 12]) if rng.random() < .95 else -5
            if r["arr"] >= 0 or r["dep"] >= 0:
                prev, t = s, max(r["arr"], r["dep"])
            rows.append(r)
            seq += rng.choice([1, 1, 1, 2, 10])
            if rng.random() < .02: seq -= 1
        rows.sort(key=lambda r: r["seq"])
        return dict(route=route, service=rng.choice([1, 1, 2]), shaped=bool(shape) and rng.random() < .8, freq=rng.random() < .15, rows=rows)

    def close(self, w):
        """True if some distance is within a hand's breadth of a limit."""
        for t in w["trips"]:
            mx = MAX[w["type"][t["route"] - 1]]
            R = [r for r in t["rows"] if r["arr"] >= 0 or r["dep"] >= 0]
            for i, a in enumerate(R):
                for b in R[i + 1:]:
                    dist = abs(w["stops"][a["stop"] - 1] - w["stops"][b["stop"] - 1])
                    dt = b["arr"] - a["dep"]
                    if dt == 0 and abs(3 * dist - 50 * mx) == 0: return True
                    if dt > 0 and 18 * dist == 5 * mx * dt: return True
            if w["shape"] and t["shaped"]:
                sh = w["shape"]
                for r in t["rows"]:
                    if r["d"] < 0: continue
                    if r["d"] <= sh[0]["d"]: x = sh[0]["p"]
                    elif r["d"] >= sh[-1]["d"]: x = sh[-1]["p"]
                    else:
                        k = max(k for k in range(len(sh) - 1) if sh[k]["d"] <= r["d"])
                        ca, bc = r["d"] - sh[k]["d"], sh[k + 1]["d"] - r["d"]
                        x = (sh[k + 1]["p"] * ca + sh[k]["p"] * bc) / (ca + bc)
                    if abs(abs(x - w["stops"][r["stop"] - 1]) - 1000) < .01: return True
        return False

    def nontrivial(self, log):
        return any(e["op"] == "trip" and (e["o"]["fast"] or e["o"]["back"] or e["o"]["dist"]) for e in log["ev"])

PARTS = [StopSeq]
ASSUMPTIONS = ["Stops and shapes lie on one meridian, so that distances are exact integers of metres; distances within float error of a limit are not generated."]
