from fw import *

class Service(Part):
    name, driver, trace = "service", "service", "ServiceTrace"
    mc = [("ServiceMC", "ServiceMC.cfg")]
    mc_thorough = [("ServiceMC", "ServiceMC2.cfg")]

    def gen(self, rng):
        cases = []
        for i in range(200 if self.quick else 3500):
            # day numbers from 2000-01-01; DST changes, leap days, year ends
            base = rng.choice([59, 366, 1520, 3650, 9131, 9560, 9800, rng.randrange(100, 20000)])
            w = rng.choice([8, 20, 60, 200, 420])
            D = lambda: base + rng.randrange(w)
            per = []
            busy = rng.random() < .35       # several calendars that run together
            for k in range(rng.choice([2, 3, 4]) if busy else rng.choice([0, 1, 1, 2, 3])):
                q = rng.random()
                s, e = sorted([D(), D()])
                if q < .15: s, e = -1, -1
                elif q < .25: s, e = rng.choice([(s, -1), (-1, e)])
                elif q < .3: s, e = e, s
                if busy: s, e = base + rng.randrange(3), base + w
                dow = [True] * 7 if busy and rng.random() < .6 else rng.choice([[True] * 7, [False] * 7, [True] * 5 + [False] * 2, [rng.random() < .4 for _ in range(7)]])
                exc = {}
                for _ in range(rng.choice([0, 0, 1, 2, 5])):
                    d = rng.choice([D(), D(), max(s, base), max(e, base), base])
                    exc[d] = rng.choice([1, 2])
                per.append(dict(name=rng.choice(["A", "Z", "M"]), start=s, end=e, dow=dow, exc=sorted(map(list, exc.items()))))
            trips = [dict(per=rng.randrange(len(per)) + 1, stops=rng.randrange(2, 5), runs=rng.choice([0, 0, 0, 1, 2, 5]))
                     for _ in range(rng.choice([3, 4, 6, 8] if busy else [0, 1, 2, 4]))] if per else []
            info = dict(start=-1, end=-1)
            q = rng.random()
            if q < .15: info["start"], info["end"] = sorted([D(), D()])
            elif q < .22: info["start"] = D()
            elif q < .29: info["end"] = D()
            elif q < .34: info["empty"] = True
            f = rng.choice([base - 2, D()])
            qs = [{"op": "dates", "from": f, "to": f + rng.choice([0, 1, 20, 35])}]
            ends = [p["end"] for p in per if p["end"] > 0] + [info["end"]] * (info["end"] > 0) + [base + w]
            starts = [p["start"] for p in per if p["start"] > 0] + [info["start"]] * (info["start"] > 0) + [base]
            for _ in range(2):
                q = rng.random()
                t = (rng.choice(ends) - rng.choice([59, 60, 61]) if q < .3 else rng.choice(starts) + rng.choice([-1, 0, 1, 3, 12]) if q < .6
                     else D() if q < .9 else base - rng.choice([370, 365, 364, 350]))
                qs.append({"op": "check", "today": max(1, t), "gap": rng.choice([1, 2, 3, 7, 13, 13, 0])})
            cases.append(dict(per=per, trips=trips, info=info, queries=qs))
        return cases

    def nontrivial(self, log):
        return any(e["op"] == "check" and (e["o"]["gaps"] or e["o"]["expires"]) for e in log["ev"])

PARTS = [Service]
ASSUMPTIONS = ["Feeds of up to 4 calendars and 8 trips, spans of up to 420 days."]
