from fw import *
MARKS = ["", "", "", "0", "1", "2", "odd"]

class Unusual(Part):
    name, driver, trace = "unusual", "unusual", "UnusualTrace"
    mc = [("UnusualMC", "UnusualMC.cfg")]
    mc_thorough = [("UnusualMC", "UnusualMC2.cfg")]

    def gen(self, rng):
        return [self.one(rng) for _ in range(160 if self.quick else 4000)]

    def pattern(self, rng, pats):
        if not pats or rng.random() < .25:
            pats.append([rng.randrange(1, 6) for _ in range(rng.choice([1, 2, 2, 3, 4]))])
            if rng.random() < .3 and len(pats) > 1:     # like another, but for one stop or the order
                p = list(pats[-2])
                if rng.random() < .5: p.reverse()
                else: p.append(rng.randrange(1, 6))
                pats[-1] = p
            return pats[-1]
        return pats[0] if rng.random() < .6 else rng.choice(pats)

    def one(self, rng):
        nr = rng.randrange(1, 4)
        types = [rng.choice([0, 1, 2, 3, 3, 3, 4, 5, 6, 7]) for _ in range(nr)]
        column = rng.random() < .6
        trips, pats = [], []
        total = rng.choice([1, 3, 6, 10, 10, 20, 25])
        for _ in range(total):
            trips.append(dict(route=rng.randrange(nr) + 1, stops=list(self.pattern(rng, pats)), mark=rng.choice(MARKS) if column else ""))
        ops = []
        stops = [list(t["stops"]) for t in trips]
        route = [t["route"] for t in trips]
        for _ in range(rng.choice([1, 2, 3, 5])):
            q = rng.random()
            if q < .15 and trips:
                ops.append(dict(op="mark", trip=rng.randrange(len(stops)) + 1, mark=rng.choice(MARKS)))
            elif q < .25:
                t = dict(route=rng.randrange(nr) + 1, stops=list(self.pattern(rng, pats)), mark=rng.choice(MARKS))
                stops.append(list(t["stops"])); route.append(t["route"])
                ops.append(dict(op="add", t=t))
            elif q < .32:
                j = rng.randrange(len(stops))
                x = rng.randrange(1, 6)
                stops[j].append(x)
                ops.append(dict(op="visit", trip=j + 1, stop=x))
            else:
                # a threshold on or near a share that occurs
                r = rng.choice(route)
                of = [s for s, k in zip(stops, route) if k == r]
                num, den = sum(1 for s in of if s == rng.choice(of)), len(of)
                k = rng.random()
                if k < .25: num, den = rng.choice([(1, 10), (1, 2), (0, 1), (1, 1), (2, 1), (1, 3), (1, 5)])
                elif k < .6: num, den = num * 100 + rng.choice([-1, 1]), den * 100
                e = dict(op="main" if rng.random() < .35 else "filter", num=max(0, num), den=den, force=rng.random() < .45, type=-1,
                         how=rng.choice(["int", "text", "name"]), quiet=rng.random() < .5, out=rng.random() < .5)
                if rng.random() < .45: e["type"] = rng.choice(types + [rng.randrange(8)])
                ops.append(e)
                if rng.random() < .3: ops.append(dict(e))
        return dict(w=dict(types=types, trips=trips), ops=ops, column=column, mem=rng.random() < .7, uni=rng.random() < .4)

    def nontrivial(self, log):
        return any("1" in e["o"]["marks"] for e in log["ev"])

PARTS = [Unusual]
ASSUMPTIONS = ["Thresholds are rationals with small denominators, so that the float comparison decides as exact arithmetic does."]
