from fw import *

class Search(Part):
    name, driver, trace = "search", "graph", "GraphTrace"
    mc = [("GraphMC", "GraphMC.cfg")]
    mc_thorough = [("GraphMC", "GraphMC2.cfg")]

    def gen(self, rng):
        return [self.one(rng) for _ in range(130 if self.quick else 4000)]

    def one(self, rng):
        n = rng.choice([2, 3, 4, 5, 6, 8])
        nodes = rng.sample(range(-20000, 20000, rng.choice([1, 100])), n)
        far = rng.random() < .7
        ops = []
        for k in range(rng.randrange(1, 3 * n)):
            a, b = rng.choice(nodes), rng.choice(nodes)
            if rng.random() < .2 and n > 3:      # two components
                h = n // 2
                a, b = rng.choice([(rng.choice(nodes[:h]), rng.choice(nodes[:h])), (rng.choice(nodes[h:]), rng.choice(nodes[h:]))])
            pts = [a]
            for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
                pts.append(rng.randrange(-40000, 40000) if far else (a + b) // 2)
            pts.append(b)
            if len(pts) == 2 and a == b: continue
            ops.append(dict(op="add", k=0, name="p%d" % k, pts=pts))
        used = sorted({p for o in ops for p in (o["pts"][0], o["pts"][-1])})
        if not used: return self.one(rng)
        for _ in range(rng.randrange(2, 7)):
            q = rng.random()
            if q < .6: ops.append(dict(op="path", s=rng.choice(used), g=rng.choice(used)))
            elif q < .9:
                r = rng.choice([120, 2000, 9000])
                pts = [rng.choice(used) + rng.choice([0, 7, -50, rng.randrange(-r, r)]) for _ in range(rng.choice([2, 2, 3, 3, 4]))]
                if any(abs(abs(p - v) - r) < 2 for p in pts for v in used): continue
                ops.append(dict(op="multi", pts=pts, r=r, n=rng.choice([1, 1, 2, 3, 10]), v=rng.choice([0, 0, 3])))
            else:
                a, b, r = rng.choice(used), rng.choice(used), rng.choice([1, 150, 5000])
                a += rng.choice([0, 3, -70])
                if any(abs(abs(p - v) - r) < 2 for p in (a, b) for v in used): continue
                ops.append(dict(op="match", s=a, g=b, r=r))
        return dict(ops=ops, graph=True, adds=rng.random() < .5, line=rng.choice(["meridian", "equator", "date", "inclined"]))

    def nontrivial(self, log):
        return any(e["op"] == "path" and len(e["o"]["names"]) > 1 for e in log["ev"])

def straight(rng, lo, hi, n):
    q = sorted(rng.sample(range(lo, hi), n))
    return q if rng.random() < .5 else q[::-1]

class Polys(Part):
    name, driver, trace = "polys", "graph", "GraphTrace"

    def gen(self, rng):
        return [self.one(rng) for _ in range(120 if self.quick else 3000)]

    def one(self, rng):
        ops, polys = [], []
        names = ["a", "b", "a-1", "a-2", "b-2", "a-3", "b-3"]
        rng.shuffle(names)
        for nm in names[:rng.randrange(1, 6)]:
            polys.append((nm, straight(rng, -3000, 3000, rng.choice([2, 3, 5]))))
        for _ in range(rng.randrange(0, 4)):
            nm, q = rng.choice(polys)
            if "-" in nm: continue
            x = rng.random()
            if x < .3: q = [p + rng.choice([0, 3, -5]) for p in q]
            elif x < .5: q = [p + 60 for p in q]
            elif x < .6: q = q[::-1]
            else: q = straight(rng, -3000, 3000, rng.choice([2, 3]))
            if q != sorted(q) and q != sorted(q)[::-1]: continue
            polys.append((nm, q))
        ends = []
        for nm, q in polys:
            ops.append(dict(op="add", k=0, name=nm, pts=q))
            ends.append((q[0], q[-1]))
            for a, b in rng.sample(ends, min(2, len(ends))):
                r = rng.choice([1, 20, 150, 1000])
                a += rng.choice([0, 2, -15, 100])
                if any(abs(abs(a - v[0]) - r) < 2 or abs(abs(b - v[1]) - r) < 2 for v in ends): continue
                ops.append(dict(op="match", s=a, g=b, r=r))
        for _ in range(rng.randrange(1, 5)):
            z = rng.random()
            pts = [rng.randrange(-9000, 9000) for _ in range(rng.choice([1, 2, 3, 6]))]
            if z < .4: ops.append(dict(op="closest", pts=pts, x=rng.choice([rng.randrange(-12000, 12000), rng.choice(pts)])))
            elif z < .7:
                shape = straight(rng, -3000, 3000, rng.choice([2, 4]))
                ops.append(dict(op="greedy", pts=[rng.randrange(-3500, 3500) for _ in range(rng.randrange(1, 5))], shape=shape))
            else:
                qs = [straight(rng, -500, 500, rng.choice([1, 2, 4])) if rng.random() < .9 else [] for _ in range(rng.randrange(0, 4))]
                for i in range(1, len(qs)):
                    if qs[i] and qs[i - 1] and rng.random() < .7: qs[i][0] = qs[i - 1][-1] + rng.choice([0, 0, 1, 9, 10, 11, -10, -11])
                ns = [rng.choice(["x", "y", ""]) for _ in qs]
                ops.append(dict(op="merge", polys=qs, names=ns, t=rng.choice([0, 10]), wantname=";".join(ns)))
        return dict(ops=ops, graph=rng.random() < .3, adds=rng.random() < .5, line=rng.choice(["meridian", "equator", "date", "inclined"]))

PARTS = [Search, Polys]
ASSUMPTIONS = ["All points lie on one great circle, in whole metres, so that lengths are exact integers; polylines may run back and forth on it."]
