from fw import *

def V(k, v=0, **kw):
    return dict(k=k, v=v, **kw)

def rows0(rng):
    n = rng.randrange(2, 5)
    t = rng.choice([0, 0, 3600, rng.randrange(0, 90000)])
    rows, seq = [], 0
    for i in range(n):
        seq += rng.choice([1, 1, 5])
        if 0 < i < n - 1 and rng.random() < .5:
            rows.append(dict(arr=-1, dep=-1, stop="ABCD"[i], seq=seq, pk=rng.choice([0, 1, 2])))
        else:
            d = t + rng.choice([0, 0, 30])
            rows.append(dict(arr=t, dep=d, stop="ABCD"[i], seq=seq, pk=rng.choice([0, 1, 3])))
            t = d + rng.randrange(300, 2000)
    return rows

class Freq(Part):
    name, driver, trace = "freq", "freq", "FreqTrace"
    mc = [("FreqMC", "FreqMC.cfg")]
    mc_thorough = [("FreqMC", "FreqMC2.cfg")]

    def spec_cases(self, wd):
        n = 10 if self.quick else 200
        st, text = model_check("FreqMC", "FreqGen.cfg", wd, workers=1, args=["-simulate", "num=%d" % n, "-depth", "8", "-seed", str(self.seed)])
        rng = random.Random(self.seed)
        return [dict(ops=h, rows=[], rows0=rows0(rng)) for h in printed_json(text)], [st]

    def gen(self, rng):
        cases = []

        def time(lo, hi):
            t = rng.randrange(lo // 60, hi // 60) * 60
            return V(rng.choice(["int", "text"]), t if rng.random() < .8 else t + rng.randrange(60))

        def a(row, base):
            s = time(base, base + 7200)
            h = rng.choice([60, 300, 600, 601, 1000, 3600, 7200])
            if rng.random() < .5:
                # the end on, just before or just after a step
                e = V(rng.choice(["int", "text"]), max(0, s["v"] + rng.randrange(0, min(12, 9000 // h) + 1) * h + rng.choice([0, 0, -1, 1])))
            else:
                e = time(max(0, base - 600), base + 9000)
            x = dict(start=s, end=e, head=V(rng.choice(["int", "text"]), h), exact=rng.choice([V("none"), V("int", 0), V("int", 1)]))
            q = rng.random()
            if q < .25:
                f = rng.choice(["start", "end", "head", "exact"])
                bad = [V("none"), V("bad", t=rng.choice(["x", "12:60:00", "1:2:3", "10:00", "-1:00:00", "10:00:60", "1e3"]))]
                if f == "head":
                    bad = [V("none"), V("bad", t=rng.choice(["x", "1.5", "1e3"])), V("int", 0), V("int", -60), V("text", 0), V("text", -5)]
                if f == "exact":
                    bad = [V("int", 2), V("int", 7)] + ([V("bad", t="yes")] if row else [])
                if f == "end" and not row:
                    bad.append(V("int", -1))
                x[f] = rng.choice(bad)
                if row and x[f]["k"] == "int":
                    x[f] = V("text", x[f]["v"])
            if row:
                for f in x:
                    if x[f]["k"] == "int": x[f] = V("text", x[f]["v"])
            return x
        for i in range(250 if self.quick else 5000):
            base = rng.choice([0, 0, 21600, 82800])
            rows = [a(True, base + 3600 * rng.randrange(3)) for _ in range(rng.choice([0, 1, 2, 4]))]
            ops = []
            for j in range(rng.randrange(0, 6)):
                if rng.random() < .1:
                    ops.append(dict(op="clear"))
                else:
                    ops.append(dict(op="add", a=a(False, base + 3600 * rng.randrange(3)), how=rng.choice(["call", "call", "object", "oldobject", "old"])))
            cases.append(dict(rows=rows, ops=ops, rows0=rows0(rng)))
        return cases

    def nontrivial(self, log):
        return any(len(e["o"]["starts"]) > 1 for e in log["ev"])

PARTS = [Freq]
ASSUMPTIONS = []
