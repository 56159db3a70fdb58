from fw import *

def rand_x(rng):
    if rng.random() < .5:
        return ""
    return "|".join([rng.choice(["", "Head", "Zürich, \"B\""]), rng.choice(["", "0", "1", "2", "3"]),
                     rng.choice(["", "0", "2", "3"]), rng.choice(["", "0", "1.5", "20"]), rng.choice(["", "0", "1"])]).replace("||||", "||||")

def norm(x):
    return "" if x == "||||" else x

class Store(Part):
    name, driver, trace = "tripstore", "tripstore", "TripStoreTrace"
    mc = [("TripStoreMC", "TripStoreMC.cfg")]
    mc_thorough = [("TripStoreMC", "TripStoreMC.cfg"), ("TripStoreMC", "TripStoreMC2.cfg")]

    def spec_cases(self, wd):
        n = 2 if self.quick else 40
        st, text = model_check("TripStoreMC", "TripStoreGen.cfg", wd, workers=1,
                               args=["-simulate", "num=%d" % n, "-depth", "11", "-seed", str(self.seed)])
        return [dict(trips=["t1", "t2", "t3"], ops=h, mem=bool(i % 2), load=False) for i, h in enumerate(printed_json(text))], [st]

    def gen(self, rng):
        return [self.one(rng) for i in range(200 if self.quick else 5000)]

    def one(self, rng):
        trips = ["t%d" % i for i in range(1, rng.randrange(2, 5))]
        stops = "ABCDE"[:rng.randrange(2, 6)]
        rows = {t: [] for t in trips}
        load = rng.random() < .5
        init = {}

        def mk(prev):
            if rng.random() < .3:
                a = d = -1
            else:
                a = rng.choice([prev, prev + rng.randrange(0, 4000), rng.randrange(0, 100000)])
                d = a + rng.choice([0, 0, 60, rng.randrange(0, 600)])
            return a, d
        if load:
            for t in trips:
                seqs = rng.sample(range(0, 40), rng.randrange(0, 6))
                seqs.sort()
                cur = 0
                for k, q in enumerate(seqs):
                    a, d = mk(cur)
                    if k in (0, len(seqs) - 1) and a < 0 and rng.random() < .8:
                        a = d = cur
                    if a >= 0 and a < cur:
                        a, d = cur, cur + max(0, d - a)
                    cur = max(cur, d)
                    x = norm(rand_x(rng))
                    rows[t].append(dict(seq=q, stop=rng.choice(stops), arr=a, dep=d, x=x))
            init = {t: list(rows[t]) for t in trips}
        ops = []
        for j in range(rng.randrange(3, 12)):
            t = rng.choice(trips)
            k = rng.random()
            if k < .7 or not rows[t]:
                last = max([r["dep"] for r in rows[t]] + [0])
                a, d = mk(last if rng.random() < .7 else 0)
                seq = rows[t][-1]["seq"] + 1 if rows[t] else 1
                r = dict(seq=seq, stop=rng.choice(stops), arr=a, dep=d, x=norm(rand_x(rng)))
                rows[t].append(r)
                ops.append(dict(op="add", t=t, r=r, obj=rng.random() < .5, how=rng.choice(["secs", "text", "single"])))
            elif k < .9:
                i = rng.randrange(len(rows[t]))
                a, d = mk(0)
                r = dict(rows[t][i], arr=a, dep=d, x=norm(rand_x(rng)))
                rows[t][i] = r
                ops.append(dict(op="replace", t=t, r=r))
            else:
                rows[t] = []
                ops.append(dict(op="clear", t=t))
        n = sum(len(v) for v in init.values())
        order = list(range(n))
        rng.shuffle(order)
        return dict(trips=trips, init=init, ops=ops, mem=rng.random() < .5, load=load, order=order)

PARTS = [Store]
ASSUMPTIONS = ["Replacement of a stop time that does not exist is not exercised: the database driver of this environment reports no row counts."]
