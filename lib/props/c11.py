from fw import *

class Blocks(Part):
    name, driver, trace = "blocks", "blocks", "BlocksTrace"
    mc = [("BlocksMC", "BlocksMC.cfg")]
    mc_thorough = [("BlocksMC", "BlocksMC.cfg"), ("BlocksMC", "BlocksMC2.cfg")]

    def gen(self, rng):
        cases = []
        for i in range(240 if self.quick else 6000):
            base = 9000 + rng.randrange(200)
            per = []
            for k in range(rng.choice([1, 2, 2, 3, 4])):
                s = base + rng.randrange(20)
                e = s + rng.choice([0, 5, 14, 40])
                if rng.random() < .2: s = e = -1
                days = rng.choice([range(7), range(5), [5, 6], [], [rng.randrange(7)], [0, 2, 4], [1, 3]])
                exc = {}
                for _ in range(rng.choice([0, 0, 1, 2])):
                    exc[rng.choice([base + rng.randrange(40), base + rng.randrange(4), s if s > 0 else base, e if e > 0 else base])] = rng.choice([1, 2])
                per.append(dict(name=rng.choice(["a", "m", "z"]), start=s, end=e, dow=[d in days for d in range(7)], exc=sorted(map(list, exc.items()))))
            trips, blocks, cuts = [], rng.choice([["A"], ["A", "B"], ["A", "B", "b 2"]]), [0, 3600]
            for k in range(rng.choice([1, 2, 3, 4, 6, 8])):
                a = rng.choice(cuts + [rng.randrange(0, 90000, 600)])
                n = rng.choice([1, 2, 2, 3, 4])
                st, t = [], a
                for j in range(n):
                    d = t + rng.choice([0, 0, 60, 600])
                    if 0 < j < n - 1 and rng.random() < .4:
                        st.append([-1, -1])
                    else:
                        st.append([t, d])
                        t = d + rng.choice([0, 600, 1800, 3600])
                if rng.random() < .08:
                    q = rng.choice([0, -1])
                    st[q] = rng.choice([[-1, -1], [st[q][0], -1], [-1, st[q][1]]])
                if rng.random() < .04: st = []
                cuts += [x for y in st for x in y if x >= 0]
                trips.append(dict(id="%s%d" % (rng.choice("xya"), k), block=rng.choice(blocks + [""]) if rng.random() < .3 else rng.choice(blocks),
                                  per=rng.randrange(len(per)) + 1 if rng.random() > .06 else 0,
                                  route=rng.random() > .04, rid=rng.choice(["R", "R2"]), st=st))
            rng.shuffle(trips)
            cases.append(dict(per=per, trips=trips))
        return cases

    def nontrivial(self, log):
        return bool(log["ev"][0]["o"]["over"])

PARTS = [Blocks]
ASSUMPTIONS = ["Up to 8 trips, 3 blocks and 4 calendars per feed; trips that end before they start are excluded."]
