from fw import *
NONE = dict(k="none", v=0)
def I(n): return dict(k="int", v=n)
TEXT = dict(k="text", v=0)

class Fares(Part):
    name, driver, trace = "fares", "fares", "FaresTrace"
    mc = [("FaresMC", "FaresMC.cfg")]
    mc_thorough = [("FaresMC", "FaresMC2.cfg")]

    def gen(self, rng):
        n = 200 if self.quick else 8000
        return [self.load(rng) for _ in range(n)] + [self.api(rng) for _ in range(n)]

    def num(self, rng, good, bad, texts, api, p=.75, blank=True, neg=True):
        """(text or native value, abstract value)"""
        q = rng.random()
        if blank and q < .2:
            return (rng.choice([None, ""]) if api else ""), NONE
        if q < p: v = rng.choice(good)
        elif q < .95: v = rng.choice(bad)
        else: return rng.choice(texts), TEXT
        if v < 0 and not neg and not api: return str(v), TEXT
        if api and rng.random() < .5 or v < 0 and not neg: return v, I(v)
        return str(v), I(v)

    def fare(self, rng, tag, api):
        row, x = {}, dict(tag=tag)
        x["id"] = row["fare_id"] = rng.choice(["f", "g", "h", "é", "f"]) if rng.random() < .96 else ""
        q = rng.random()
        if q < .7:
            v = rng.choice([0, 1, 250, 399, 100000])
            row["price"], x["price"] = "%d.%02d" % (v // 100, v % 100), dict(k="num", v=v)
            if v % 100 == 0 and rng.random() < .5: row["price"] = str(v // 100)
            if api and rng.random() < .5: row["price"] = v / 100.0
        elif q < .8: row["price"], x["price"] = rng.choice(["-0.01", "-5"]), dict(k="num", v=-1)
        elif q < .9: row["price"], x["price"] = rng.choice(["nan", "inf", "-inf", "NaN", "infinity"]), TEXT
        else: row["price"], x["price"] = rng.choice(["", "x", "1,5", "$3", "1.2.3"] + ([None] if api else [])), TEXT
        q = rng.random()
        row["currency_type"], x["currency"] = rng.choice(["USD", "EUR", "CHF", "JPY"]) if q < .8 else rng.choice(["", "usd", "XXQ", "US", "EURO", "$"]), "ok" if q < .8 else "bad"
        row["payment_method"], x["pay"] = self.num(rng, [0, 1], [2, -1, 10], ["x", "1.0", "zero"], api, blank=False, p=.8)
        if rng.random() < .05: row["payment_method"], x["pay"] = ("", NONE)
        row["transfers"], x["transfers"] = self.num(rng, [0, 1, 2], [3, -1, 100], ["x", "1.5", "two"], api)
        row["transfer_duration"], x["dur"] = self.num(rng, [0, 1, 3600, 86400], [-1, -3600], ["x", "1.5", "1h"], api)
        return dict(op="fare", x=x, row=row)

    def rule(self, rng, tag, api):
        x = dict(tag=tag, fare=rng.choice(["f", "g", "h", "é", "f", "f", "nofare", ""] if rng.random() < .4 else ["f", "g"]),
                 route=rng.choice(["", "r1", "r2", "r3"]), origin=self.zone(rng), dest=self.zone(rng), contains=self.zone(rng))
        row = dict(fare_id=x["fare"], route_id=x["route"], origin_id=x["origin"], destination_id=x["dest"], contains_id=x["contains"])
        if api:
            for k in list(row):
                if row[k] == "" and rng.random() < .5: row[k] = None
        return dict(op="rule", x=x, row=row)

    def zone(self, rng):
        return rng.choice(["", "", "z1", "z2", "0", "Zürich", "z4"])

    def stop(self, rng, i):
        sid = rng.choice(["s%d" % i, "s%d" % i, "s%d" % i, "s%d" % rng.randrange(max(i, 1))])
        p = rng.choice([0, 0, 100, 239, 245, 700, 1990, 2010, 2300, 9950, 10050, 12000, 30000])
        x = dict(id=sid, zone=rng.choice(["", "z1", "z2", "0", "Zürich"]), pos=[1, p] if rng.random() < .93 else [0, 0])
        return dict(op="stop", x=x)

    def transfer(self, rng, tag, api):
        S = ["s0", "s1", "s2", "s3", "s4"]
        x = dict(tag=tag)
        row = {}
        for k, c in (("from", "from_stop_id"), ("to", "to_stop_id")):
            q = rng.random()
            x[k] = rng.choice(S) if q < .92 else "nostop" if q < .97 else ""
            row[c] = x[k] if x[k] or not api else rng.choice(["", None])
        row["transfer_type"], x["type"] = self.num(rng, [0, 1, 2, 2, 2, 2, 3], [4, 10, -1], ["x", "2.0"], api, p=.92, neg=False)
        if rng.random() < .4: row["min_transfer_time"], x["time"] = ("" if not api else None), NONE
        else: row["min_transfer_time"], x["time"] = self.num(rng, [0, 1, 2, 20, 60, 229, 233, 800, 823, 1000, 4850, 4900, 10799], [10800, 86399, 86400, 100000, -1], ["x", "1.5", "2h"], api, p=.8, neg=False)
        return dict(op="add", x=x, row=row)

    def near(self, stops, trans):
        """too close to a limit to be decided"""
        P = {}
        for s in stops:
            P.setdefault(s["x"]["id"], s["x"]["pos"])
        for t in trans:
            a, b = P.get(t["x"]["from"]), P.get(t["x"]["to"])
            if a and b and a[0] and b[0] and t["x"]["time"]["k"] == "int":
                d = abs(a[1] - b[1])
                if abs(2 * (t["x"]["time"]["v"] + 120) - d) < 1: return True
        return False

    def load(self, rng):
        while True:
            c = dict(mode="load", routes=sorted(rng.sample(["r1", "r2"], rng.randrange(0, 3))), stops=[self.stop(rng, i) for i in range(rng.randrange(1, 6))],
                     fares=[self.fare(rng, i, False) for i in range(rng.randrange(0, 5))], rules=[self.rule(rng, i, False) for i in range(rng.randrange(0, 6))],
                     transfers=[self.transfer(rng, i, False) for i in range(rng.randrange(0, 8))])
            if not self.near(c["stops"], c["transfers"]): return c

    def api(self, rng):
        while True:
            steps, trans = [], []
            for i in range(rng.randrange(4, 18)):
                q = rng.random()
                if q < .1: steps.append(dict(op="route", x=rng.choice(["r1", "r2"])))
                elif q < .3: steps.append(self.stop(rng, sum(1 for s in steps if s["op"] == "stop")))
                elif q < .45: steps.append(self.fare(rng, i, True))
                elif q < .65: steps.append(self.rule(rng, i, True))
                elif q < .85 or not trans:
                    t = self.transfer(rng, i, True)
                    trans.append(t)
                    steps.append(t)
                else: steps.append(dict(op="validate", x=rng.choice(trans)["x"]))
            steps += [dict(op="validate", x=t["x"]) for t in trans]
            if not self.near([s for s in steps if s["op"] == "stop"], trans): return dict(mode="api", steps=steps)

PARTS = [Fares]
ASSUMPTIONS = ["Distances within half a per cent of a limit, and numbers beyond 32 bits, are not generated."]
