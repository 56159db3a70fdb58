from fw import *
IDS = ["", "0", "1", "2", "3", "a", "é", "1000000"]

class Registry(Part):
    name, driver, trace = "registry", "registry", "RegistryTrace"
    mc = [("RegistryMC", "RegistryMC.cfg")]
    mc_thorough = [("RegistryMC", "RegistryMC2.cfg")]

    def gen(self, rng):
        return [self.one(rng) for _ in range(300 if self.quick else 10000)]

    def one(self, rng):
        ops, n = [], rng.randrange(5, 22)
        pool = rng.sample(IDS[1:], 4)
        kinds = rng.choice([["agency", "route", "trip", "service"], ["stop", "agency", "route"], ["agency", "service", "stop", "route", "trip", "shape", "fare"],
                            ["route", "trip"], ["stop", "shape", "fare"], ["agency", "service"]])
        blank = rng.random() < .3
        ids = pool + ([""] if blank else [])
        for t in range(n):
            k = rng.choice(kinds)
            if ops and rng.random() < .3: k = ops[-1]["x"]["kind"]
            x = dict(kind=k, id=rng.choice(ids), tag=t, ref="", service="", cols=[])
            if k not in ("agency", "stop") and x["id"] == "": x["id"] = pool[0]
            q = rng.random()
            op = dict(op="add", x=x, auto=False, needs=[], extra=rng.sample(["x_one", "x_two", "x_three"], rng.choice([0, 0, 1, 2])))
            if k == "route": x["ref"] = rng.choice(ids + [""])
            if k == "trip":
                x["ref"] = rng.choice(pool + [""] if q < .5 else pool)
                x["service"] = rng.choice(pool + [""])
                op["validate"] = rng.random() < .6
            if q < .15 and ops: op["reuse"] = rng.randrange(t)
            elif q < .6 and k in ("agency", "stop", "route", "trip"):
                op.update(op="make", extra=[], validate=False)
                x["ref"] = x["ref"] if k == "trip" else ""
                op["auto"] = rng.random() < .6 and k != "agency"
                if k == "route": op["needs"] = ["agency"]
                if k == "trip":
                    if not x["ref"]: x["ref"] = pool[0]
                    if rng.random() < .5: x["service"] = ""
                    if not x["service"]: op["needs"] = ["service"]
            elif q < .8 and k in ("agency", "service"):
                o = rng.choice(["default", "default", "new", "set"])
                op.update(op=o, extra=[])
                if o == "default": op["needs"] = [k]
                if o == "new": op["auto"] = k == "service" or rng.random() < .6
                if o == "set" or (o == "new" and not op["auto"]):
                    x["id"] = x["id"] or pool[0]
                    # a second object under an id in use has no defined place
                    if o != "new" and rng.random() < .7: x["id"] = rng.choice(["d1", "d2", "0"])
            ops.append(op)
        return dict(ops=ops, ids=sorted(set(ids + ["d1", "d2", "0", "1", "2", "zz"])))

    def nontrivial(self, log):
        return any(e["o"]["rep"] for e in log["ev"])

PARTS = [Registry]
ASSUMPTIONS = ["An empty id stands for a missing one."]
