from fw import *
FILES = ["transfers.txt", "feed_info.txt", "shapes.txt", "stops.txt", "calendar.txt", "x.txt", "x.txt", "y.txt", "z.txt"]
CLS = ["Stop", "Transfer", "Loader", "X", "X", "Y"]
VALS = ["A", "B", "Stop", "Trip"]
OPT = ["transfers.txt", "feed_info.txt", "frequencies.txt", "fare_rules.txt"]
KINDS = ['Agency', 'ServicePeriod', 'FareAttribute', 'FareRule', 'Frequency', 'FeedInfo', 'Shape', 'ShapePoint', 'Stop', 'StopTime', 'Route',
         'Transfer', 'Trip', 'Schedule', 'Loader']

# the factory made by the module, by its class, and the one an entity made without a factory uses
NEW = ['module', 'class', 'schedule', 'Trip', 'Trip', 'Route', 'Shape', 'Stop']
class Registry(Part):
    name, driver, trace = "registry", "factory", "FactoryTrace"
    mc = [("FactoryMC", "FactoryMC.cfg")]
    mc_thorough = [("FactoryMC", "FactoryMC2.cfg")]

    def gen(self, rng):
        return [self.one(rng) for _ in range(120 if self.quick else 4000)]

    def mapping(self, rng, full):
        return dict(has=["req", "ord", "cl"] if full else sorted(rng.sample(["req", "ord", "cl"], rng.randrange(0, 4))), req=rng.random() < .5,
                    ord=rng.choice([9999, 0, 5, 10, 30, 30, 35, 35, 100, 200, -3]), cl=rng.choice([["X"], ["X"], ["Stop"], ["X", "Y"], ["Nowhere"]]))

    def one(self, rng):
        ops = [dict(op="new", how=rng.choice(NEW))]
        nf, dicts = 1, {}
        for _ in range(rng.randrange(3, 16)):
            q = rng.random()
            if q < .15 and nf < 4:
                ops.append(dict(op="new", how=rng.choice(NEW))); nf += 1
                continue
            f = rng.randrange(nf) + 1
            n, cn = rng.choice(FILES), rng.choice(CLS)
            if q < .35:
                e = dict(op="addmap", f=f, n=n, m=self.mapping(rng, rng.random() < .85))
                if rng.random() < .5 and len(e["m"]["has"]) == 3:
                    k = "d%d" % rng.randrange(3)
                    if dicts.get(k) == "spoilt": pass
                    else:
                        e["dict"] = k
                        e["m"] = dicts.setdefault(k, e["m"])
                ops.append(e)
            elif q < .5: ops.append(dict(op="updmap", f=f, n=n, m=self.mapping(rng, False)))
            elif q < .58:
                k = "d%d" % rng.randrange(3)
                ops.append(dict(op="dict", f=f, dict=k))
                if k in dicts: dicts[k] = "spoilt"
            elif q < .68: ops.append(dict(op="rmmap", f=f, n=n))
            elif q < .8: ops.append(dict(op="addclass", f=f, n=cn, v=rng.choice(VALS)))
            elif q < .92: ops.append(dict(op="updclass", f=f, n=cn, v=rng.choice(VALS)))
            else: ops.append(dict(op="rmclass", f=f, n=cn))
        return dict(ops=ops)

    def nontrivial(self, log):
        return any(e["o"]["refused"] for e in log["ev"]) and len(log["ev"][-1]["o"]["all"]) > 1

class Use(Part):
    name, driver, trace = "use", "factory", "FactoryUseTrace"

    def gen(self, rng):
        return [self.one(rng) for _ in range(90 if self.quick else 2500)]

    def one(self, rng):
        files = ["agency.txt", "stops.txt", "routes.txt", "trips.txt", "stop_times.txt", "calendar.txt"]
        files += [f for f in OPT + ["shapes.txt", "fare_attributes.txt"] if rng.random() < .7]
        if "fare_attributes.txt" not in files and "fare_rules.txt" in files: files.remove("fare_rules.txt")
        ext = rng.sample(KINDS, rng.choice([0, 1, 3, 6, 10, len(KINDS)]))
        tables, used = [], []
        for n in rng.sample(["a_things.txt", "stop_things.txt", "z.txt"], rng.choice([0, 1, 1, 2, 3])):
            tables.append(dict(n=n, ord=rng.choice([9999, 0, 5, 10, 20, 35, 40, 70, 100, 150]), req=rng.random() < .4, there=rng.random() < .75,
                               rows=["r%d" % rng.randrange(100) + "-%d" % i for i in range(rng.randrange(1, 5))]))
        removed = [f for f in OPT if rng.random() < .2]
        w = dict(ext=ext, cols=[k for k in ("Agency", "Stop", "Route", "Trip") if rng.random() < .5], tables=tables, removed=removed,
                 forced=[f for f in OPT if rng.random() < .3 and f not in removed], files=files,
                 note=[f for f in ("agency.txt", "stops.txt", "routes.txt", "trips.txt") if rng.random() < .4])
        w["old"] = [f for f in ("agency.txt", "stops.txt", "routes.txt", "trips.txt", "stop_times.txt", "shapes.txt", "calendar.txt", "transfers.txt") if f in files and rng.random() < .35]
        w["olds"] = [k for k in ("Agency", "Stop", "Route", "Trip", "StopTime", "Shape", "ServicePeriod", "Transfer") if rng.random() < .6]
        return dict(w=w, how=rng.choice(["loader", "schedule"]), mem=rng.random() < .7, replace=rng.random() < .3, update=rng.random() < .3)

    def nontrivial(self, log):
        return bool(log["w"]["ext"])

PARTS = [Registry, Use]
ASSUMPTIONS = []
