from fw import *
import feedgen, importlib
c01 = importlib.import_module("props.c01")

KEYS = {"calendar_dates.txt": ("service_id", "date"), "stop_times.txt": ("trip_id", "stop_sequence"), "shapes.txt": ("shape_id", "shape_pt_sequence"),
        "transfers.txt": ("from_stop_id", "to_stop_id"), "feed_info.txt": ()}

def no_conflicts(files):
    """Leaves out rows that conflict with an earlier one (the same id, date, number or pair)."""
    out = {}
    for f, t in files.items():
        if not t:
            out[f] = t
            continue
        head = [h.strip() for h in t[0]]
        cols = KEYS[f] if f in KEYS else (feedgen.OWN[f],) if f in feedgen.OWN else None
        seen, rows = set(), [t[0]]
        for r in t[1:]:
            v = [x.strip() for x in r]
            at = lambda c: v[head.index(c)] if c in head and head.index(c) < len(v) else ""
            num = lambda c: str(int(at(c))) if c.endswith("sequence") and re.match(r"\s*[+-]?\d+\s*\Z", at(c)) else at(c)
            key = tuple(num(c) for c in cols) if cols is not None else tuple(x for x in v)
            if v and f in feedgen.OBLIGATORY + ["shapes.txt", "feed_info.txt", "calendar.txt", "calendar_dates.txt", "transfers.txt", "fare_attributes.txt", "fare_rules.txt", "frequencies.txt"]:
                if key in seen: continue
                seen.add(key)
            rows.append(r)
        out[f] = rows
    return out

import re

def shuffled(rng, files):
    out = {}
    for f, t in files.items():
        body = t[1:]
        way = rng.random()
        if way < .3: body = body[::-1]
        elif way < .8: body = rng.sample(body, len(body))
        out[f] = t[:1] + body
    return out

def args(rng):
    return dict(children=rng.choice([1, 1, 0]), today=rng.choice([20260601, 20270101, 20240101]), gap=rng.choice([-1, -1, 13, 1]), by=rng.choice(["arg", "arg", "self"]))

class Asked(Part):
    """Rows loaded in several orders; every answer is asked for several times."""
    name, driver, trace = "asked", "valid", "ValidTrace"
    mc = [("OrderMC", "OrderMC.cfg")]
    mc_thorough = [("OrderMC", "OrderMC2.cfg")]
    case_timeout = 120

    def gen(self, rng):
        return [self.one(rng) for _ in range(110 if self.quick else 3500)]

    def one(self, rng):
        files = no_conflicts(feedgen.feed(rng, rng.choice([0, 0, .01, .03, .1]), size=rng.choice([3, 5, 8])))
        self.more(rng, files)
        files = no_conflicts(files)
        rows = [dict(f=x["f"], r={c: c01.value(v) for c, v in x["r"].items()}) for x in feedgen.rows_of(files)]
        orders = [files] + [shuffled(rng, files) for _ in range(rng.choice([1, 2, 2]))]
        ask = [args(rng) for _ in range(rng.choice([1, 2]))]
        ops = []
        for i in range(len(orders)):
            ops.append(dict(op="load", order=i, rows=rows, zip=rng.random() < .3, mem=rng.random() < .6))
            q = [dict(op="validate", args=dict(a)) for a in ask * 2] + [dict(op="look"), dict(op="look"), dict(op="write"), dict(op="write")] + [dict(op="read")] * rng.choice([0, 1, 2])
            rng.shuffle(q)
            ops += q
        return dict(ops=ops, orders=orders)

    def more(self, rng, files):
        """More points of a shape and more stop times, measured or not."""
        for f, key, ids in (("shapes.txt", "shape_id", "shape_id"), ("stop_times.txt", "trip_id", "stop_id")):
            t = files.get(f)
            if not t or rng.random() < .5: continue
            head = [h.strip() for h in t[0]]
            good = [r for r in t[1:] if len(r) == len(head)]
            if not good or key not in head or "shape_dist_traveled" not in head: continue
            seq = [i for i, h in enumerate(head) if h.endswith("sequence")]
            for k in range(rng.randrange(1, 5)):
                r = list(rng.choice(good))
                if rng.random() < .8: r[head.index(key)] = good[0][head.index(key)]
                r[head.index("shape_dist_traveled")] = rng.choice(["", "", "0", "1", "2.5", "1000"])
                for i in seq: r[i] = str(rng.randrange(20))
                t.append(r)

    def nontrivial(self, log):
        return len(log["ev"]) > 6

class Edited(Part):
    """Sound schedules edited, undone and loaded afresh between the questions."""
    name, driver, trace = "edited", "valid", "ValidTrace"
    case_timeout = 120

    def gen(self, rng):
        return [self.one(rng) for _ in range(80 if self.quick else 2500)]

    def one(self, rng):
        files = c01.feed(rng, rng.choice([3, 5, 8]))
        rows = [dict(f=x["f"], r=x["r"]) for x in feedgen.rows_of(files)]
        ask = [args(rng)]
        ops = [dict(op="load", order=0, zip=False, mem=rng.random() < .6, rows=[dict(f=x["f"], r={c: c01.value(v) for c, v in x["r"].items() if c in feedgen.KIND or c in feedgen.IDKIND or x["f"] not in c01.KEEPNOT}) for x in rows])]
        ops += self.ask(rng, ask)
        done = []
        for _ in range(rng.randrange(1, 5)):
            w = rng.random()
            if w < .5:
                q = c01.edits(rng, rows, 1)
                for x in q:
                    x.pop("look", None)
                    if isinstance(x["v"], int): x["v"] = str(x["v"])     # as the tables hold it
                done += [x for x in q if (x["f"], x["key"], x["c"]) not in [(y["f"], y["key"], y["c"]) for y in done]]
                ops += q
            elif w < .75 and done:
                x = done.pop(rng.randrange(len(done)))
                ops.append(dict(x, undo=True))
            else:
                done = []
                ops.append(dict(op="reload", mem=rng.random() < .6))
            ops += self.ask(rng, ask)
        return dict(ops=ops, orders=[files])

    def ask(self, rng, ask):
        q = [dict(op="validate", args=dict(a)) for a in ask * rng.choice([1, 1, 2])] + [dict(op=rng.choice(["look", "write", "read"])) for _ in range(rng.choice([0, 1, 2]))]
        rng.shuffle(q)
        return q

class Grown(Part):
    """Schedules built through the interface, asked while they grow and loaded again."""
    name, driver, trace = "grown", "valid", "ValidTrace"
    case_timeout = 120

    def gen(self, rng):
        b = c01.Built(self.quick, self.seed)
        return [self.one(rng, b) for _ in range(60 if self.quick else 2000)]

    def one(self, rng, b):
        case = b.one(rng)
        a = args(rng)
        ops = []
        for x in case["ops"]:
            if x["op"] not in ("new", "add"): continue
            x.pop("look", None)
            if x["op"] == "add" and x["f"] == "stops.txt":     # numbers are numbers, as after loading
                for r in (x["r"], x["eff"]):
                    for c in ("stop_lat", "stop_lon"): r[c] = float(r[c])
            if x["op"] == "add":
                for r in (x["r"], x["eff"]):
                    for c in ("location_type", "route_type", "transfer_type", "min_transfer_time", "payment_method", "transfers"):
                        if r.get(c, "") != "": r[c] = int(r[c])
            ops.append(x)
            if rng.random() < .12: ops += [dict(op="validate", args=dict(a))] * rng.choice([1, 2]) + [dict(op=rng.choice(["look", "write", "read"]))]
        ops += [dict(op="validate", args=dict(a)), dict(op="look"), dict(op="write"), dict(op="reload", mem=rng.random() < .6),
                dict(op="validate", args=dict(a)), dict(op="look"), dict(op="write"), dict(op="validate", args=dict(a))]
        return dict(ops=ops, orders=[], lit=False)

PARTS = [Asked, Edited, Grown]
ASSUMPTIONS = ["Rows that conflict (the same id, date of a service, sequence number or pair of stops) are left out, since either may be blamed."]
