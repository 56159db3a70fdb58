from fw import *
import base64, csv, io

BOM = b"\xef\xbb\xbf"
IDS = ["node", "Edge", "graph", "subgraph", "digraph", "STRICT", "a b", "st:1", "7", "x", "Ü1", "say \"hi\"", "b\\c", "end\\", "q\\\"r", "_9", "cluster_x", "a-b", "a;b", "<b>", "\\N", "n{1}", "A1", "stop_5", "9a", "é", "-3", "1.5", "a.b"]
NAMES = ["", "Exit", "Hall", "Central Station", "A platform with long n", "A name of 21 letters.", "A name of twenty let.", "A name of twenty-five let.", "A name of 25 letters, ok.", "Šťastná ulice, výstup k náměstí", "Gate \"B\" to the old market", "back\\slash", "edge", "Übergang zum Bahnsteig 12", "5"]
CODES = ["", "", "", "1", "2b", "node", "\"x\"", "Ä"]
SIGNS = ["", "", "", "", "To street", "\"Way out\"", "A rather long way out of here", "C:\\d", "Ausgang Südseite zum Stadtpark"]

class Drawing(Part):
    """Feeds of stations with platforms, entrances, boarding areas and pathways, drawn with each option."""
    name, driver, trace = "drawing", "pathways", "PathwaysTrace"
    mc = [("PathwaysMC", "PathwaysMC.cfg")]
    mc_thorough = [("PathwaysMC", "PathwaysMC2.cfg")]
    canary_within = ("boxes", "nodes", "edges")

    def case(self, rng):
        odd = rng.random()
        pool = ["s%d" % i for i in range(40)]
        if odd < .6:
            w = rng.sample(IDS, rng.randrange(1, 9))
            pool = w + pool
        rng.shuffle(pool)
        plainly = rng.random() < .3
        def loc(t, parent):
            return dict(id=pool.pop(), type=t, name="Name" if plainly else rng.choice(NAMES), code=rng.choice(CODES) if t == 0 else "", sign=rng.choice(SIGNS) if t in (0, 2) else "", parent=parent)
        locs, ends = [], []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            group = []
            if rng.random() < .15:
                top = loc(0, "")
                kids = [loc(4, top["id"]) for _ in range(rng.choice([0, 0, 1, 2]))]
                locs += [top] + kids
                group = [x["id"] for x in kids] or [top["id"]]
            else:
                top = loc(1, "")
                locs.append(top)
                for _ in range(rng.choice([0, 1, 2, 3, 4, 5])):
                    x = loc(rng.choice([0, 0, 2, 3]), top["id"])
                    locs.append(x)
                    kids = [loc(4, x["id"]) for _ in range(rng.choice([0, 0, 1, 2]))] if x["type"] == 0 else []
                    locs += kids
                    group += [k["id"] for k in kids] or [x["id"]]
            if group: ends.append(group)
        paths = []
        for i in range(rng.choice([0, 1, 2, 3, 5, 8]) if ends else 0):
            g = rng.choice(ends)
            f = rng.choice(g)
            t = rng.choice(g) if rng.random() < .85 else rng.choice(rng.choice(ends))
            paths.append({"id": "w%d" % i, "from": f, "to": t, "mode": rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 1, 2]), "both": rng.random() < .5, "sign": rng.choice(SIGNS), "rsign": rng.choice(SIGNS)})
            if rng.random() < .1: paths.append(dict(paths[-1], id="v%d" % i))
        q = rng.random()
        if q < .03 and paths: rng.choice(paths)[rng.choice(["from", "to"])] = "nowhere"
        elif q < .06:
            x = rng.choice(locs)
            if x["parent"]: x["parent"] = "nowhere"
        rng.shuffle(locs)
        ids = [x["id"] for x in locs if "," not in x["id"]]
        opts = [dict(ids=[], dot=rng.random() < .7)]
        for _ in range(2):
            o = rng.sample(ids, min(len(ids), rng.choice([1, 1, 1, 2, 3])))
            if rng.random() < .06: o.insert(rng.randrange(len(o) + 1), "nowhere2")
            if rng.random() < .1: o.append(o[0])
            opts.append(dict(ids=o, dot=rng.random() < .7))
        return dict(locs=locs, paths=paths, opts=opts, slash=rng.choice(["", "", "/"]), files=self.files(rng, locs, paths))

    def files(self, rng, locs, paths):
        sp = rng.random() < .1
        def table(cols, rows, need):
            cols = [x for x in cols if x in need or any(r[x] for r in rows) or rng.random() < .6]
            rng.shuffle(cols)
            last = [x for x in cols if x in need][-1]
            short = rng.random() < .15
            out = [cols]
            for r in rows:
                row = [r[x] for x in cols]
                if sp: row = [" %s " % v if rng.random() < .3 and v else v for v in row]
                while short and row and row[-1] == "" and len(row) > cols.index(last) + 1: row.pop()
                out.append(row)
            f = io.StringIO()
            csv.writer(f, lineterminator=rng.choice(["\n", "\r\n"]), quoting=rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_ALL])).writerows(out)
            return base64.b64encode((BOM if rng.random() < .15 else b"") + f.getvalue().encode()).decode()
        zero = lambda n: rng.choice(["", "0"]) if n == 0 else str(n)
        stops = [dict(stop_id=x["id"], stop_name=x["name"], location_type=zero(x["type"]), platform_code=x["code"], signposted_as=x["sign"], parent_station=x["parent"], stop_lat="1.5", stop_lon="2.5", level_id=rng.choice(["", "L1"])) for x in locs]
        ways = [dict(pathway_id=p["id"], from_stop_id=p["from"], to_stop_id=p["to"], pathway_mode=zero(p["mode"]), is_bidirectional="1" if p["both"] else zero(0), signposted_as=p["sign"], reversed_signposted_as=p["rsign"], length=rng.choice(["", "12.5"])) for p in paths]
        return {"stops.txt": table(list(stops[0]), stops, ["stop_id", "stop_name"]),
                "pathways.txt": table(["pathway_id", "from_stop_id", "to_stop_id", "pathway_mode", "is_bidirectional", "signposted_as", "reversed_signposted_as", "length"], ways, ["pathway_id", "from_stop_id", "to_stop_id"])}

    def gen(self, rng):
        return [self.case(rng) for _ in range(150 if self.quick else 5000)]

    def nontrivial(self, log):
        return any(e["o"]["edges"] for e in log["ev"])

PARTS = [Drawing]
ASSUMPTIONS = ["identifiers are unique; parents are of the kind GTFS allows and at most two steps away; pathways do not end at stations or at platforms that have boarding areas (GTFS forbids both)", "cells hold no line breaks"]
