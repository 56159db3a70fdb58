from fw import *
import math
R = 6371010.0
deg = lambda p: "%.9f" % (8 + math.degrees(p / R))

class Imported(Part):
    """Feeds and networks of lines, through the importer as a program."""
    name, driver, trace = "imported", "import", "ImportTrace"
    case_timeout = 120
    mc = [("ImportMC", "ImportMC.cfg")]
    mc_thorough = [("ImportMC", "ImportMC2.cfg")]
    canary_within = ("trips", "shapes", "ok")

    def case(self, rng):
        n = rng.choice([3, 4, 6])
        mx = rng.choice([150, 150, 60, 400])
        near = lambda p: p + rng.choice([0, 0, 0, mx // 3, -mx // 3, mx - 5, 5 - mx])
        sites = [1000 * i + 200 * rng.randrange(2) for i in range(n)]
        lines = []
        def line(i, j, bend):
            q = [sites[k] if k in (i, j) else near(sites[k]) for k in range(min(i, j), max(i, j) + 1)]
            if not bend: q = [q[0], q[-1]] if rng.random() < .5 else [q[0], (q[0] + q[-1]) // 2, q[-1]]
            q = sorted(set(q))
            lines.append(dict(pts=q if i < j else q[::-1]))
        kind = rng.choice(["lines", "lines", "parts", "parts", "both"])
        if kind != "parts":
            for _ in range(rng.choice([1, 2, 3])):
                i, j = rng.sample(range(n), 2); line(i, j, rng.random() < .6)
        if kind != "lines":
            for i in range(n - 1):
                if rng.random() < .88: line(*rng.choice([(i, i + 1), (i, i + 1), (i + 1, i)]), False)
        if not lines: line(0, 1, False)
        ext = [rng.random() < .15 for _ in lines]
        if rng.random() < .5: ext = [False] * len(lines)
        if all(ext): ext[0] = False
        keys = rng.choice([[], ["ROUTE"], ["ROUTE", "DIR"]])
        files = {}; extra = []
        order = []
        for i, q in enumerate(lines):
            if ext[i]: continue
            f = rng.choice(["a.shp", "b.shp"])
            files.setdefault(f, []).append(dict(pts=q["pts"], cols=dict(ROUTE=rng.choice(["1", "2", "Ä"]) if rng.random() < .4 and not rng.random() < .5 else "L%d" % i, DIR=rng.randrange(2)), at=i))
        # no column value beyond ASCII: str() of the importer's reading is ogr's affair
        for f in sorted(files):
            for i, x in enumerate(files[f]):
                if x["cols"]["ROUTE"] == "Ä": x["cols"]["ROUTE"] = "3"
                name = "-".join(str(x["cols"][k]) for k in keys) if keys else "%s-%d" % (f, i)
                order.append(dict(name=name, pts=x["pts"]))
        if any(ext):
            extra = [["shape_id", "shape_pt_lat", "shape_pt_lon", "shape_pt_sequence"]]
            for i, q in enumerate(lines):
                if ext[i]:
                    extra += [["x%d" % i, "0.0", deg(p), k + 1] for k, p in enumerate(q["pts"])]
                    order.append(dict(name="x%d" % i, pts=q["pts"]))
        # stops at, near and away from the sites
        stops = [s for s in sites] + [near(rng.choice(sites)) for _ in range(rng.choice([0, 1, 3]))] + [sites[-1] + 5000] * (rng.random() < .3)
        own = [dict(id=rng.choice(["shape_%d" % (i + 1), "own_%d" % i, "shape_%d" % (i + 2)]), pts=[7000, 7500 + i]) for i in range(rng.choice([0, 0, 1, 2]))]
        if len({x["id"] for x in own}) < len(own): own = own[:1]
        nr = rng.choice([1, 2])
        pats = []
        for _ in range(rng.choice([1, 2, 3])):
            x = rng.random()
            if x < .7:
                a, b = sorted(rng.sample(range(len(sites)), 2)); p = list(range(a, b + 1))
                if rng.random() < .25 and len(p) > 2: p.pop(rng.randrange(1, len(p) - 1))
                if rng.random() < .4: p.reverse()
            elif x < .78: p = []
            elif x < .86: p = [rng.randrange(len(stops))]
            else: p = [rng.randrange(len(stops)) for _ in range(rng.choice([2, 3]))]
            if x < .7 and len(stops) > len(sites) and rng.random() < .3: p[rng.randrange(len(p))] = rng.randrange(len(sites), len(stops))
            p = [v for k, v in enumerate(p) if k == 0 or stops[v] != stops[p[k - 1]]]
            pats.append(p)
        trips = []
        for i in range(rng.choice([1, 2, 4, 6])):
            p = rng.choice(pats)
            trips.append(dict(id="t%d" % i, route=rng.randrange(nr) + 1, stops=[stops[v] for v in p], pat=[v + 1 for v in p], shape=rng.randrange(len(own) + 1)))
        if own and not any(t["shape"] for t in trips): trips[0]["shape"] = 1
        hms = lambda m: "%02d:%02d:00" % (m // 60, m % 60)
        tables = {
            "agency.txt": [["agency_name", "agency_url", "agency_timezone"], ["A", "http://a.com", "Africa/Accra"]],
            "stops.txt": [["stop_id", "stop_name", "stop_lat", "stop_lon"]] + [["s%d" % i, "Stop %d" % i, "0.0", deg(p)] for i, p in enumerate(stops)],
            "routes.txt": [["route_id", "route_short_name", "route_long_name", "route_type"]] + [["r%d" % i] + rng.choice([["N%d" % i, ""], ["Ä%d" % i, "Lång"], ["", "Long %d" % i], ["", "Ö"]]) + [3] for i in range(nr)],
            "calendar.txt": [["service_id", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday", "start_date", "end_date"], ["w"] + [1] * 7 + ["20260101", "20271231"]],
            "trips.txt": [["route_id", "service_id", "trip_id", "shape_id"]] + [["r%d" % (t["route"] - 1), "w", t["id"], own[t["shape"] - 1]["id"] if t["shape"] else ""] for t in trips],
            "stop_times.txt": [["trip_id", "arrival_time", "departure_time", "stop_id", "stop_sequence"]] + [[t["id"], hms(400 + 10 * k), hms(400 + 10 * k), "s%d" % (v - 1), k + 1] for t in trips for k, v in enumerate(t["pat"])],
        }
        if own: tables["shapes.txt"] = [["shape_id", "shape_pt_lat", "shape_pt_lon", "shape_pt_sequence"]] + [[x["id"], "0.0", deg(p), k + 1] for x in own for k, p in enumerate(x["pts"])]
        return dict(feed=dict(lines=order, trips=trips, shapes=own, max=mx), tables=tables, files=files, extra=extra, keys=keys, verbosity=rng.choice([0, 0, 1, 2, 3]))

    def gen(self, rng):
        return [self.case(rng) for _ in range(150 if self.quick else 4000)]

    def nontrivial(self, log):
        return any(x[1].startswith("shape_") for x in log["ev"][0]["o"]["trips"])

PARTS = [Imported]
ASSUMPTIONS = ["the shapefile library is a stand-in that hands out the same features", "lines lie along one great circle and do not turn back, so that fit is computed in one dimension",
               "places are not within two metres of the greatest distance"]
