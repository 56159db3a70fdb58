from fw import *
import viewcases
from viewcases import ymd, hms, DAYS, T0
import datetime
from xml.sax.saxutils import escape

NAMES = ["Ab", "B & C", "<b>", "Åbo", "A \"q\"", "Main St", "zz", "Ab 2"]
URL = ["", "", "http://e.com/?a=1&b=2"]

def coord(rng, a):
    x = rng.randrange(-a * 1000000, a * 1000000)
    q = rng.random()
    if q < .3: x = x // 100000 * 100000
    if q > .95: x = rng.choice([0, 1, -1, a * 1000000, -a * 1000000])
    return x * 10 + (rng.choice([0, 0, 1, -3, 4, 6]) if abs(x) < a * 1000000 - 2 else 0)
def deg(x): return ("-" if x < 0 else "") + "%d.%07d" % divmod(abs(x), 10 ** 7)

class Export(Part):
    """Generated feeds written with every combination of options, and read back."""
    name, driver, trace = "export", "kml", "KMLTrace"
    mc = [("KMLMC", "KMLMC.cfg")]
    mc_thorough = [("KMLMC", "KMLMC2.cfg")]
    case_timeout = 60
    canary_within = ("doc", "styles")

    def case(self, rng):
        base = 9555
        near = rng.random() < .5
        la, lo = coord(rng, 60), coord(rng, 150)
        def place():
            if near: return la + 10 * rng.randrange(-20000, 20000), lo + 10 * rng.randrange(-20000, 20000)
            return coord(rng, 90), coord(rng, 180)
        stops = []
        for i in range(rng.choice([0, 1, 2, 4, 7])):
            a, b = place()
            stops.append(dict(id=rng.choice(["s%d", "s%d", "Å%d"]) % i, name=rng.choice(NAMES), desc=rng.choice(["", "", "By the <i>river</i>"]), url=rng.choice(URL),
                              lat=a, lon=b, type=0, parent=0))
        if len(stops) > 1 and rng.random() < .7:
            for k in rng.sample(range(len(stops)), rng.choice([1, 1, 2]) if len(stops) > 2 else 1): stops[k]["type"] = 1
            st = [i + 1 for i, s in enumerate(stops) if s["type"] == 1]
            for s in stops:
                if s["type"] == 0 and rng.random() < .6:
                    s["parent"] = rng.choice(st)
                    if rng.random() < .5: s["type"] = 2
        routes = []
        for i in range(rng.choice([0, 1, 2, 3, 4]) if stops else 0):
            short = rng.choice(["", "1", "10", "2", "É"])
            long = rng.choice(["", "Alpha", "Beta & Co", "alpha"]) if short else rng.choice(["Alpha", "Beta & Co", "alpha"])
            routes.append(dict(id="r%d" % i, short=short, long=long, desc=rng.choice(["", "All day"]), url=rng.choice(URL),
                               type=rng.choice([0, 1, 2, 3, 3, 3, 4, 5, 6, 7]), color=rng.choice(["", "FF0080", "00aa77", "123456"])))
        ids = ["t0", "h0", "Pattern 1 (trips: 1)", "é"] if rng.random() < .3 else ["h%d" % i for i in range(4)]
        shapes = []
        for i in range(rng.choice([0, 0, 1, 2, 3])):
            if shapes and rng.random() < .15: pts = [list(x) for x in shapes[-1]["pts"]]
            else: pts = [list(place()) for _ in range(rng.choice([1, 2, 2, 3, 5]))]
            shapes.append(dict(id=ids[i], pts=pts))
        plain = [i + 1 for i, s in enumerate(stops) if s["type"] == 0]
        pats = []
        if plain:
            for _ in range(rng.choice([1, 2, 3])): pats.append([rng.choice(plain) for _ in range(rng.choice([1, 2, 2, 3, 4]))])
            pats.append(pats[0][::-1])
        per = []
        for i in range(rng.choice([1, 2, 3])):
            a = base + rng.randrange(3); b = a + rng.choice([0, 1, 3, 13])
            exc = {base + rng.randrange(8): rng.choice([1, 2]) for _ in range(rng.choice([0, 1, 2]))}
            per.append(dict(id="w%d" % i, start=a, end=b, dow=[rng.random() < .6 for _ in range(7)], exc=exc))
            if not any(per[-1]["dow"]): per[-1]["dow"][rng.randrange(7)] = True
        day = base + rng.randrange(8)
        def active(p):
            if day in p["exc"]: return p["exc"][day] == 1
            return p["start"] <= day <= p["end"] and p["dow"][(T0 + datetime.timedelta(days=day)).weekday()]
        trips, times = [], []
        for i in range(rng.choice([0, 1, 2, 5, 9]) if routes and pats else 0):
            p = rng.choice(pats) if rng.random() < .7 else pats[0]
            if rng.random() < .05: p = []
            w = rng.randrange(len(per)); t = rng.choice([0, 14400, 28000, 86000]); tt = []
            for k in range(len(p)):
                if 0 < k < len(p) - 1 and rng.random() < .3: tt.append(-1)
                else: tt.append(t)
                t += rng.choice([60, 300, 601])
            times.append((w, tt))
            trips.append(dict(id=rng.choice(["t%d", "t%d", "x%d", "É%d"]) % i, route=rng.randrange(len(routes)) + 1, hs=rng.choice(["", "North", "Ö & Z"]),
                              shape=rng.randrange(len(shapes) + 1), stops=p, secs=[], active=active(per[w])))
        opt = lambda q=.5: rng.random() < q
        o = dict(trips=opt(.7), hier=opt(), split=opt(), points=opt(.3), alt2=rng.choice([0, 1, 2, 2, 7]), day=opt(.4))
        names = [s["name"] for s in stops] + [t["id"] for t in trips] + [h["id"] for h in shapes]
        for r in routes:
            names.append(" - ".join((["<b>%s</b>" % r["short"]] if r["short"] else []) + ([r["long"]] if r["long"] else [])) or r["id"])
        tab = {"agency.txt": [["agency_id", "agency_name", "agency_url", "agency_timezone"], ["a", "Ag", "http://e.com", "America/Los_Angeles"]]}
        tab["stops.txt"] = [["stop_id", "stop_name", "stop_desc", "stop_url", "stop_lat", "stop_lon", "location_type", "parent_station"]]
        for s in stops: tab["stops.txt"].append([s["id"], s["name"], s["desc"], s["url"], deg(s["lat"]), deg(s["lon"]), s["type"] or rng.choice(["", 0]), stops[s["parent"] - 1]["id"] if s["parent"] else ""])
        tab["routes.txt"] = [["route_id", "route_short_name", "route_long_name", "route_desc", "route_url", "route_type", "route_color"]] + [[r[k] for k in ("id", "short", "long", "desc", "url", "type", "color")] for r in routes]
        for r in routes: r["color"] = r["color"].lower()
        tab["calendar.txt"] = [["service_id"] + DAYS + ["start_date", "end_date"]] + [[p["id"]] + [int(x) for x in p["dow"]] + [ymd(p["start"]), ymd(p["end"])] for p in per]
        tab["calendar_dates.txt"] = [["service_id", "date", "exception_type"]] + [[p["id"], ymd(d), k] for p in per for d, k in sorted(p["exc"].items())]
        if shapes: tab["shapes.txt"] = [["shape_id", "shape_pt_lat", "shape_pt_lon", "shape_pt_sequence"]] + [[h["id"], deg(a), deg(b), 2 * k] for h in shapes for k, (a, b) in enumerate(h["pts"])]
        tab["trips.txt"] = [["route_id", "service_id", "trip_id", "trip_headsign", "shape_id"]]
        tab["stop_times.txt"] = [["trip_id", "arrival_time", "departure_time", "stop_id", "stop_sequence"]]
        for t, (w, tt) in zip(trips, times):
            tab["trips.txt"].append([routes[t["route"] - 1]["id"], per[w]["id"], t["id"], t["hs"], shapes[t["shape"] - 1]["id"] if t["shape"] else ""])
            for k, (s, x) in enumerate(zip(t["stops"], tt)): tab["stop_times.txt"].append([t["id"], hms(x), hms(x), stops[s - 1]["id"], k + 1])
        clean = all(len(t["stops"]) for t in trips)
        return dict(kind="feed", feed=dict(stops=stops, routes=routes, trips=trips, shapes=shapes, rank=sorted(set(names))), o=o, tables=tab, date=ymd(day),
                    cli=rng.random() < .5 and clean and bool(stops) and bool(routes), named=int(rng.random() < .6), backcli=rng.random() < .3)

    def gen(self, rng):
        return [self.case(rng) for _ in range(120 if self.quick else 4000)]

    def nontrivial(self, log):
        return any(e["op"] == "write" and len(e["o"]["flat"]) > 2 for e in log["ev"])

class Reading(Part):
    """Documents of other writers, read by the KML parser."""
    name, driver, trace = "reading", "kml", "KMLTrace"
    case_timeout = 60
    canary_within = ("flat",)

    def gen(self, rng):
        res = []
        for _ in range(80 if self.quick else 3000):
            names = rng.choice([["A", "A", "A_%d" % rng.choice([1, 2, 3]), "B"], ["A", "A_2"], ["A", "é", "x y", "B & C", ""]])
            pool = [(rng.randrange(-180000, 180000), rng.randrange(-90000, 90000)) for _ in range(4)]
            def pts(n):
                alt = rng.choice(["", "", ",0", ",12.5"])
                return rng.choice([" ", "\n   ", "  "]).join("%.3f,%.3f%s" % (a / 1000, b / 1000, alt) for a, b in (rng.choice(pool) for _ in range(n)))
            def co(n): return "<coordinates>%s%s%s</coordinates>" % (rng.choice(["", "\n "]), pts(n), rng.choice(["", "\n"]))
            def mark():
                q = rng.random()
                g = "<Point>%s</Point>" % co(1) if q < .4 else "<LineString><tessellate>1</tessellate>%s</LineString>" % co(rng.choice([0, 1, 2, 2, 2, 3])) if q < .85 else \
                    "" if q < .92 else "<Polygon><outerBoundaryIs><LinearRing>%s</LinearRing></outerBoundaryIs></Polygon>" % co(4)
                line = "<LineS" in g          # a shape needs an id
                n = rng.choice(["<name>%s</name>", "<name>%s</name>", "<name>%s</name><description>A_9</description>"]) % escape(rng.choice([x for x in names if x or not line])) if line or rng.random() < .93 else ""
                return "<Placemark>%s</Placemark>\n" % "".join([n, g] if rng.random() < .8 else [g, n])
            def body(depth):
                return "".join(mark() if depth == 0 or rng.random() < .75 else "<Folder><name>F</name>%s</Folder>" % body(depth - 1) for _ in range(rng.choice([1, 3, 5, 8])))
            text = '<?xml version="1.0" encoding="UTF-8"?>\n<kml xmlns="http://%s"><Document>%s</Document></kml>\n' % (rng.choice(["earth.google.com/kml/2.1", "www.opengis.net/kml/2.2"]), body(2))
            res.append(dict(kind="text", feed=dict(stops=[], routes=[], trips=[], shapes=[], rank=[]), o=dict(trips=False), text=text, backcli=rng.random() < .3))
        return res

PARTS = [Export, Reading]
ASSUMPTIONS = ["the feed loads without errors; the first and last visit of every trip is timed", "times of visits without given times are those of GetTimeInterpolatedStops (decided by C09)", "coordinates with at most seven decimals, none of them a tie when rounded to six", "when a line's name is also the start of another's followed by an underscore, only that no line is lost or overwritten is decided"]
