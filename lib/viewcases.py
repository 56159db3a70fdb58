"""Feeds and requests for the schedule viewer."""
from urllib.parse import quote
import datetime
T0 = datetime.date(2000, 1, 1)
def ymd(d): return (T0 + datetime.timedelta(days=d)).strftime("%Y%m%d")
def hms(n): return "" if n < 0 else "%02d:%02d:%02d" % (n // 3600, n // 60 % 60, n % 60)
DAYS = ["monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"]
NAMES = ["Ab", "ab Street", "B", "Åbo", "Bc & d", "C (x)", "Main/1st", "x-ab"]

def feed(rng):
    base = rng.choice([9530, 9555, 9700])          # 2026
    nst = rng.choice([2, 3, 5, 8])
    grid = rng.choice([3, 6, 12])
    stops = []
    alike = rng.random() < .2                      # ids that differ in case only
    for i in range(nst):
        stops.append(dict(id=["q%d", "Q%d"][i % 2] % (i // 2) if alike else rng.choice(["s%d", "AB%d", "é%d", "s %d"]) % i, name=rng.choice(NAMES),
                          lat=10 * rng.randrange(grid) + 1000, lon=10 * rng.randrange(grid) - 50000, type=0))
    if rng.random() < .3:
        stops.append(dict(id="hub", name=rng.choice(NAMES), lat=1000, lon=-50000, type=1))
    for s in stops:
        s["lowid"], s["lowname"] = s["id"].lower(), s["name"].lower()
    nr = rng.choice([1, 2, 3, 4])
    routes = []
    for i in range(nr):
        short = rng.choice(["", "1", "2", "10", "É"])
        long = rng.choice(["Alpha %d", "Beta %d", "alpha %d"]) % i
        if short and rng.random() < .3: long = ""
        routes.append(dict(id="r%d" % i if rng.random() < .8 else "r&%d" % i, short=short, long=long, color=rng.choice(["", "FF0000", "00AA77"])))
    per = []
    for i in range(rng.choice([1, 2, 3])):
        a = base + rng.randrange(6); b = a + rng.choice([0, 6, 13, 40])
        exc = {base + rng.randrange(16): rng.choice([1, 2]) for _ in range(rng.choice([0, 0, 1, 3]))}
        dow = rng.choice([[True] * 7, [True] * 5 + [False] * 2, [False] * 5 + [True] * 2])
        per.append(dict(id="w%d" % i, start=a, end=b, dow=dow, exc=sorted(map(list, exc.items()))))
    shapes = [[[rng.randrange(100) * 10 + 1000, rng.randrange(100) * 10 - 50000] for _ in range(rng.randrange(2, 5))] for _ in range(rng.choice([0, 1, 2]))]
    plain = [i for i, s in enumerate(stops) if s["type"] == 0]
    pats = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        pats.append([rng.choice(plain) + 1 for _ in range(rng.choice([2, 2, 3, 4, 5]))])
        for k in range(1, len(pats[-1])):            # never twice in a row
            while len(plain) > 1 and pats[-1][k] == pats[-1][k - 1]: pats[-1][k] = rng.choice(plain) + 1
    kinds = rng.random() < .3
    trips = []
    tt = rng.choice([0, 21600, 79200])
    for i in range(rng.choice([1, 3, 6, 12, 20])):
        p = rng.choice(pats) if rng.random() < .9 else pats[0]
        t = tt + rng.choice([0, 600, 1200, 1800, 3600, 3660, 7200, 90])
        v = []
        for k, s in enumerate(p):
            if 0 < k < len(p) - 1 and rng.random() < .25:
                v.append(dict(stop=s, arr=-1, dep=-1, hs=""))
            else:
                v.append(dict(stop=s, arr=t, dep=t + rng.choice([0, 0, 30, 120]), hs=rng.choice(["", "", "", "Via X", "Été"])))
                t = v[-1]["dep"]
            t += rng.choice([60, 300, 1200])
        trips.append(dict(id=rng.choice(["t%d", "t%d", "t%d", "t%d", "é%d", "a&%d", "q\"<%d"]) % i, route=rng.randrange(nr) + 1, per=rng.randrange(len(per)) + 1, hs=rng.choice(["", "North", "Ödön"]),
                          shape=rng.randrange(len(shapes) + 1), kind=rng.choice(["", "0", "1"]) if kinds else "", visits=v, at=[]))
    cols = ["route_id", "agency_id", "route_short_name", "route_long_name", "route_type", "route_color"]
    tab = {}
    agencies = ["Ag One"] if rng.random() < .7 else ["Ag One", "Två"]
    tab["agency.txt"] = [["agency_id", "agency_name", "agency_url", "agency_timezone"]] + [["a%d" % i, x, "http://e.com", "America/Los_Angeles"] for i, x in enumerate(agencies)]
    tab["stops.txt"] = [["stop_id", "stop_name", "stop_lat", "stop_lon", "location_type"]] + [[s["id"], s["name"], "%.3f" % (s["lat"] / 1000), "%.3f" % (s["lon"] / 1000), s["type"]] for s in stops]
    tab["routes.txt"] = [cols]
    for r in routes:
        tab["routes.txt"].append([r["id"], "a0", r["short"], r["long"], 3, r["color"]])
        r["row"] = [[c, str(x)] for c, x in zip(cols, tab["routes.txt"][-1]) if str(x)]
    tab["calendar.txt"] = [["service_id"] + DAYS + ["start_date", "end_date"]] + [[p["id"]] + [int(x) for x in p["dow"]] + [ymd(p["start"]), ymd(p["end"])] for p in per]
    tab["calendar_dates.txt"] = [["service_id", "date", "exception_type"]] + [[p["id"], ymd(d), k] for p in per for d, k in p["exc"]]
    if shapes:
        tab["shapes.txt"] = [["shape_id", "shape_pt_lat", "shape_pt_lon", "shape_pt_sequence"]] + [["h%d" % (i + 1), "%.3f" % (a / 1000), "%.3f" % (b / 1000), k] for i, h in enumerate(shapes) for k, (a, b) in enumerate(h)]
    tc = ["route_id", "service_id", "trip_id", "trip_headsign", "shape_id"] + ["trip_type"] * kinds
    tab["trips.txt"] = [tc]
    tab["stop_times.txt"] = [["trip_id", "arrival_time", "departure_time", "stop_id", "stop_sequence", "stop_headsign"]]
    order = list(range(len(trips))); rng.shuffle(order)
    for i in order:
        t = trips[i]
        tab["trips.txt"].append([routes[t["route"] - 1]["id"], per[t["per"] - 1]["id"], t["id"], t["hs"], "h%d" % t["shape"] if t["shape"] else ""] + [t["kind"]] * kinds)
        t["row"] = [[c, x] for c, x in zip(tc, tab["trips.txt"][-1]) if x]
        seq = 0
        for v in t["visits"]:
            seq += rng.choice([1, 1, 5])
            tab["stop_times.txt"].append([t["id"], hms(v["arr"]), hms(v["dep"]), stops[v["stop"] - 1]["id"], seq, v["hs"]])
    words = set(r["short"] for r in routes) | set(r["long"] for r in routes)
    words |= {"%s to %s, %d stops" % (stops[p[0] - 1]["name"], stops[p[-1] - 1]["name"], len(p)) for p in pats}
    return dict(stops=stops, routes=routes, per=per, shapes=shapes, trips=trips, rank=sorted(words), agency=", ".join(agencies), key="KEY1", host="maps.example.com"), tab, base

def enc(s): return quote(s, safe="")
def text(s): return dict(k="text", t=s, low=s.lower(), n=0)
def num(x): return dict(k="num", t="", low="", n=x)
NONE, BAD = dict(k="none", t="", low="", n=0), dict(k="bad", t="", low="", n=0)

def requests(rng, f, base, n):
    res = []
    pick = lambda q, other: text(rng.choice(q)["id"]) if q and rng.random() < .88 else rng.choice([text(other), text(""), NONE])
    def time():
        q = rng.random()
        if q < .1: return NONE
        if q < .13: return BAD
        v = [x for t in f["trips"] for x in t["visits"] if x["arr"] >= 0]
        return num(rng.choice(v)["arr"] + rng.choice([0, 0, 1, -1, -600]) if v and q < .8 else rng.choice([0, 43200, 86400, 100000, -5]))
    def date():
        q = rng.random()
        return NONE if q < .45 else BAD if q < .48 else num(base + rng.randrange(-1, 18))
    def limit(): return rng.choice([num(1), num(2), num(3), num(5), num(100)]) if rng.random() < .85 else rng.choice([num(0), num(-1), NONE, BAD])
    def coord(k):
        if rng.random() < .04: return rng.choice([NONE, BAD])
        return num(rng.choice(f["stops"])[k] + rng.choice([0, 0, 0, 5, -7, 40, -300]))
    for _ in range(n):
        kind = rng.choice(["routes", "routerow", "triprows", "tripstoptimes", "tripshape", "neareststops", "neareststops", "boundboxstops", "boundboxstops",
                           "stopsearch", "stoptrips", "stoptrips", "stoptrips", "routepatterns", "routepatterns", "routepatterns", "home", "graph", "graph", "nothing"])
        p = {}
        if kind in ("routerow", "routepatterns"): p["route"] = pick(f["routes"], "zz")
        if kind in ("triprows", "tripstoptimes", "tripshape", "graph"): p["trip"] = pick(f["trips"], "t")
        if kind == "stoptrips": p["stop"] = pick(f["stops"], "q")
        if kind == "graph": p["height"] = rng.choice([NONE, NONE, num(200), num(777), BAD])
        if kind in ("stoptrips", "routepatterns"): p["time"], p["date"] = time(), date()
        if kind == "neareststops": p["lat"], p["lon"], p["limit"] = coord("lat"), coord("lon"), limit()
        if kind == "boundboxstops":
            for a, b, k in (("s", "n", "lat"), ("w", "e", "lon")):
                x, y = coord(k), coord(k)
                if x["k"] == y["k"] == "num" and x["n"] > y["n"] and rng.random() < .9: x, y = y, x
                p[a], p[b] = x, y
            p["limit"] = limit()
        if kind == "stopsearch":
            s = rng.choice(f["stops"]); w = s[rng.choice(["id", "name"])]
            i = rng.randrange(len(w)); w = w[i:i + rng.choice([1, 2, 3])]
            p["q"] = rng.choice([text(w), text(w.upper()), text(w), text("zzz"), text(""), NONE])
        if kind == "home": path = "/"
        elif kind == "nothing": path = rng.choice(["/json/nosuch", "/nosuch", "/home", "/default", "/json/", "/json", "/file/", "/json/GET", "/favicon.ico", "/json/wrapper?trip=t0"])
        else:
            q = []
            for k in p:
                v = p[k]
                if v["k"] == "text": q.append(k + "=" + enc(v["t"]))
                elif v["k"] == "bad": q.append(k + "=" + rng.choice(["x", "1x", "--1", "%FF", "12:00"]))
                elif v["k"] == "num":
                    q.append(k + "=" + (ymd(v["n"]) if k == "date" else "%.3f" % (v["n"] / 1000) if k in ("lat", "lon", "n", "e", "s", "w") else str(v["n"])))
            rng.shuffle(q)
            if rng.random() < .1: q.append(rng.choice(["foo=bar", "", "x"]))
            path = ("/ttablegraph" if kind == "graph" else "/json/" + kind) + ("?" + "&".join(q) if q else "")
        res.append(dict(kind=kind, p=p, path=path))
    return res
