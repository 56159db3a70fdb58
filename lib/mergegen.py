"""Pairs of feeds for the merge checks: sound feeds that share ids and differ here and there."""
import datetime, random

AGENCY = ["1", "2", "metro", "metro_merged_7"]
STOP = ["s1", "s2", "s3", "4", "s1_merged_3", "Größe"]
ROUTE = ["r1", "r2", "0", "r1_merged_12"]
SERVICE = ["w", "x", "0", "w_merged_2"]
FARE = ["f1", "f2", "f"]
SHAPE = ["h1", "h2", "9"]
TRIP = ["t1", "t2", "t3", "t 4", "5", "t1_merged_4"]
ZONE = ["z1", "z2", "0", "z1_merged_13", "z1_merged_5"]
NAMES = ["Main", "MAIN", "main", "Zürich", "ZÜRICH", "Nord", "東京"]
TEXT = ["Alpha", "a, b", "Zürich", 'say "x"', "0"]
STEPS = [0, 0, 0, 45, 60, 80, 100, 300]       # micro-degrees: 80 are 8.9 m, 100 are 11.1 m
DAY0 = datetime.date(2026, 1, 1)
DOW = "monday tuesday wednesday thursday friday saturday sunday".split()

def date(n): return (DAY0 + datetime.timedelta(n)).strftime("%Y%m%d")
def deg(micro): return "%s%d.%06d" % ("-" if micro < 0 else "", abs(micro) // 10**6, abs(micro) % 10**6)
def opt(rng, row, col, values, p=.5):
    if rng.random() < p: row[col] = rng.choice(values)

def keyed(rows, col): return {r.get(col, ""): r for r in rows}

def make(rng, other=None, days=(0, 60), size=3, like=.75):
    """A sound feed {file: rows}; with another feed given, entities of the same id tend to be like its ones."""
    o = other or {}
    def base(f, col, i, fresh, muts):
        """The row of the other feed with one thing changed or not, or a fresh one."""
        old = keyed(o.get(f, []), col).get(i)
        if old is None or rng.random() > like: return fresh()
        r = dict(old)
        if rng.random() < .3:
            c, vs = rng.choice(muts)
            v = rng.choice(vs)
            if v == "": r.pop(c, None)
            else: r[c] = v
        return r
    def ids(pool, f, col, lo=1):
        old = [r.get(col, "") for r in o.get(f, [])]
        n = rng.randrange(lo, min(size, len(pool)) + 1)
        out = []
        while len(out) < n:
            i = rng.choice(old) if old and rng.random() < .7 else rng.choice(pool)
            if i not in out: out.append(i)
            elif rng.random() < .2: break
        return out
    out = {}
    # agencies
    tz = rng.choice(["America/Los_Angeles", "Europe/Zurich"]) if not o or rng.random() < .2 else o["agency.txt"][0]["agency_timezone"]
    def agency():
        r = {"agency_name": rng.choice(TEXT), "agency_url": rng.choice(["http://a.com", "http://b.org"])}
        opt(rng, r, "agency_phone", TEXT); opt(rng, r, "note", TEXT, .2); opt(rng, r, "agency_lang", ["en", "de"], .3)
        return r
    if rng.random() < (.2 if not o else .85 if "agency_id" not in o["agency.txt"][0] else .08): aid = [""]
    else: aid = ids(AGENCY, "agency.txt", "agency_id")[:2]
    lang = rng.choice(["en", "de"])
    out["agency.txt"] = []
    for i in aid:
        r = base("agency.txt", "agency_id", i, agency, [("agency_name", TEXT), ("agency_url", ["http://a.com", "http://b.org"]), ("agency_phone", TEXT + [""]), ("note", TEXT)])
        r["agency_timezone"] = tz
        if "agency_lang" in r: r["agency_lang"] = lang
        r.pop("agency_id", None)
        if i: r["agency_id"] = i
        out["agency.txt"].append(r)
    # stops
    sid = ids(STOP, "stops.txt", "stop_id", 2)
    spot = {i: k for k, i in enumerate(STOP)}
    def stop_at(i):
        far = rng.random() < .08
        return {"stop_lat": deg(1500000 + 1000 * spot.get(i, 7) + (3000 if far else 0) + rng.choice(STEPS)), "stop_lon": deg(1300000 + 1000 * spot.get(i, 7) + rng.choice(STEPS))}
    stations = [i for i in sid if i in ("s2", "4") and rng.random() < .5]
    out["stops.txt"] = []
    for i in sid:
        def stop():
            r = dict(stop_name=rng.choice(NAMES), **stop_at(i))
            opt(rng, r, "zone_id", ZONE, .7); opt(rng, r, "stop_desc", ["About " + t for t in TEXT], .3); opt(rng, r, "note", TEXT, .2); opt(rng, r, "wheelchair_boarding", ["0", "1", "2"], .3)
            return r
        r = base("stops.txt", "stop_id", i, stop, [("stop_name", NAMES), ("stop_lat", [stop_at(i)["stop_lat"]]), ("stop_lon", [stop_at(i)["stop_lon"]]), ("zone_id", ZONE + [""]), ("stop_desc", ["About x"])])
        r["stop_id"] = i
        r.pop("parent_station", None)
        if i in stations: r["location_type"] = "1"
        elif r.get("location_type") == "1": r.pop("location_type")
        if i not in stations:
            opt(rng, r, "location_type", ["0"], .2)
            if stations and rng.random() < .6: r["parent_station"] = rng.choice(stations)
        out["stops.txt"].append(r)
    plain = [i for i in sid if i not in stations]
    if not plain:
        out["stops.txt"][0].pop("location_type")
        plain = [sid[0]]
        stations.remove(sid[0])
        for r in out["stops.txt"]:
            if r.get("parent_station") == sid[0]: r.pop("parent_station")
    zones = sorted({r["zone_id"] for r in out["stops.txt"] if r.get("zone_id")})
    # routes
    out["routes.txt"] = []
    for i in ids(ROUTE, "routes.txt", "route_id"):
        def route():
            r = {"route_type": rng.choice(["0", "1", "3"])}
            opt(rng, r, "route_short_name", ["1", "N2"], .7); opt(rng, r, "route_color", ["FFFFFF", "00FFFF"], .4); opt(rng, r, "route_text_color", ["000000", "000011"], .4)
            opt(rng, r, "route_url", ["http://a.com/1", "http://b.org/2"], .4); opt(rng, r, "route_desc", TEXT[:2], .3); opt(rng, r, "note", TEXT, .2)
            if "route_short_name" not in r or rng.random() < .5: r["route_long_name"] = rng.choice(["Line x", "Ring"])
            return r
        r = base("routes.txt", "route_id", i, route, [("route_type", ["0", "3"]), ("route_color", ["FFFFFF", "00FFFF", ""]), ("route_text_color", ["000000", "000011", ""]),
                                                      ("route_url", ["http://a.com/1", ""]), ("route_long_name", ["Line x", "Ring"]), ("route_desc", TEXT[:2])])
        r["route_id"] = i
        if r.get("agency_id") not in aid or rng.random() < .2: r.pop("agency_id", None)
        if "agency_id" not in r and aid != [""] and (len(aid) > 1 or rng.random() < .5): r["agency_id"] = rng.choice(aid)
        out["routes.txt"].append(r)
    rid = [r["route_id"] for r in out["routes.txt"]]
    # calendars
    wid = ids(SERVICE, "calendar.txt", "service_id")
    out["calendar.txt"], out["calendar_dates.txt"] = [], []
    lo, hi = days
    for i in wid:
        whole = rng.random() < .75
        if whole:
            a = rng.randrange(lo, hi + 1)
            b = rng.randrange(a, hi + 1)
            r = {"service_id": i, "start_date": date(a), "end_date": date(b)}
            for d in DOW: r[d] = rng.choice(["0", "1", "1"])
            if all(r[d] == "0" for d in DOW): r["monday"] = "1"
            out["calendar.txt"].append(r)
        n = rng.choice([0, 0, 1, 2, 3]) if whole else rng.choice([1, 2, 3])
        for k in sorted(rng.sample(range(lo, hi + 1), min(n, hi - lo + 1))):
            out["calendar_dates.txt"].append({"service_id": i, "date": date(k), "exception_type": rng.choice(["1", "1", "2"])})
        if not whole: out["calendar_dates.txt"][-1]["exception_type"] = "1"
    # fares
    if rng.random() < .75:
        out["fare_attributes.txt"], out["fare_rules.txt"] = [], []
        for i in ids(FARE, "fare_attributes.txt", "fare_id"):
            def fare():
                r = {"price": rng.choice(["1.5", "2"]), "currency_type": rng.choice(["USD", "EUR"]), "payment_method": rng.choice(["0", "1"])}
                opt(rng, r, "transfers", ["0", "1", "2"]); opt(rng, r, "transfer_duration", ["0", "3600"], .4)
                return r
            r = base("fare_attributes.txt", "fare_id", i, fare, [("price", ["1.5", "1.50", "2"]), ("currency_type", ["USD"]), ("payment_method", ["0", "1"]), ("transfers", ["0", "1", ""]), ("transfer_duration", ["3600", ""])])
            r["fare_id"] = i
            out["fare_attributes.txt"].append(r)
            for _ in range(rng.choice([0, 1, 2])):
                x = {"fare_id": i}
                opt(rng, x, "route_id", rid)
                if zones:
                    for c in ("origin_id", "destination_id", "contains_id"): opt(rng, x, c, zones, .4)
                if x not in out["fare_rules.txt"]: out["fare_rules.txt"].append(x)
    # shapes
    sh = ids(SHAPE, "shapes.txt", "shape_id") if rng.random() < .7 else []
    out["shapes.txt"] = []
    for i in sh:
        old = [dict(r) for r in o.get("shapes.txt", []) if r["shape_id"] == i]
        if old and rng.random() < like:
            if rng.random() < .4:
                x = rng.choice([old[0], old[-1]])
                x["shape_pt_lat"] = deg(1500000 + rng.choice(STEPS))
            elif rng.random() < .3 and len(old) > 2: del old[1]
            pts = old
        else:
            pts, dist = [], rng.random() < .5
            for k in range(rng.choice([1, 2, 3, 4])):
                r = {"shape_id": i, "shape_pt_lat": deg(1500000 + rng.choice(STEPS)), "shape_pt_lon": deg(1300000 + 200 * k + rng.choice([0, 0, 20])), "shape_pt_sequence": str(2 * k + rng.choice([0, 1]))}
                if dist: r["shape_dist_traveled"] = rng.choice(["%d" % (10 * k), "%d.25" % (10 * k)])
                pts.append(r)
        out["shapes.txt"] += pts
    sh = sorted({r["shape_id"] for r in out["shapes.txt"]})
    # trips
    out["trips.txt"], out["stop_times.txt"], out["frequencies.txt"] = [], [], []
    for i in ids(TRIP, "trips.txt", "trip_id"):
        r = {"trip_id": i, "route_id": rng.choice(rid), "service_id": rng.choice(wid)}
        opt(rng, r, "trip_headsign", TEXT); opt(rng, r, "direction_id", ["0", "1"]); opt(rng, r, "block_id", ["b1", "a_b1", "b2"], .4); opt(rng, r, "note", TEXT, .2)
        opt(rng, r, "original_trip_id", ["t0"], .1); opt(rng, r, "wheelchair_accessible", ["0", "1"], .2)
        if sh: opt(rng, r, "shape_id", sh, .6)
        out["trips.txt"].append(r)
        at = rng.choice([0, 5, 6, 23, 25]) * 3600
        n = rng.randrange(2, 5)
        last = None
        for k in range(n):
            i2 = rng.choice(plain)
            q = {"trip_id": i, "stop_id": i2, "stop_sequence": str(k * rng.choice([1, 2]) if k == 0 else int(out["stop_times.txt"][-1]["stop_sequence"]) + rng.choice([1, 1, 3]))}
            at += rng.choice([600, 1200])
            if k in (0, n - 1) or rng.random() < .6:
                q["arrival_time"] = "%d:%02d:%02d" % (at // 3600, at // 60 % 60, at % 60)
                q["departure_time"] = q["arrival_time"] if rng.random() < .6 else "%d:%02d:%02d" % ((at + 60) // 3600, (at + 60) // 60 % 60, (at + 60) % 60)
            opt(rng, q, "stop_headsign", TEXT, .3); opt(rng, q, "pickup_type", ["0", "1", "2", "3"], .3); opt(rng, q, "drop_off_type", ["0", "2"], .3); opt(rng, q, "timepoint", ["0", "1"], .3)
            out["stop_times.txt"].append(q)
        if rng.random() < .3:
            h = 5
            for _ in range(rng.choice([1, 1, 2])):
                f = {"trip_id": i, "start_time": "%02d:00:00" % h, "end_time": "%02d:30:00" % h, "headway_secs": rng.choice(["600", "61"])}
                opt(rng, f, "exact_times", ["0", "1"])
                out["frequencies.txt"].append(f)
                h += rng.choice([1, 20])
    # transfers
    out["transfers.txt"], seen = [], set()
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        x = {"from_stop_id": rng.choice(sid), "to_stop_id": rng.choice(sid), "transfer_type": rng.choice(["0", "1", "2", "3"])}
        if (x["from_stop_id"], x["to_stop_id"]) in seen: continue
        seen.add((x["from_stop_id"], x["to_stop_id"]))
        if x["transfer_type"] == "2": opt(rng, x, "min_transfer_time", ["60", "3000"])
        opt(rng, x, "note", TEXT, .2)
        out["transfers.txt"].append(x)
    return out

def twin(rng, other, days, moved):
    """The other feed again, moved by so many days, with a few things changed."""
    out = {f: [dict(r) for r in rows] for f, rows in other.items()}
    def later(d): return (datetime.datetime.strptime(d, "%Y%m%d") + datetime.timedelta(moved)).strftime("%Y%m%d")
    for f, rows in out.items():
        for r in rows:
            for c in ("start_date", "end_date", "date"):
                if c in r: r[c] = later(r[c])
    T = {"agency.txt": [("agency_name", TEXT), ("agency_url", ["http://a.com", "http://b.org"]), ("agency_phone", TEXT + [""])],
         "stops.txt": [("stop_name", NAMES), ("stop_name", ["Otherwise"]), ("zone_id", ZONE + [""]), ("stop_lat", None), ("stop_desc", TEXT)],
         "routes.txt": [("route_type", ["0", "1", "3"]), ("route_long_name", ["Line x", "Ring"]), ("route_url", ["http://a.com/1", "http://c.org", ""]), ("route_color", ["FFFFFF", "00FFFF", ""])],
         "fare_attributes.txt": [("price", ["1.5", "2"]), ("transfers", ["0", "1", "2", ""]), ("transfer_duration", ["3600", ""])],
         "shapes.txt": [("shape_pt_lat", None)], "trips.txt": [("trip_id", ["t7", "t8", "t9"]), ("block_id", ["b1", "b2", ""])]}
    for _ in range(rng.choice([1, 1, 2, 3])):
        f = rng.choice(["agency.txt"] + ["stops.txt"] * 4 + ["routes.txt", "fare_attributes.txt", "shapes.txt", "trips.txt"])
        rows = out.get(f, [])
        if f == "stops.txt" and rng.random() < .5: rows = [r for r in rows if any(x.get("parent_station") == r["stop_id"] for x in rows)] or rows
        if not rows: continue
        r = rng.choice(rows)
        c, vs = rng.choice(T[f])
        if vs is None: v = deg(int(round(float(r[c]) * 10**6)) + rng.choice([100, 300, 5000]))
        else: v = rng.choice(vs)
        if f == "shapes.txt" and v == r[c]: continue
        if c == "trip_id":
            if any(x["trip_id"] == v for x in rows): continue
            for g in ("stop_times.txt", "frequencies.txt"):
                for x in out.get(g, []):
                    if x["trip_id"] == r["trip_id"]: x["trip_id"] = v
        if v == "": r.pop(c, None)
        else: r[c] = v
        if c == "zone_id":
            zones = {x["zone_id"] for x in rows if x.get("zone_id")}
            for x in out.get("fare_rules.txt", []):
                for k in ("origin_id", "destination_id", "contains_id"):
                    if x.get(k) and x[k] not in zones: x.pop(k)
            out["fare_rules.txt"] = [x for k, x in enumerate(out.get("fare_rules.txt", [])) if x not in out["fare_rules.txt"][:k]]
    return out

REQ = {"agency.txt": "agency_name agency_url agency_timezone", "stops.txt": "stop_id stop_name stop_lat stop_lon", "routes.txt": "route_id route_short_name route_long_name route_type",
       "trips.txt": "route_id service_id trip_id", "stop_times.txt": "trip_id arrival_time departure_time stop_id stop_sequence", "calendar.txt": "service_id start_date end_date " + " ".join(DOW),
       "calendar_dates.txt": "service_id date exception_type", "fare_attributes.txt": "fare_id price currency_type payment_method transfers", "fare_rules.txt": "fare_id",
       "frequencies.txt": "trip_id start_time end_time headway_secs", "transfers.txt": "from_stop_id to_stop_id transfer_type", "shapes.txt": "shape_id shape_pt_lat shape_pt_lon shape_pt_sequence"}
BLANKABLE = {"stops.txt": ["zone_id", "parent_station", "location_type"], "routes.txt": ["agency_id", "route_url", "route_color", "route_text_color"], "trips.txt": ["block_id", "shape_id"],
             "agency.txt": ["agency_id", "agency_phone"], "fare_attributes.txt": ["transfer_duration"], "fare_rules.txt": ["route_id", "origin_id"], "stop_times.txt": ["timepoint", "pickup_type"]}

def files(rng, feed):
    """The tables with headings; columns without values are there or not."""
    out = {}
    for f, rows in feed.items():
        if not rows and f not in ("stop_times.txt",): continue
        cols = REQ[f].split() + sorted({c for r in rows for c in r} - set(REQ[f].split()))
        for c in BLANKABLE.get(f, []):
            if c not in cols and rng.random() < .4: cols.append(c)
        out[f] = [cols] + [[r.get(c, "") for c in cols] for r in rows]
    return out
