from fw import *

ZONES = ["America/Los_Angeles", "Europe/Berlin", "Asia/Tokyo"]
NAMES = ["", "", "7", "7", "A", "a", "U7", "Nord", "NORD", "Ä1", "ä1", "Ring", "Express", "Long route name"]
LONGS = ["", "Ring", "ring", "7 Ring", "7-Ring", "7(Ring)", "7Ring", "7", "A", "a", "A line", "U7 Nord", "u7-süd", "U71 Nord", "Nord", "Ä1", "ä1 west", "The A", "Long route name here", "Long route name"]
DESCS = ["", "", "", "7", "Ring", "ring", "A", "Nord", "A slow line"]
COLOURS = ["", "", "FFFFFF", "000000", "ffffff", "00ff00", "8B0000", "0000FF", "767676", "484848", "494949", "B7B7B7", "B6B6B6", "FFFF00", "F00F0F", "4a4a4a"]
rgb = lambda t: [int(t[i:i + 2], 16) for i in (0, 2, 4)] if t else []
low = lambda t: t.strip().lower()

class Agreement(Part):
    """Feeds with several agencies, similar routes, similar trips and spare shapes: loaded, validated, edited, validated again."""
    name, driver, trace = "agreement", "consist", "ConsistTrace"
    mc = [("ConsistMC", "ConsistMC.cfg")]
    mc_thorough = [("ConsistMC", "ConsistMC2.cfg")]
    canary_within = ("names", "same", "mixed", "unused", "rows", "zones", "langs", "idless", "orphans")

    def route(self, rng, i, ags):
        r = dict(id="rt_%d" % i, short=rng.choice(NAMES), long=rng.choice(LONGS), desc=rng.choice(DESCS), ctext=rng.choice(COLOURS), ttext=rng.choice(COLOURS), type=rng.choice([1, 3, 1, 3, 0, 2, 7, 99 if rng.random() < .2 else 3]), agency="")
        if len(ags) > 1 or rng.random() < .7: r["agency"] = rng.choice([a["id"] for a in ags])
        return self.full(r)
    def full(self, r):
        return dict(r, slow=low(r["short"]), llow=low(r["long"]), colour=rgb(r["ctext"]), text=rgb(r["ttext"]))

    def case(self, rng):
        nag = rng.choice([1, 1, 2, 3])
        zone = rng.choice(ZONES)
        ags = [dict(id="ag_%d" % i, name="Firm_%d" % i, tz=zone if rng.random() < .7 else rng.choice(ZONES), lang=rng.choice(["", "en", "en", "de"])) for i in range(nag)]
        if rng.random() < .25: rng.choice(ags)["id"] = ""
        info = rng.random() < .7
        lang = rng.choice(["en", "de", "fr", "en"]) if info else ""
        routes = [self.route(rng, i, ags) for i in range(rng.choice([1, 2, 3, 4, 6]))]
        for i in range(1, len(routes)):
            if rng.random() < .3:
                o = rng.choice(routes[:i])
                routes[i].update(short=rng.choice([o["short"], o["short"].lower(), o["short"].upper()]), long=rng.choice([o["long"], o["long"].upper()]))
                routes[i] = self.full(routes[i])
        if len(routes) > 1 and rng.random() < .25:      # the same words, parted elsewhere
            words = [rng.choice(["A", "7", "Nord", "X y"]) for _ in range(3)]
            sep = rng.choice([" ", " ", "-", "", "|", ",", " - "])
            cuts = rng.sample(range(4), 2)
            for r, k in zip(rng.sample(range(len(routes)), 2), cuts):
                routes[r].update(short=sep.join(words[:k]), long=sep.join(words[k:]))
                routes[r] = self.full(routes[r])
        shared = rng.random() < .2                      # subways and buses at the same few stops
        if shared:
            for r in routes: r["type"] = rng.choice([1, 3])
        shapes = ["sh_%d" % i for i in range(rng.choice([0, 0, 1, 2, 3]))]
        ns = rng.choice([1, 2] if shared else [2, 3, 4])
        trips = []
        for i in range(rng.choice([3, 5, 8] if shared else [0, 1, 2, 4, 6])):
            t = dict(id="t%d" % i, route=rng.randrange(len(routes)) + 1, service=rng.choice(["FULLW", "FULLW", "OTHER"]), start=rng.choice([28800, 28800, 28860, 36000]), stops=[], shape=rng.randrange(len(shapes) + 1))
            if rng.random() > .06: t["stops"] = [rng.randrange(ns) + 1 for _ in range(rng.choice([1, 2, 2, 3]))]
            if trips and rng.random() < .5:
                o = rng.choice(trips)
                t.update({k: o[k] for k in rng.sample(["service", "start", "stops"], rng.choice([2, 3, 3]))})
            trips.append(t)
        w = dict(ags=ags, lang=lang, routes=routes, trips=trips, shapes=shapes, dups=rng.random() < .7)
        hms = lambda n: "%02d:%02d:00" % (n // 3600, n // 60 % 60)
        order = list(range(len(routes))); rng.shuffle(order)
        def mix(q): q = list(q); rng.shuffle(q); return q
        days = ["monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"]
        tables = {
            "agency.txt": [["agency_id", "agency_name", "agency_url", "agency_timezone", "agency_lang"]] + [[a["id"], a["name"], "http://example.com", a["tz"], a["lang"]] for a in ags],
            "stops.txt": [["stop_id", "stop_name", "stop_lat", "stop_lon"]] + [["s%d" % i, "Stop %d" % i, "%.3f" % (46 + i / 100), "8.5"] for i in range(ns)],
            "routes.txt": [["route_id", "agency_id", "route_short_name", "route_long_name", "route_desc", "route_type", "route_color", "route_text_color"]] + [[r["id"], r["agency"], r["short"], r["long"], r["desc"], r["type"], r["ctext"], r["ttext"]] for r in (routes[i] for i in order)],
            "calendar.txt": [["service_id"] + days + ["start_date", "end_date"]] + [[k] + [1] * 7 + ["20260101", "20271231"] for k in ("FULLW", "OTHER")],
            "trips.txt": [["route_id", "service_id", "trip_id", "shape_id"]] + mix([routes[t["route"] - 1]["id"], t["service"], t["id"], shapes[t["shape"] - 1] if t["shape"] else ""] for t in trips),
            "stop_times.txt": [["trip_id", "arrival_time", "departure_time", "stop_id", "stop_sequence"]] + mix([t["id"], hms(t["start"] + 600 * i), hms(t["start"] + 600 * i), "s%d" % (x - 1), i + 1] for t in trips for i, x in enumerate(t["stops"])),
        }
        if shapes: tables["shapes.txt"] = [["shape_id", "shape_pt_lat", "shape_pt_lon", "shape_pt_sequence"]] + [[k, "%.3f" % (46 + i / 50), "8.5", i] for k in shapes for i in (0, 1)]
        if info: tables["feed_info.txt"] = [["feed_publisher_name", "feed_publisher_url", "feed_lang"], ["P", "http://example.com", lang]]
        edits = [dict(op="validate", children=rng.random() < .5)]
        cur = dict(ags=[dict(a) for a in ags], routes=[dict(r) for r in routes], trips=[dict(t) for t in trips])
        for _ in range(rng.choice([0, 1, 2, 3])):
            k = rng.choice(["agency", "route", "route", "route", "trip", "feed"])
            if k == "agency":
                i = rng.randrange(len(ags)); a = cur["ags"][i]
                f, v = rng.choice([("tz", rng.choice(ZONES)), ("lang", rng.choice(["", "en", "de"]))])
                a = cur["ags"][i] = dict(a, **{f: v})
                edits.append(dict(op=k, at=i + 1, new=a, set=[[dict(tz="agency_timezone", lang="agency_lang")[f], v or None]]))
            elif k == "route":
                i = rng.randrange(len(routes)); r = cur["routes"][i]; o = rng.choice(cur["routes"])
                f, v = rng.choice([("short", o["short"]), ("short", rng.choice(NAMES)), ("long", o["long"]), ("long", rng.choice(LONGS)), ("desc", rng.choice(DESCS + [r["long"]])), ("ctext", rng.choice(COLOURS)), ("ttext", rng.choice(COLOURS)), ("agency", rng.choice(["nowhere"] + [a["id"] for a in ags]))])
                r = cur["routes"][i] = self.full(dict(r, **{f: v}))
                edits.append(dict(op=k, at=i + 1, new=r, set=[[dict(short="route_short_name", long="route_long_name", desc="route_desc", ctext="route_color", ttext="route_text_color", agency="agency_id")[f], v or None]]))
            elif k == "trip" and trips:
                i = rng.randrange(len(trips)); t = cur["trips"][i]
                if shapes and rng.random() < .6:
                    v = rng.randrange(len(shapes) + 1)
                    t = dict(t, shape=v); s = [["shape_id", shapes[v - 1] if v else None]]
                else:
                    v = rng.choice(["FULLW", "OTHER"])
                    t = dict(t, service=v); s = [["service_id", v]]
                cur["trips"][i] = t
                edits.append(dict(op=k, at=i + 1, new=t, set=s))
            elif k == "feed" and info:
                edits.append(dict(op=k, new=rng.choice(["", "en", "de", "fr"])))
            edits.append(dict(op="validate", children=rng.random() < .5))
        return dict(w=w, tables=tables, order=order, edits=edits)

    def gen(self, rng):
        return [self.case(rng) for _ in range(200 if self.quick else 6000)]

    def nontrivial(self, log):
        return any(e["op"] == "validate" and (e["o"]["names"] or e["o"]["same"] or e["o"]["mixed"]) for e in log["ev"])

PARTS = [Agreement]
ASSUMPTIONS = ["colours are well formed (C27) and values have no surrounding blanks; language codes are in lower case", "routes without any name are reported for that, whether or not they are also reported as sharing it", "which member of a group of alike routes or trips the others are compared with is left open"]
