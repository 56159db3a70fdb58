from fw import *
import feedgen

# sound values only; numbers to full precision, zeros, late times, awkward texts
TEXT = ["Alpha", "Zürich HB", "a, b", 'say "x"', "東京", "0", "x y", "a;b", "'", '"', "\\", "None", "é\"é,é", "1.0", "007", "😀", "a\tb", "#x", "=1+1"]
VALS = dict(feedgen.VOC)
VALS.update({
    "lat": (["46.5", "-33", "46.501", "46.12345678901234", "47.3769", "-1.5", "46.50000000000001", "89.999999999"], []),
    "lon": (["8.2", "8.3000000000000007", "-118.25", "179.999", "0.0", "8.123456789012345", "-120.1234567"], []),
    "dist": (["0", "0.0", "1", "2.5", "1000", "0.1", "1234567.891", "12345.678901234567", "100000000"], []),
    "price": (["0", "1.5", "2", "10.25", "0.1", "1234567.89", "0.333333333333333"], []),
    "time": (["00:00:00", "05:00:00", "6:30:00", "24:10:00", "99:59:59", "120:00:01"], []),
    "text": (TEXT + [""], []), "name": (TEXT, []),
})
SETTABLE = {"agency.txt": ["agency_name", "agency_phone", "agency_lang", "note"], "stops.txt": ["stop_name", "stop_desc", "stop_code", "zone_id", "note", "wheelchair_boarding", "stop_lat"],
            "routes.txt": ["route_long_name", "route_desc", "route_color", "note", "bikes_allowed"],
            "trips.txt": ["trip_headsign", "block_id", "direction_id", "note", "trip_short_name", "wheelchair_accessible"], "feed_info.txt": ["feed_version", "note"]}
KEEPNOT = {"calendar.txt", "calendar_dates.txt", "stop_times.txt", "frequencies.txt", "shapes.txt", "fare_attributes.txt", "fare_rules.txt"}

def number(t):
    m = re.match(r"(\d+):(\d\d):(\d\d)\Z", t, re.A)
    if m: return float(int(m[1]) * 3600 + int(m[2]) * 60 + int(m[3])).hex()
    return float(t).hex() if re.match(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\Z", t, re.A) else ""

def value(v):
    t = str(v)
    return dict(t=t, h=number(t), n=int(t) if re.match(r"\d{1,8}\Z", t, re.A) else 0)

import re

def feed(rng, size=5):
    old = feedgen.VOC
    feedgen.VOC = VALS
    try: files = feedgen.feed(rng, 0, size=size)
    finally: feedgen.VOC = old
    return distinct(rng, files)

def distinct(rng, files):
    """No two rows alike, and no values that loading changes or rejects."""
    if "fare_attributes.txt" not in files: files.pop("fare_rules.txt", None)
    if "agency_id" not in files["routes.txt"][0]: files["agency.txt"] = [files["agency.txt"][0]] + [r for r in files["agency.txt"][1:] if r][:1]
    late = rng.choice([0, 0, 0, 18, 95, 200])     # hours
    for f, t in files.items():
        head = [h.strip() for h in t[0]]
        at = {h: i for i, h in enumerate(head)}
        seen, out = set(), [t[0]]
        for k, r in enumerate(x for x in t[1:] if x):
            r = [v.strip() for v in r]
            for h, v in zip(head, r):      # tables that keep no columns of their own
                if h not in feedgen.KIND and h not in feedgen.IDKIND and f in KEEPNOT: r[at[h]] = ""
            if f == "transfers.txt" and r[at["transfer_type"]] != "2" and "min_transfer_time" in at: r[at["min_transfer_time"]] = ""
            if f == "stops.txt" and "parent_station" in at and "location_type" in at and r[at["location_type"]] == "1": r[at["parent_station"]] = ""
            if f == "routes.txt" and "agency_id" in at and "agency_id" not in files["agency.txt"][0]: r[at["agency_id"]] = ""
            if f == "stop_times.txt" and late:
                for c in ("arrival_time", "departure_time"):
                    if r[at[c]]: r[at[c]] = "%d%s" % (int(r[at[c]].split(":")[0]) + late, r[at[c]][2:])
            if f in ("stop_times.txt", "shapes.txt"):
                c = "stop_sequence" if f[0:2] == "st" else "shape_pt_sequence"
                r[at[c]] = str(k * rng.choice([1, 1, 2, 3]) + rng.choice([0, 0, 1])) if rng.random() < .5 else str(k)
            key = {"calendar_dates.txt": ("service_id", "date"), "stop_times.txt": ("trip_id", "stop_sequence"), "shapes.txt": ("shape_id", "shape_pt_sequence")}.get(f)
            if f == "shapes.txt": r[at["shape_id"]] = r[at["shape_id"]] or "h1"
            own = feedgen.OWN.get(f)
            key = (r[at[own]],) if own in at else tuple(r[at[c]] for c in key) if key else tuple((number(v) or v) if v or h not in ("transfer_type", "exact_times") else number("0") for h, v in zip(head, r))
            if f == "feed_info.txt": key = 0
            if key in seen: continue
            seen.add(key)
            out.append(r)
        files[f] = out
    return files

def plain(r):
    return {c: v for c, v in r.items() if v != ""}

def edits(rng, rows, n):
    """Changes to the entities of rows [f, r]."""
    out = []
    for _ in range(n):
        own = [x for x in rows if x["f"] in SETTABLE and (x["f"] == "feed_info.txt" or x["r"].get(feedgen.OWN[x["f"]]))]
        if not own: return out
        x = rng.choice(own)
        f, c = x["f"], rng.choice(SETTABLE[x["f"]])
        good = VALS[feedgen.KIND[c]][0] if c in feedgen.KIND else ["z1", "z9", ""] if c == "zone_id" else TEXT + [""]
        v = rng.choice(good)
        if c in ("agency_name", "stop_name", "stop_lat", "route_long_name", "agency_lang") and v == "": continue
        if c == "route_long_name": v = "Line " + v
        if c in ("stop_desc", "route_desc") and v: v = "About " + v
        if c == "stop_lat": v = float(v)
        elif c in ("wheelchair_boarding", "bikes_allowed", "direction_id", "wheelchair_accessible") and v and rng.random() < .4: v = int(v)
        elif c == "note" and rng.random() < .4: v = rng.choice([0, 5, 0.0, 2.5])
        elif v == "" and rng.random() < .5: v = None
        if c == "stop_lat" and any(y["f"] == "transfers.txt" for y in rows): continue
        if c == "zone_id" and any(y["f"] == "fare_rules.txt" for y in rows): continue
        out.append(dict(op="set", f=f, key=x["r"].get(feedgen.OWN.get(f), ""), c=c, v=v, look=rng.random() < .5))
    return out

def store(rng):
    return [dict(op="write", how=rng.choice(["path", "path", "file", "mem"])), dict(op="reload", form=rng.choice(["zip", "zip", "dir"]), mem=rng.random() < .6)]

class Loaded(Part):
    """A feed is loaded, written and loaded again, with edits in between."""
    name, driver, trace = "loaded", "store", "StoreTrace"
    mc = [("StoreMC", "StoreMC.cfg")]
    mc_thorough = [("StoreMC", "StoreMC2.cfg")]
    case_timeout = 120

    def gen(self, rng):
        return [self.one(rng) for _ in range(130 if self.quick else 3000)]

    def one(self, rng):
        files = feed(rng, rng.choice([3, 5, 8]))
        rows = [dict(f=x["f"], r=x["r"]) for x in feedgen.rows_of(files)]
        ops = [dict(op="load", mem=rng.random() < .6, rows=[dict(f=x["f"], r={c: value(v) for c, v in x["r"].items() if c in feedgen.KIND or c in feedgen.IDKIND or x["f"] not in feedgen.WHOLE | {"shapes.txt", "frequencies.txt"}}) for x in rows])]
        if rng.random() < .4: ops += edits(rng, rows, rng.randrange(1, 6))
        for _ in range(rng.choice([1, 2, 2, 2, 3])):
            ops += store(rng)
            if rng.random() < .25: ops += edits(rng, rows, rng.randrange(1, 4))
        ops.append(dict(op="write", how="path"))
        return dict(files=files, zip=rng.random() < .4, nl=rng.choice(["\n", "\r\n"]), ops=ops)

    def nontrivial(self, log):
        return len(log["ev"]) > 2

class Built(Part):
    """A schedule is built through the interface, written and loaded."""
    name, driver, trace = "built", "store", "StoreTrace"
    case_timeout = 120

    def gen(self, rng):
        return [self.one(rng) for _ in range(110 if self.quick else 2500)]

    def one(self, rng):
        files = feed(rng, rng.choice([3, 5]))
        rows = [dict(f=x["f"], r=plain(x["r"])) for x in feedgen.rows_of(files)]
        rank = {f: i for i, f in enumerate(["agency.txt", "calendar.txt", "calendar_dates.txt", "shapes.txt", "stops.txt", "routes.txt", "trips.txt", "stop_times.txt",
                                            "fare_attributes.txt", "fare_rules.txt", "frequencies.txt", "transfers.txt", "feed_info.txt"])}
        rows.sort(key=lambda x: rank[x["f"]])
        in_order = rng.random() < .5
        if in_order:
            pts = sorted((x for x in rows if x["f"] == "shapes.txt"), key=lambda x: int(x["r"]["shape_pt_sequence"]))
            at = [i for i, x in enumerate(rows) if x["f"] == "shapes.txt"]
            for i, x in zip(at, pts): rows[i] = x
        shape_n, stop_n = {}, {}
        services = {x["r"]["service_id"] for x in rows if x["f"] in ("calendar.txt", "calendar_dates.txt")}
        ops = [dict(op="new", mem=rng.random() < .6)]
        for x in rows:
            f, r = x["f"], self.typed(rng, x["f"], x["r"])
            if f in ("calendar.txt", "fare_attributes.txt", "fare_rules.txt"):
                r = {c: v for c, v in r.items() if c in feedgen.KIND or c in feedgen.IDKIND}
            how = rng.random() < .5
            if f == "trips.txt" and r["service_id"] not in services: how = False
            if f == "transfers.txt" and any(c not in feedgen.KIND and c not in feedgen.IDKIND for c in r): how = False
            if f == "shapes.txt" and not in_order: how = False
            eff = dict(r)
            if f == "shapes.txt":
                if not how and r["shape_id"] in shape_n and int(r["shape_pt_sequence"]) in shape_n[r["shape_id"]]: how = True
                q = shape_n.setdefault(r["shape_id"], [])
                n = (max(q) + 1 if q else 0) if how else int(r["shape_pt_sequence"])
                q.append(n)
                eff["shape_pt_sequence"] = n
            if f == "stop_times.txt":     # stop times are numbered as they are added
                stop_n[r["trip_id"]] = eff["stop_sequence"] = stop_n.get(r["trip_id"], 0) + 1
                if how: del r["stop_sequence"]
            if f in ("stop_times.txt", "frequencies.txt", "shapes.txt"):
                for c in [c for c in r if c not in feedgen.KIND and c not in feedgen.IDKIND]: del r[c], eff[c]
            ops.append(dict(op="add", f=f, r=r, eff=eff, how=how, look=rng.random() < .03))
        if rng.random() < .5: ops += edits(rng, rows, rng.randrange(1, 6))
        ops += store(rng) + [dict(op="write", how="path")]
        if rng.random() < .3: ops += edits(rng, rows, 2) + store(rng)
        return dict(ops=ops, files=files, zip=False, nl="\n")

    def typed(self, rng, f, r):
        """Values as texts or, where the interface takes them, as numbers."""
        out = {}
        for c, v in r.items():
            k = feedgen.KIND.get(c)
            if k in ("lat", "lon", "dist") and rng.random() < .5 and f != "shapes.txt": v = float(v)
            elif k == "dist" and f == "shapes.txt" and rng.random() < .5: v = float(v)
            elif f == "stop_times.txt" and c in ("pickup_type", "drop_off_type", "timepoint") and rng.random() < .5: v = int(v)
            elif f == "routes.txt" and c == "route_type" and rng.random() < .5: v = int(v)
            elif f == "fare_attributes.txt" and k in ("price", "pay", "trn", "dur") and rng.random() < .5: v = float(v) if k == "price" else int(v)
            elif f == "frequencies.txt" and c in ("headway_secs", "exact_times"): v = int(v)
            elif c in ("stop_sequence", "shape_pt_sequence"): v = int(v)
            out[c] = v
        return out

class Text(Part):
    """Rows as characters of a file."""
    name, driver, trace = "text", "csv", "CsvTrace"
    mc = [("CsvMC", "CsvMC.cfg")]
    mc_thorough = [("CsvMC", "CsvMC2.cfg")]

    def gen(self, rng):
        n = 60 if self.quick else 2000
        ab = [97, 44, 34, 32, 233, 0x6771, 59, 39, 9, 92, 48, 0x1F600, 0x2028, 124]
        def cell():
            return [rng.choice(ab) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 6]))]
        def strip(v):     # cells are kept without surrounding blanks
            while v and v[0] in (32, 9): v = v[1:]
            while v and v[-1] in (32, 9): v = v[:-1]
            return v
        return [dict(rows=[[strip(cell()) for _ in range(rng.randrange(1, 5))] for _ in range(rng.randrange(1, 7))], many=rng.random() < .3) for _ in range(n)]

PARTS = [Loaded, Built, Text]
ASSUMPTIONS = ["Cells hold no line breaks and no surrounding blanks (loading strips them), and no two rows of a table are alike.",
               "The sequence numbers of shape points may be renumbered on writing; only their order is compared.",
               "Fare tables, calendars, stop times, frequencies and shapes have no columns of their own beyond the standard ones (they are not kept)."]
