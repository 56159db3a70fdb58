"""Feeds for the loader checks: generation, their rows and the lexical facts about their texts."""
import datetime, re

ORDER = ["calendar.txt", "calendar_dates.txt", "shapes.txt", "agency.txt", "stops.txt", "routes.txt", "transfers.txt", "trips.txt",
         "fare_attributes.txt", "fare_rules.txt", "frequencies.txt", "feed_info.txt", "stop_times.txt"]
REQ = {"agency.txt": "agency_name agency_url agency_timezone", "stops.txt": "stop_id stop_name stop_lat stop_lon",
       "routes.txt": "route_id route_short_name route_long_name route_type", "trips.txt": "route_id service_id trip_id",
       "stop_times.txt": "trip_id arrival_time departure_time stop_id stop_sequence",
       "calendar.txt": "service_id start_date end_date monday tuesday wednesday thursday friday saturday sunday",
       "calendar_dates.txt": "service_id date exception_type", "fare_attributes.txt": "fare_id price currency_type payment_method transfers",
       "fare_rules.txt": "fare_id", "frequencies.txt": "trip_id start_time end_time headway_secs",
       "transfers.txt": "from_stop_id to_stop_id transfer_type", "shapes.txt": "shape_id shape_pt_lat shape_pt_lon shape_pt_sequence",
       "feed_info.txt": "feed_publisher_name feed_publisher_url feed_lang"}
OPT = {"agency.txt": "agency_id agency_lang agency_phone agency_fare_url agency_email",
       "stops.txt": "stop_desc zone_id stop_url stop_code location_type parent_station stop_timezone wheelchair_boarding",
       "routes.txt": "agency_id route_desc route_url route_color route_text_color bikes_allowed",
       "trips.txt": "trip_headsign trip_short_name direction_id block_id shape_id bikes_allowed wheelchair_accessible original_trip_id",
       "stop_times.txt": "stop_headsign pickup_type drop_off_type shape_dist_traveled timepoint", "calendar.txt": "", "calendar_dates.txt": "",
       "fare_attributes.txt": "transfer_duration", "fare_rules.txt": "route_id origin_id destination_id contains_id", "frequencies.txt": "exact_times",
       "transfers.txt": "min_transfer_time", "shapes.txt": "shape_dist_traveled", "feed_info.txt": "feed_start_date feed_end_date feed_version"}
DEP = {"agency.txt": "agency_ticket_url", "feed_info.txt": "feed_valid_from feed_valid_until feed_timezone"}
for _t in (REQ, OPT, DEP):
    for _k in _t: _t[_k] = _t[_k].split()
WHOLE = {"calendar.txt", "calendar_dates.txt", "stop_times.txt"}    # tables whose short rows are filled with blanks
OBLIGATORY = ["agency.txt", "stops.txt", "routes.txt", "trips.txt", "stop_times.txt"]

TZ = {"America/Los_Angeles", "Europe/Zurich", "Asia/Tokyo", "UTC"}
LANG = {"en", "de", "fr", "ja"}
CUR = {"USD", "EUR", "CHF"}
DAY0 = datetime.date(1900, 1, 1).toordinal()
BIG = 2000000000


def _int(t):
    return int(t) if re.match(r"[+-]?\d+\Z", t, re.A) else None


def _float(t):
    if not re.match(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\Z", t, re.A): return None
    v = float(t)
    return v if abs(v) < 1e300 else None


def facts(t):
    f = _float(t)
    i = _int(t)
    m = re.match(r"(\d{1,3}):([0-5]\d):([0-5]\d)\Z", t, re.A)
    d, dn = "bad", 0
    if re.match(r"\d{8}\Z", t, re.A):
        try:
            x = datetime.date(int(t[:4]), int(t[4:6]), int(t[6:]))
            d, dn = ("ok" if 1900 <= x.year <= 2100 else "out"), x.toordinal() - DAY0
        except ValueError: pass
    return dict(f="bad" if f is None else "ok" if re.match(r"[+-]?\d+(\.\d+)?\Z", t, re.A) else "odd",
                m=0 if f is None else max(-BIG, min(BIG, round(f * 1000))),
                n="bad" if i is None or i < 0 else "ok" if re.match(r"(?:0|[1-9]\d*)\Z", t, re.A) else "odd",
                i="bad" if i is None else "ok", v=0 if i is None else max(-BIG, min(BIG, i)),
                s=int(m.group(1)) * 3600 + int(m.group(2)) * 60 + int(m.group(3)) if m else -1,
                d=d, dn=dn, url=t.startswith("http://") or t.startswith("https://"), tz=t in TZ, lang=t.lower() in LANG,
                mail=bool(re.match(r"[^@]+@[^@]+\.[^@]+", t)), cur=t in CUR,
                rgb=[int(t[k:k + 2], 16) for k in (0, 2, 4)] if re.match(r"[0-9a-fA-F]{6}\Z", t) else [],
                low=[ord(c) for c in t.lower()])


def rows_of(files):
    """The data rows of the tables in loading order."""
    out = []
    for f in ORDER:
        t = files.get(f)
        if not t: continue
        head = [h.strip() for h in t[0]]
        for n, raw in enumerate(t[1:], 2):
            if not raw: continue
            r = {h: v.strip() for h, v in zip(head, raw)}
            if f in WHOLE:
                r = {h: r.get(h, "") for h in head}
            out.append(dict(f=f, n=n, r=r, cnt="ok" if len(raw) == len(head) else "many" if len(raw) > len(head) else "few"))
    return out


def complete(case):
    """Adds the rows, headings and lexical facts to a case with files."""
    case["rows"] = rows_of(case["files"])
    case["lex"] = {t: facts(t) for x in case["rows"] for t in list(x["r"].values())}
    case["lex"][""] = facts("")
    case["heads"] = {f: [h.strip() for h in t[0]] for f, t in case["files"].items() if f in REQ and t}
    case["empty"] = [f for f, t in case["files"].items() if f in REQ and not t]
    case["odd"] = [f for f in case["files"] if f not in REQ]
    return case


# ---- values by column: sound ones and defective ones
TEXT = ["Alpha", "Zürich HB", "a, b", 'say "x"', "東京", "0", "x y", "Ring", "north"]
IDS = {"stop": ["s1", "s2", "s3", "S 4", "五"], "route": ["r1", "r2", "0"], "trip": ["t1", "t2", "t3", "T,4"], "service": ["w", "x", "0"],
       "fare": ["f1", "f2"], "shape": ["h1", "h2"], "zone": ["z1", "z2", "0"], "agency": ["a1", "a2"]}
BADNUM = ["abc", "1,5", "0x1", "--1", "1 2"]
VOC = {   # column: (sound values, defective values)
    "url": (["http://a.com", "https://b.org/ä"], ["www.a.com", "ftp://x", "HTTP://a.com"]),
    "tz": (["America/Los_Angeles", "Europe/Zurich"], ["Mars/Base", "EUROPE/ZURICH"]),
    "lang": (["en", "de", "FR"], ["xx9", "english"]),
    "mail": (["a@b.org"], ["a.b.org", "@b.org"]),
    "date": (["20260101", "20260630", "20261231", "20240229"], ["20260230", "2026-01-01", "soon", "20261301", "18991231", "21010101", "2026010"]),
    "yn": (["0", "1", "2", ""], ["3", "yes", "-1", "01"]),
    "day": (["0", "1", "1"], ["2", "x", "", "01"]),
    "lat": (["46.5", "47.1", "46.501", "-33", "0.5"], BADNUM + ["90.1", "-91", "4e1", "0", "", "46."]),
    "lon": (["8.2", "8.3", "-118.25", "0.0", "179.999"], BADNUM + ["180.5", "-181", "8e0", "0", "", ".5"]),
    "seq": (["0", "1", "2", "3", "5", "10"], ["x", "-1", "1.5", "", "007", "+3"]),
    "time": (["05:00:00", "6:30:00", "12:00:00", "24:10:00", "00:00:00", "25:59:59"], ["12:00", "12:60:00", "noon", "-1:00:00", "1200:00:00"]),
    "dist": (["0", "0.0", "1", "2.5", "1000"], ["-1", "far", "1e2", "1."]),
    "zero3": (["0", "1", "2", "3", ""], ["4", "x", "-1", "1.0"]),
    "zero1": (["0", "1", ""], ["2", "x", "-1"]),
    "rtype": (["0", "1", "2", "3", "7"], ["8", "bus", "-1", "", "03", "1.0", "100"]),
    "rgb": (["", "FFFFFF", "000000", "00ff00", "fefefe"], ["FFF", "GGGGGG", "#FFFFFF", "808080"]),
    "loc": (["", "0", "0", "1"], ["5", "x", "-1", "1.5"]),
    "price": (["0", "1.5", "2", "10.25"], ["-1", "free", ""]),
    "cur": (["USD", "EUR"], ["usd", "XXQ", ""]),
    "pay": (["0", "1"], ["2", "cash", "", "-1"]),
    "trn": (["", "0", "1", "2"], ["3", "x", "-1"]),
    "dur": (["", "0", "3600"], ["-5", "x", "1.5"]),
    "ttype": (["0", "1", "2", "3", ""], ["4", "x", "-2", "02"]),
    "mtime": (["", "", "0", "120"], ["x", "-5", "90000", "12000", "1.5"]),
    "head": (["600", "1", "3600"], ["0", "-60", "x", "", "1.5"]),
    "exc": (["1", "2"], ["0", "3", "", "add"]),
    "text": (TEXT + [""], []), "name": (TEXT, [""]),
}
KIND = {"agency_name": "name", "agency_url": "url", "agency_timezone": "tz", "agency_lang": "lang", "agency_phone": "text", "agency_fare_url": "url",
        "agency_ticket_url": "text", "agency_email": "mail",
        "stop_name": "name", "stop_lat": "lat", "stop_lon": "lon", "stop_desc": "text", "stop_url": "url", "stop_code": "text", "location_type": "loc",
        "stop_timezone": "tz", "wheelchair_boarding": "yn", "route_short_name": "text", "route_long_name": "text", "route_type": "rtype", "route_desc": "text",
        "route_url": "url", "route_color": "rgb", "route_text_color": "rgb", "bikes_allowed": "yn", "trip_headsign": "text", "trip_short_name": "text",
        "direction_id": "zero1", "block_id": "text", "wheelchair_accessible": "yn", "original_trip_id": "text", "arrival_time": "time", "departure_time": "time",
        "stop_sequence": "seq", "stop_headsign": "text", "pickup_type": "zero3", "drop_off_type": "zero3", "shape_dist_traveled": "dist", "timepoint": "zero1",
        "start_date": "date", "end_date": "date", "date": "date", "exception_type": "exc", "price": "price", "currency_type": "cur", "payment_method": "pay",
        "transfers": "trn", "transfer_duration": "dur", "start_time": "time", "end_time": "time", "headway_secs": "head", "exact_times": "zero1",
        "transfer_type": "ttype", "min_transfer_time": "mtime", "shape_pt_lat": "lat", "shape_pt_lon": "lon", "shape_pt_sequence": "seq",
        "feed_publisher_name": "name", "feed_publisher_url": "url", "feed_lang": "lang", "feed_start_date": "date", "feed_end_date": "date",
        "feed_version": "text", "feed_valid_from": "text", "feed_valid_until": "text", "feed_timezone": "text"}
for _d in "monday tuesday wednesday thursday friday saturday sunday".split(): KIND[_d] = "day"
IDKIND = {"agency_id": "agency", "stop_id": "stop", "zone_id": "zone", "parent_station": "stop", "route_id": "route", "trip_id": "trip", "service_id": "service",
          "shape_id": "shape", "fare_id": "fare", "from_stop_id": "stop", "to_stop_id": "stop", "origin_id": "zone", "destination_id": "zone", "contains_id": "zone"}
OWN = {"agency.txt": "agency_id", "stops.txt": "stop_id", "routes.txt": "route_id", "trips.txt": "trip_id", "calendar.txt": "service_id", "fare_attributes.txt": "fare_id"}
OPTIONAL_REF = {"zone_id", "parent_station", "shape_id", "origin_id", "destination_id", "contains_id"}
OPTIONAL_VALUE = {"url", "tz", "mail", "lang", "dist", "date", "time"}


def feed(rng, p, extra=True, size=5):
    """A feed as files of raw cells; p: how often a cell, row or table is defective."""
    hit = lambda q=1.0: rng.random() < p * q
    files = {}
    present = list(OBLIGATORY)
    for f, q in (("calendar.txt", .9), ("calendar_dates.txt", .6), ("shapes.txt", .6), ("fare_attributes.txt", .6), ("fare_rules.txt", .55),
                 ("frequencies.txt", .5), ("transfers.txt", .6), ("feed_info.txt", .4)):
        if rng.random() < q: present.append(f)
    if "calendar.txt" not in present and "calendar_dates.txt" not in present: present.append("calendar.txt")
    present = [f for f in present if not hit(.08)]
    n_ids = {k: rng.sample(v, rng.randrange(1, len(v) + 1)) for k, v in IDS.items()}
    n_ids["agency"] = n_ids["agency"][:1] if rng.random() < .6 else n_ids["agency"]
    for f in present:
        if hit(.03):
            files[f] = []
            continue
        cols = [c for c in REQ[f] if not hit(.06)] + [c for c in OPT[f] if rng.random() < .7] + [c for c in DEP.get(f, []) if hit(.5)]
        if extra and rng.random() < .2: cols.append(rng.choice(["note", "x_ref", "stop_colour"]))
        if not cols: cols = list(REQ[f])
        if not any(c in KIND or c in IDKIND for c in cols): cols.append(REQ[f][0])
        if f == "agency.txt" and "agency_id" not in cols and len(n_ids["agency"]) > 1: cols.append("agency_id")
        if rng.random() < .5: rng.shuffle(cols)
        t = [cols]
        if f in OWN:
            keys = list(n_ids[IDKIND[OWN[f]]])
            while hit(2) and len(keys) < 8: keys.insert(rng.randrange(len(keys) + 1), rng.choice(keys))
        else:
            keys = [None] * (1 if f == "feed_info.txt" and not hit(2) else rng.randrange(0 if f != "stop_times.txt" else 2, size + 1))
        seen = {}
        for i, key in enumerate(keys):
            row = []
            for c in cols:
                if c == OWN.get(f): v = key if not hit(.4) else rng.choice(["", "", key])
                elif c in IDKIND:
                    v = rng.choice(n_ids[IDKIND[c]]) if not hit() else rng.choice(["none", "", rng.choice(IDS[IDKIND[c]])])
                    if c in OPTIONAL_REF and rng.random() < .4: v = ""
                    if c == "parent_station" and rng.random() < .7: v = ""
                elif c in KIND:
                    good, bad = VOC[KIND[c]]
                    v = rng.choice(bad) if bad and hit() else rng.choice(good)
                    if c not in REQ[f] and KIND[c] in OPTIONAL_VALUE and rng.random() < .5: v = ""
                    if c == "route_long_name" and v == "": v = "Long " + (key or "x")
                    if KIND[c] == "seq" and not hit(): v = str(i + (0 if rng.random() < .8 else 3))
                else: v = rng.choice(TEXT + [""])
                row.append(v)
            if f == "stop_times.txt": _times(rng, cols, row, i, hit)
            if f == "calendar.txt" and not hit() and "start_date" in cols and "end_date" in cols:
                row[cols.index("start_date")], row[cols.index("end_date")] = rng.choice([("20260101", "20261231"), ("20260630", "20260630"), ("20240229", "20260101")])
            if f == "feed_info.txt" and not hit() and "feed_start_date" in cols and "feed_end_date" in cols:
                row[cols.index("feed_start_date")], row[cols.index("feed_end_date")] = rng.choice([("20260101", "20261231"), ("", "20260101"), ("20260101", "")])
            if f == "frequencies.txt" and not hit() and "start_time" in cols and "end_time" in cols:
                row[cols.index("start_time")], row[cols.index("end_time")] = rng.choice([("05:00:00", "06:00:00"), ("0:00:00", "26:00:00"), ("23:00:00", "24:30:00")])
            if hit(.25): row = row + [rng.choice(["", "more"])]
            elif hit(.25) and len(row) > 1: row = row[:rng.randrange(1, len(row))]
            if rng.random() < .03: t.append([])
            row = [" " * rng.randrange(2) + v + " " * rng.randrange(3) if rng.random() < .04 else v for v in row]
            t.append(row)
        files[f] = t
    if hit(.15): files[rng.choice(["extra.txt", "stop.txt", "STOPS.TXT"])] = [["a"], ["b"]]
    return files


def _times(rng, cols, row, i, hit):
    """Mostly increasing times."""
    if hit(): return
    a = 5 * 3600 + i * 600 + rng.choice([0, 60, 61])
    b = a + rng.choice([0, 0, 30, 300])
    if rng.random() < .2:
        a = b = None
    for c, v in (("arrival_time", a), ("departure_time", b)):
        if c in cols: row[cols.index(c)] = "" if v is None else "%02d:%02d:%02d" % (v // 3600, v // 60 % 60, v % 60)


def from_rows(rows, rng):
    """Files from a sequence of (file, cells) printed by FeedMC."""
    files = {f: [list(REQ[f])] for f in OBLIGATORY}
    for f, r in rows:
        cols = sorted(r)
        if rng.random() < .5 and (f not in files or len(files[f]) == 1): rng.shuffle(cols)
        if f not in files or len(files[f]) == 1: files[f] = [cols]
        files[f].append([r[c] for c in files[f][0]])
    return files


# ---- byte-level defects of tables (C04): the bytes of each table together with its lines for Reader.tla
WILD = ["nan", "inf", "-inf", "1e400", "1e-400", "99999999999", "9223372036854775808", "-9223372036854775809", "999:59:59", "00010101", "99991231",
        "19000101", "21001231", "\u00a0", "0x20", "1_0", "１２", "٣", "+-1", "-0", "-0.0", "1L", "1l", "True", "None", "0b1", "0777", "1e5", "1E5", "\u2028",
        "\ufeff", "\U0001F600", "%s", "%d", "{}", "' OR 1=1", "..", "/", "a" * 300, "-1", "0", "", "24:00:00", "5:00:00", "05:00:00 ", "b'x'", "[]", "\x01", "\x1a", "\x7f"]
ODD = ["nan", "inf", "-inf", "499:59:59", "00010101", "99991231", "19000101", "21001231", "\u00a0", "0x20", "1_0", "-0", "True", "None", "1e5",
       "\U0001F600", "%s", "%d", "{}", "' OR 1=1", "..", "/", "a" * 300, "-1", "0", "", "24:00:00", "5:00:00", "05:00:00 ", "[]", "\x01", "\x1a", "\x7f"]
MEMBERS = ["_schedule", "trips", "rules", "_trips", "_headways", "__class__", "GetTrips", "stop", "service_period", "points", "name", "_pattern_id", "schedule",
           "keys", "iteritems", "trip_index", "pattern_id", "AddToSchedule"]
SEPS = ["\x0c", "\u2028", "\u2029", "\u0085"]


def _quoted(v):
    if v != v.strip() or v == "" or any(ch in v for ch in ',"\r\n'): return '"' + v.replace('"', '""') + '"'
    return v


def break_table(rng, f, t, q):
    """The bytes and lines of a table of raw cells with byte-level defects; q: how often."""
    hit = lambda k=1.0: rng.random() < q * k
    pre = rng.choice(["bom", "bom", "utf16", "odd16"]) if hit(.5) else "none"
    crlf = "crlf" if rng.random() < .3 else "lf"
    if t and hit(.5):                                   # heading defects
        t = [list(r) for r in t]
        kind = rng.choice(["blank", "dup", "member", "none", "gone", "extra", "swap"])
        if kind in ("blank", "dup", "member", "extra"):
            at = rng.randrange(len(t[0]) + 1)
            name = {"blank": rng.choice(["", "  "]), "dup": rng.choice([h.strip() for h in t[0]]), "member": rng.choice(MEMBERS), "extra": "é"}[kind]
            for i, r in enumerate(t):
                if len(r) >= at and r: r.insert(at, name if i == 0 else rng.choice(["x", "", "1"]))
        elif kind == "none": t[0] = ["no%d" % i for i in range(len(t[0]))]
        elif kind == "gone": t = t[1:]
        elif len(t) > 1: t[0], t[1] = t[1], t[0]
    lines, body = [], []
    if t and hit(.1): t = [[]] + t
    for i, r in enumerate(t):
        x = dict(c=[v.strip() for v in r], sp=[], bad=[], end=crlf, seps=False, nul=False, cr=False, open=False)
        cells = []
        for j, v in enumerate(r):
            b = _quoted(v).encode()
            if i == 0:
                if v.strip() and v != v.strip(): x["sp"].append(j + 1)
                if v.strip() and v == v.strip() and hit(.05): b, x["sp"] = b + b" ", x["sp"] + [j + 1]
            plain = b == v.encode() and v
            if plain and i and pre in ("none", "bom") and hit(.06):
                b = v.encode() + rng.choice([b"\xff", b"\x80"])
                x["c"][j] = (v + "\ufffd").strip()
                x["bad"].append(j + 1)
            elif plain and i and hit(.03):
                k = rng.randrange(len(v))
                s = v[:k] + rng.choice(SEPS) + v[k:]
                b, x["c"][j], x["seps"] = s.encode(), s.strip(), True
            elif plain and len(v) > 1 and hit(.02):
                b, x["cr"], x["seps"] = v[:1].encode() + b"\r" + v[1:].encode(), True, True
            cells.append(b)
        if any(v == "" for v in r) and len(r) > 1:      # blanks are mostly not quoted
            cells = [b"" if c == b'""' and rng.random() < .8 else c for c in cells]
        if hit(.02) and r: cells[-1], x["nul"] = cells[-1] + b"\0", True
        if hit(.03): x["end"] = rng.choice(["other", "lf", "crlf"])
        if i == len(t) - 1 and rng.random() < .3: x["end"] = "none"
        lines.append(x)
        body.append(b",".join(cells))
    tail = ""
    ends = {"lf": b"\n", "crlf": b"\r\n", "other": b"\r\r\n", "none": b""}
    plainfrom = len(lines)
    while plainfrom and b'"' not in body[plainfrom - 1] and not lines[plainfrom - 1]["bad"]: plainfrom -= 1
    at = [i for i in range(plainfrom, len(lines)) if lines[i]["c"] and not lines[i]["cr"]]
    if at and hit(.15):
        i = rng.choice(at)
        k = rng.randrange(len(lines[i]["c"]))
        cells = body[i].split(b",")
        tail = (b",".join(cells[k:]) + b"".join(body[i + 1:])).decode().strip()
        body[i] = b",".join(cells[:k] + [b'"' + cells[k]] + cells[k + 1:])
        lines[i]["c"], lines[i]["open"] = lines[i]["c"][:k + 1], True
        lines[i]["sp"] = [j for j in lines[i]["sp"] if j <= k]
    data = b"".join(b + ends[x["end"]] for b, x in zip(body, lines))
    if not lines: pre = pre if pre == "bom" else "none"
    if pre == "bom": data = b"\xef\xbb\xbf" + data
    if pre in ("utf16", "odd16"): data = data.decode().encode("utf-16")
    if pre == "odd16": data += b"\x20"
    return data, dict(place="ok", pre=pre, lines=lines, tail=tail)


def broken(rng, files, q, k):
    """A case of C04: the files with byte-level defects, their lines and the lexical facts about the texts."""
    import base64
    raw, lines, dirs, spoil = {}, {}, [], []
    form = rng.choice(["dir", "zip"])
    for f, t in files.items():
        t = [[rng.choice(ODD) if i and rng.random() < q * .03 else v for v in r] for i, r in enumerate(t)]
        data, x = break_table(rng, f, t, q if rng.random() < .7 else 0)
        if f in ORDER and rng.random() < q * .05:
            if form == "dir":
                x["place"], data = "dir", None
                dirs.append(f)
            elif len(data) > 4:
                x["place"] = "damaged"
                spoil.append(f)
        if data is not None: raw[f] = base64.b64encode(data).decode()
        if f in REQ: lines[f] = x
    texts = {""} | {v for x in lines.values() for r in x["lines"] for v in r["c"]} | {x["tail"] for x in lines.values()}
    return dict(id="c%d" % k, raw=raw, form=form, dirs=dirs, spoil=spoil, lines=lines, lex={t: facts(t) for t in texts}, odd=[f for f in files if f not in REQ],
                extra=rng.random() < .5, mem=rng.random() < .7)


def wild(rng, k):
    """A case of C04 with arbitrary bytes: nothing but normal completion is expected."""
    import base64
    files = feed(rng, rng.choice([0, .02, .1, .3]))
    w = rng.choice([0, .01, .05, .3])
    raw = {}
    victim = rng.choice(list(files)) if files else None
    for f, t in files.items():
        t = [[rng.choice(WILD) if i and rng.random() < w else v for v in r] for i, r in enumerate(t)]
        if t and rng.random() < .06:
            for r in t: r.append(rng.choice(["x", "", "1"]))
            t[0][-1] = rng.choice(MEMBERS + ["", "  ", "é", "agency_id", "stop_id", "trip_id", "route_id", "stop_lat"])
        b = ("\n".join(",".join(_quoted(v) if v else v for v in r) or ('""' if r else "") for r in t) + ("\n" if rng.random() < .8 else "")).encode() if t else b""
        if f == victim and rng.random() < .7:
            m = rng.choice(["null", "utf16", "odd16", "bom", "bomonly", "bom2", "cr", "crlf", "mixed", "bytes", "bytes", "bytes", "quote", "quote", "only", "cronly", "nohead",
                            "blank", "trunc", "ff", "nel", "tail"])
            b = bytearray(b)
            p = rng.randrange(len(b) + 1)
            if m == "null": b[p:p] = b"\0"
            elif m == "utf16": b = bytes(b).decode().replace("\U0001F600", "x").encode("utf-16")
            elif m == "odd16": b = bytes(b).decode().replace("\U0001F600", "x").encode("utf-16") + b" "
            elif m == "bom": b = b"\xef\xbb\xbf" + b
            elif m == "bomonly": b = b"\xef\xbb\xbf"
            elif m == "bom2": b[p:p] = b"\xef\xbb\xbf"
            elif m == "cr": b[p:p] = b"\r"
            elif m == "crlf": b = bytes(b).replace(b"\n", b"\r\n")
            elif m == "mixed": b = bytes(b).replace(b"\n", b"\r\n", 2)
            elif m == "bytes":
                for _ in range(rng.randrange(1, 6)):
                    p = rng.randrange(len(b) + 1)
                    b[p:p + rng.randrange(2)] = bytes([rng.randrange(1, 256)])
            elif m == "quote":
                for _ in range(rng.randrange(1, 4)):
                    p = rng.randrange(len(b) + 1)
                    b[p:p] = b'"'
            elif m == "only": b = rng.choice([b" ", b"\n", b"\n\n", b"\r\n", b",", b'"', b'""', b"\t", b"\r", b"\x0c", b"\0"])
            elif m == "cronly": b = bytes(b).replace(b"\n", b"\r")
            elif m == "nohead": b = b"\n".join(bytes(b).split(b"\n")[1:])
            elif m == "blank": b = b"\n" + b
            elif m == "trunc": b = b[:p]
            elif m == "ff": b[p:p] = rng.choice([b"\x0c", b"\x0b", b"\x1c", b"\x85"])
            elif m == "nel": b = bytes(b).replace(b"\n", "\u2028".encode(), 1)
            elif m == "tail": b = b + rng.choice([b"\r", b"\n\r", b"\n\n\n", b"\x1a"])
            if bytes(b[:2]) in (b"\xff\xfe", b"\xfe\xff") and m not in ("utf16", "odd16"): b[:1] = b"x"
        raw[f] = base64.b64encode(bytes(b)).decode()
    form = rng.choice(["dir", "zip", "zip", "badzip"])
    return dict(id="c%d" % k, raw=raw, form=form, extra=rng.random() < .5, mem=rng.random() < .7, lex={"": facts("")}, odd=[],
                flips=[[rng.randrange(1 << 20), rng.randrange(256)] for _ in range(rng.randrange(4))], cut=rng.choice([0, 0, 1, 30, 200]),
                dirs=[rng.choice(ORDER)] if rng.random() < .05 else [])


def from_reader(rng, f, file, k):
    """A case of C04 from a table printed by ReaderMC, put into a sound feed."""
    import base64
    files = feed(rng, 0, size=4)
    case = broken(rng, files, 0, k)
    first = next((i for i, x in enumerate(file["lines"]) if x["open"]), len(file["lines"]))
    body = []
    for i, x in enumerate(file["lines"]):
        if i >= first or file["pre"] in ("utf16", "odd16"): x["bad"] = []
        if x["seps"] or x["cr"]: x["c"][0] = x["c"][0] + "k"
        cells = [v.encode() for v in x["c"]]
        if x["seps"]:
            s = rng.choice(SEPS)
            cells[0] = (x["c"][0][:1] + s + x["c"][0][1:]).encode()
            x["c"][0] = x["c"][0][:1] + s + x["c"][0][1:]
        if x["cr"]: cells[0], x["seps"] = cells[0][:1] + b"\r" + cells[0][1:], True
        for j in x["bad"]:
            cells[j - 1] += rng.choice([b"\xff", b"\x80"])
            x["c"][j - 1] += "\ufffd"
        for j in x["sp"]: cells[j - 1] += b" "
        if x["nul"]: cells[0] = b"\0" + cells[0]
        if i == first:
            file["tail"] = None
            cells[-1] = b'"' + cells[-1]
        body.append(b",".join(cells))
    if first < len(body):
        file["tail"] = (body[first].split(b'"', 1)[1] + b"".join(body[first + 1:])).decode().strip()
    data = b"".join(b + {"lf": b"\n", "crlf": b"\r\n", "other": b"\r\r\n"}[x["end"]] for b, x in zip(body, file["lines"]))
    if file["pre"] == "bom": data = b"\xef\xbb\xbf" + data
    if file["pre"] in ("utf16", "odd16"): data = data.decode().encode("utf-16")
    if file["pre"] == "odd16": data += b"\x20"
    if file["place"] == "dir":
        case["form"], case["dirs"] = "dir", [f]
        case["raw"].pop(f, None)
    else:
        case["raw"][f] = base64.b64encode(data).decode()
        if file["place"] == "damaged": case["form"], case["spoil"], case["dirs"] = "zip", [f], []
    case["lines"][f] = file
    for t in {v for x in file["lines"] for v in x["c"]} | {file["tail"]}: case["lex"][t] = facts(t)
    case["id"] = "s%d" % k
    return case
