from fw import *
import itertools
def P(s): return [ord(ch) for ch in s]
ZONES = ["America/Los_Angeles", "Europe/Zurich", "Asia/Tokyo", "UTC", "Africa/Nairobi", "Australia/Sydney", "Asia/Kolkata", "Pacific/Auckland"]
NOZONES = ["America/Los Angeles", "Mars/Phobos", "america/los_angeles", "Europe/Zurich2", "+01:00", "CEST!", "Europe", "Zürich"]
SEEDS = dict(
  time=["00:00:00", "9:05:07", "23:59:59", "24:00:00", "123:45:06", "999:59:59", "1000:00:00", "12:60:00", "12:00:60", "1:2:3", "12:34", "12:34:56:78", "-1:00:00", "+1:00:00", "12:34:5", ":00:00", "12.34.56", "12:34:56 ", "12:34:5x", "12:34:56\n", "\u0661\u0662:00:00", "12:34:56Z", "1 :00:00", "12::00:00"],
  date=["20240229", "20230229", "19000229", "20000229", "20241301", "20240001", "20240100", "20240431", "2024-01-01", "2024011", "202401011", "20240101\n", "00000101", "00010101", "99991231", "20241231", " 0240101", "\u0662\u0660240101", "2024O101", "18991231", "19000101", "21001231", "21010101"],
  color=["ffffff", "000000", "FFffFF", "fffffg", "fffff", "fffffff", "#ffffff", "ffffff\n", "12 456", "abcdef", "0x1234", "\uff11\uff11\uff11\uff11\uff11\uff11", "-12345", "+12345", "0000ff", "800000", "ff0000", "f3f3f3"],
  lang=["en", "EN", "De", "zh", "xx", "eng", "e", "en-US", "en_US", "english", "zz", "a1", "e n", "fr ", "\u00e9n"],
  url=["http://a", "https://a.b/c", "http:/a", "ftp://a", "HTTP://a", "http:", "www.a.com", "https:/a", "a http://b", "http://", "httpx://a", "https//a"],
  email=["a@b.c", "a@b", "@b.c", "a@.c", "a@b.", "a.b@c.d", "a b@c.d", "a@b.c.d", "a@@b.c", "a", "a@b@c.d", "a@b..c", "é@b.c", "a@b c.d", "a.b", "a@b.c@d"],
  tri=["0", "1", "2", "3", "-1", "00", "1.0", "yes", "a"],
  number=["0", "1", "10", "007", "-1", "+1", "-0", "1.0", "1.", ".5", "1e3", "1E-3", "0x10", "nan", "inf", "-inf", "Infinity", "1,5", "1 2", "1_0", "", "--1", "+", "-", ".", "e5", "1e", "2147483648", "99999999999", "1.5.2", "\u0661", "\uff11", "1L", "1j", "True", "None", "0.000001", "-0.5", "89.999999", "90", "90.0", "90.000001", "-90", "-90.5", "180", "180.0", "-180.000001", "181", "1e2", "000090", "123456", "1000000000000000000000", "5 ", " 5", "5\n", "0b1", "1e400", "3", "4", "5", "7", "8", "12"],
  text=["x", "name", "Zürich"])
ALPH = dict(time="0159:: ", date="0123489", color="09aFg", lang="ende-", url="htps:/", email="ab@.@.", tri="012 ", number="0159.+-e ", text="ab")
F = []
def add(file, cols, kind, req, alpha): F.append((file, cols.split("+"), kind, req, alpha))
add("agency.txt", "agency_url", "url", True, "url"); add("agency.txt", "agency_timezone", "tz", True, None); add("agency.txt", "agency_lang", "lang", False, "lang")
add("agency.txt", "agency_fare_url", "url", False, "url"); add("agency.txt", "agency_email", "email", False, "email"); add("agency.txt", "agency_name", "text", True, "text")
add("stops.txt", "stop_lat", "lat", True, "number"); add("stops.txt", "stop_lon", "lon", True, "number"); add("stops.txt", "stop_url", "url", False, "url")
add("stops.txt", "location_type", "enum4", False, "number"); add("stops.txt", "stop_timezone", "tz", False, None); add("stops.txt", "wheelchair_boarding", "tri", False, "tri")
add("stops.txt", "stop_name", "text", True, "text")
add("routes.txt", "route_type", "routetype", True, "number"); add("routes.txt", "route_url", "url", False, "url"); add("routes.txt", "bikes_allowed", "tri", False, "tri")
add("routes.txt", "route_color", "color", False, "color"); add("routes.txt", "route_text_color", "color", False, "color")
add("routes.txt", "route_color", "color", False, "color"); add("routes.txt", "route_text_color", "color", False, "color")
add("trips.txt", "direction_id", "bit", False, "tri"); add("trips.txt", "bikes_allowed", "tri", False, "tri"); add("trips.txt", "wheelchair_accessible", "tri", False, "tri")
add("stop_times.txt", "arrival_time+departure_time", "time", False, "time"); add("stop_times.txt", "pickup_type", "enum3", False, "number"); add("stop_times.txt", "drop_off_type", "enum3", False, "number")
add("stop_times.txt", "timepoint", "enum1", False, "number"); add("stop_times.txt", "shape_dist_traveled", "distance", False, "number")
add("calendar.txt", "monday", "bit", True, "tri"); add("calendar.txt", "sunday", "bit", True, "tri"); add("calendar.txt", "start_date", "calendardate", True, "date"); add("calendar.txt", "end_date", "calendardate", True, "date")
add("calendar_dates.txt", "date", "calendardate", True, "date"); add("calendar_dates.txt", "exception_type", "onetwo", True, "tri")
add("frequencies.txt", "start_time", "time", True, "time"); add("frequencies.txt", "end_time", "time", True, "time"); add("frequencies.txt", "headway_secs", "headway", True, "number"); add("frequencies.txt", "exact_times", "enum1", False, "number")
add("shapes.txt", "shape_pt_lat", "lat", True, "number"); add("shapes.txt", "shape_pt_lon", "lon", True, "number"); add("shapes.txt", "shape_pt_sequence", "nonneg", True, "number"); add("shapes.txt", "shape_dist_traveled", "distance", False, "number")
add("feed_info.txt", "feed_lang", "lang", True, "lang"); add("feed_info.txt", "feed_publisher_url", "url", True, "url"); add("feed_info.txt", "feed_start_date", "date", False, "date"); add("feed_info.txt", "feed_end_date", "date", False, "date")
add("transfers.txt", "transfer_type", "enum3", False, "number")

class Values(Part):
    name, driver, trace = "values", "values", "ValuesTrace"
    mc = [("ValuesMC", "ValuesMC.cfg"), ("ValuesMC", "ValuesMC3.cfg")]
    mc_thorough = [("ValuesMC", "ValuesMC2.cfg"), ("ValuesMC", "ValuesMC3.cfg"), ("ValuesMC", "ValuesMC4.cfg")]

    def text(self, rng, alpha):
        s = rng.choice(SEEDS[alpha])
        q = rng.random()
        if q < .35: return s
        if q < .6: return "".join(rng.choice(ALPH[alpha]) for _ in range(rng.randrange(0, 9)))
        a = list(s)
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.randrange(4)
            i = rng.randrange(len(a) + 1)
            if k == 0 and a: del a[min(i, len(a) - 1)]
            elif k == 1: a.insert(i, rng.choice(ALPH[alpha] + " x\n"))
            elif k == 2 and a: a[min(i, len(a) - 1)] = rng.choice(ALPH[alpha] + "9Zé")
            elif a: a[0], a[-1] = a[-1], a[0]
        return "".join(a)

    def good(self, rng, kind):
        if kind == "time": return "%s:%02d:%02d" % (rng.choice(["%d", "%02d", "%03d"]) % rng.choice([0, 7, 23, 24, 99, 100, 999]), rng.randrange(60), rng.randrange(60))
        if kind in ("date", "calendardate"): return "%04d%02d%02d" % (rng.choice([1900, 1999, 2000, 2020, 2024, 2100]), rng.randrange(1, 13), rng.randrange(1, 31))
        if kind == "color": return "%06x" % rng.choice([rng.randrange(1 << 24), 0x010101 * rng.randrange(256)])
        if kind in ("lat", "lon"): return "%.*f" % (rng.randrange(0, 7), rng.uniform(-95, 95))
        if kind == "distance": return "%.*f" % (rng.randrange(0, 7), rng.uniform(0, 900))
        return str(rng.randrange(0, 12))

    def gen(self, rng):
        n = 1200 if self.quick else 20000
        m = 12 if self.quick else 200
        kinds = [("time", "time"), ("date", "date"), ("color", "color"), ("lang", "lang"), ("url", "url"), ("email", "email"), ("tri", "tri"), ("nonneg", "number"), ("float", "number"), ("enum1", "number"), ("enum3", "number"), ("enum4", "number")]
        ops = []
        for k, a in kinds:
            for s in SEEDS[a]: ops.append(dict(op="util", x=dict(kind=k, t=P(s))))
            g = {"float": "lat"}.get(k, k)
            for _ in range(n // 12):
                s = self.text(rng, a) if rng.random() < .7 or k in ("lang", "url", "email") else self.good(rng, g)
                ops.append(dict(op="util", x=dict(kind=k, t=P(s))))
        if not self.quick:
            for k, a in kinds:
                al = "".join(sorted(set(ALPH[a])))
                for r in range(0, 5):
                    for s in itertools.product(al, repeat=r): ops.append(dict(op="util", x=dict(kind=k, t=P("".join(s)))))
        for _ in range(n // 8): ops.append(dict(op="format", x=dict(n=rng.choice([rng.randrange(90000), rng.randrange(3600000), 3600 * rng.randrange(1000), 59, 60, 3599, 3600, 86399, 86400, 359999, 360000]))))
        for z in ZONES: ops.append(dict(op="tz", x=dict(name=z, known=True)))
        for z in NOZONES: ops.append(dict(op="tz", x=dict(name=z, known=False)))
        cases = [dict(ops=ops[i:i + 60]) for i in range(0, len(ops), 60)]
        for file, cols, kind, req, alpha in F:
            fops = []
            for j in range(m):
                x = dict(file=file, cols=cols, kind=kind, req=req, known=False, other=[])
                if kind == "tz":
                    s = rng.choice(ZONES if j % 2 else NOZONES) if j else ""
                    x["known"] = s in ZONES
                else: s = "" if j == 0 else self.text(rng, alpha) if j % 3 or alpha in ("lang", "url", "email", "text", "tri") else self.good(rng, kind)
                s = re.sub(r"[\n\r\x0b\x0c]", " ", s)
                if kind == "color" and rng.random() < .7: x["other"] = P(self.good(rng, "color") if rng.random() < .8 else self.text(rng, "color").strip())
                if cols == ["end_time"] and re.fullmatch(r"0+:00:00", s.strip()): s = "01:00:00"      # not after the start
                x["t"] = P(s)
                fops.append(dict(op="field", x=x))
            cases += [dict(ops=fops[i:i + 4]) for i in range(0, len(fops), 4)]
        return cases

PARTS = [Values]
ASSUMPTIONS = ["Forms of numbers that read as numbers but are not written plainly (1e3, +5, 007, digits of other scripts) must be reported at either level where the library documents a warning, and are left open for enumerations.",
               "Language codes: membership is decided for 47 common ISO 639-1 codes, codes of another length, and codes certainly unassigned; time zones for 16 names."]
