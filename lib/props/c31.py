from fw import *
import os, re

def registry():
    """(kind, subtag in lower case) pairs of the registry that the extension carries, read here by itself."""
    text = open(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "extensions/googletransit/pybcp47/language-subtag-registry.txt"), encoding="utf-8").read()
    out = {}
    for rec in re.split(r"^%%$", text, flags=re.M)[1:]:
        m = dict(re.findall(r"^(Type|Subtag|Tag): (.*)$", rec, flags=re.M))
        kind = {"grandfathered": "whole", "redundant": None}.get(m["Type"], m["Type"])
        if not kind: continue
        a, _, b = m.get("Subtag", m.get("Tag", "")).lower().partition("..")
        if not b: out.setdefault(kind, set()).add(a); continue
        while True:
            out[kind].add(a)
            if a == b: break
            q = list(a); i = len(q) - 1
            while q[i] == "z": q[i] = "a"; i -= 1
            q[i] = chr(ord(q[i]) + 1); a = "".join(q)
    return {k: sorted(v) for k, v in out.items()}

class Tags(Part):
    """Language tags: every mix of registered and unregistered subtags, in and out of order."""
    name, driver, trace = "tags", "langtag", "LangTagTrace"
    mc = [("LangTagMC", "LangTagMC.cfg")]
    mc_thorough = [("LangTagMC", "LangTagMC2.cfg")]
    canary_within = ("formed", "valid", "ok", "reports", "kept")

    def tag(self, rng):
        R = self.reg
        q = rng.random()
        if q < .07: return rng.choice(R["whole"])
        if q < .12: return "-".join(["x"] + ["".join(rng.choice("abcz019") for _ in range(rng.choice([1, 2, 8, 8, 9]))) for _ in range(rng.choice([0, 1, 1, 2]))])
        bad = lambda kind, other: rng.choice(R[kind]) if rng.random() < .85 else rng.choice(other)
        edge = ["qaa", "qtz", "qab", "qua", "qzz", "qma", "mn", "pzz"]
        out = [rng.choice(edge) if rng.random() < .1 else bad("language", ["qz", "xx", "zzz", "abcd", "abcde", "abcdefgh", "abcdefghi", "a1", "1a", "e", "é", "dé", "\u212aa"]) if rng.random() < .5 else rng.choice(["de", "en", "zh", "sl", "sgn", "fr", "hy"])]
        if rng.random() < .3:
            for _ in range(rng.choice([1, 1, 1, 2, 3, 4])): out.append(bad("extlang", ["xxx", "abc", "deu", "x1x"]))
        if rng.random() < .35: out.append(rng.choice(["qaaa", "qabx", "qaby", "qaaz", "qaba", "qzzz"]) if rng.random() < .2 else bad("script", ["abcd", "latm", "zzzq", "1abc"]))
        if rng.random() < .45: out.append(rng.choice(["qm", "qz", "ql", "xa", "xz", "xm", "za"]) if rng.random() < .2 else bad("region", ["xy", "qa", "yz", "000", "999", "12a"]))
        if rng.random() < .4:
            for _ in range(rng.choice([1, 1, 2, 2, 3])): out.append(bad("variant", ["abcde", "1902", "shadok", "abcd", "1", "123456789"]))
            if rng.random() < .25: out.append(rng.choice(out[-2:]))
        if rng.random() < .25:
            for _ in range(rng.choice([1, 1, 2, 3])):
                out.append(rng.choice(["a", "b", "1", "u", "y", "0"]))
                for _ in range(rng.choice([0, 1, 1, 1, 2])): out.append(rng.choice(["co", "phonebk", "12", "abc", "de", "abcdefgh", "1996", "a", "x", "abcdefghi"]))
        if rng.random() < .15: out += ["x"] + [rng.choice(["a", "twain", "1", "x", "abcdefgh", "abcdefghi", "a_b", "é"]) for _ in range(rng.choice([0, 1, 1, 2]))]
        if rng.random() < .07: rng.shuffle(out)
        if rng.random() < .05: out.insert(rng.randrange(len(out) + 1), rng.choice(["", "_", "é", " "]))
        return ("_" if rng.random() < .02 else "-").join(out)

    def casing(self, rng, t):
        q = rng.random()
        return t if q < .4 else t.upper() if q < .5 else t.title() if q < .6 else "".join(c.upper() if rng.random() < .5 and ord(c) < 128 else c for c in t)

    def gen(self, rng):
        self.reg = registry()
        # texts outside the files: what is in the specification's alphabet
        out = []
        for i in range(900 if self.quick else 30000):
            t = self.casing(rng, self.tag(rng)) if i else ""
            subs = t.lower().split("-")
            asc = "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in t)
            parts = [s for s in asc.split("-")]
            reg = [[k, [ord(c) for c in s]] for k in self.reg for s in sorted(set(parts)) if k != "whole" and s in self.set(k)]
            if asc in self.set("whole"): reg.append(["whole", [ord(c) for c in asc]])
            ops = ["parse", "is", "check"] if i % 4 or t != t.strip() else ["parse", "is", "check", "load"]
            if not t: ops = ["check", "load"]
            out.append(dict(tag=[ord(c) for c in t], reg=reg, ops=ops))
        return out
    def set(self, k):
        if not hasattr(self, "sets"): self.sets = {x: set(v) for x, v in self.reg.items()}
        return self.sets[k]

    def nontrivial(self, log):
        return any(e["op"] == "parse" and e["o"]["formed"] for e in log["ev"])

SPEEDS = {0: 100, 1: 150, 2: 300, 3: 100, 4: 80, 5: 50, 6: 50, 7: 50, 8: 50, 9: 120, 10: 150, 11: 100, 12: 150}
HVT = [100, 101, 102, 103, 105, 106, 107, 108, 109, 200, 201, 202, 204, 208, 400, 401, 402, 403, 405, 700, 701, 702, 704, 715, 717, 800, 900, 1000, 1100, 1300, 1400, 1500, 1501, 1700, 1701, 1702]
cell = lambda t: dict(text=t, num=int(t) if t.isdigit() else -1)

class Fields(Part):
    """Feeds with kinds of vehicles, entrances, fares of agencies and emissions: loaded, validated, edited, written and read again."""
    name, driver, trace = "fields", "googlefeed", "GoogleFeedTrace"
    mc = [("GoogleFeedMC", "GoogleFeedMC.cfg")]
    canary_within = ("stops", "routes", "fares", "kept", "all", "unused", "fast")

    def vehicle(self, rng):
        q = rng.random()
        return cell("" if q < .35 else "0" if q < .5 else str(rng.choice(list(SPEEDS) + HVT)) if q < .85 else rng.choice(["13", "99", "104", "1703", "300", "abc", "3x", "1.5"]))
    def rtype(self, rng):
        return cell(str(rng.choice(list(SPEEDS) + HVT + HVT + [13, 99, 104, 203, 1703])))
    def co2(self, rng, r):
        t = rng.choice(["", "", "0", "15.5", "120", "0.25", "15.5mg", "abc", "1,5", "."])
        try: m, n = int(round(float(t) * 1000)), True
        except ValueError: m, n = -1, False
        return dict(r, co2=t, isnum=n, milli=m)

    def case(self, rng):
        nag = rng.choice([1, 1, 2, 3])
        ags = ["ag%d" % i for i in range(nag)]
        if nag == 1 and rng.random() < .3: ags[0] = ""
        stations = ["st%d" % i for i in range(rng.choice([1, 2]))]
        stops = [dict(id=x, name="Station " + x, type=cell("1"), vehicle=self.vehicle(rng), parent="", zone=rng.choice(["", "Europe/Berlin"]), code="", used=False) for x in stations]
        for i in range(rng.choice([2, 3, 5, 7])):
            t = rng.choice(["", "0", "0", "2", "2", "2", "1", "3", "5", "abc", "9"])
            s = dict(id="s%d" % i, name=rng.choice(["", "Stop %d" % i, "Stop %d" % i]), type=cell(t), vehicle=self.vehicle(rng), parent=rng.choice(["", "", rng.choice(stations), rng.choice(stations)]),
                     zone=rng.choice(["", "", "Europe/Berlin"]), code=rng.choice(["", "1", "Nord"]), used=False)
            if t in ("", "0", "abc"): s["used"] = rng.random() < .6
            stops.append(s)
        far = [dict(id="far%d" % i, name="Far %d" % i, type=cell("0"), vehicle=cell(""), parent="", zone="", code="", used=True) for i in (0, 1)]
        order = stops + far
        if rng.random() < .5: rng.shuffle(order)
        routes = []
        for i in range(rng.choice([1, 2, 3, 4])):
            r = self.co2(rng, dict(id="r%d" % i, type=self.rtype(rng)))
            r["minutes"] = rng.choice([5, 15, 18, 23, 36, 45, 55, 66, 70, 90, 110, 140])
            routes.append(r)
        fares = [dict(id="f%d" % i, agency=rng.choice(["", "", "nowhere"] + ags)) for i in range(rng.choice([0, 1, 2, 3]))]
        w = dict(ags=ags, stops=order, routes=routes, fares=fares)
        pos = {x["id"]: k for k, x in enumerate(stops)}
        lat = lambda x: "%.6f" % (46.0 if x == "far0" else 46.898317 if x == "far1" else 46.0 + 100 / 111318.0 + pos[x] * 9 / 111318.0)
        hm = lambda n: "%02d:%02d:00" % (8 + n // 60, n % 60)
        days = ["monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"]
        used = [s["id"] for s in stops if s["used"]]
        T = {"agency.txt": [["agency_id", "agency_name", "agency_url", "agency_timezone"]] + [[a, "Firm %d" % i, "http://example.com", "Europe/Berlin"] for i, a in enumerate(ags)],
             "stops.txt": [["stop_id", "stop_name", "stop_lat", "stop_lon", "location_type", "parent_station", "stop_timezone", "vehicle_type", "platform_code"]] +
                          [[s["id"], s["name"], lat(s["id"]), "8.5", s["type"]["text"], s["parent"], s["zone"], s["vehicle"]["text"], s["code"]] for s in order],
             "routes.txt": [["route_id", "agency_id", "route_short_name", "route_long_name", "route_type", "co2_per_km"]] + [[r["id"], ags[0], r["id"], "Line " + r["id"] + " of all", r["type"]["text"], r["co2"]] for r in routes],
             "calendar.txt": [["service_id"] + days + ["start_date", "end_date"], ["D"] + [1] * 7 + ["20260101", "20271231"]],
             "trips.txt": [["route_id", "service_id", "trip_id"]] + [[r["id"], "D", "t_" + r["id"]] for r in routes] + ([[routes[0]["id"], "D", "all"]] if used else []),
             "stop_times.txt": [["trip_id", "arrival_time", "departure_time", "stop_id", "stop_sequence"]] + [["t_" + r["id"], hm(k * r["minutes"]), hm(k * r["minutes"]), "far%d" % k, k] for r in routes for k in (0, 1)] +
                               [["all", hm(i * 30), hm(i * 30), x, i] for i, x in enumerate(["far0"] + used)] * bool(used),
             "fare_attributes.txt": [["fare_id", "price", "currency_type", "payment_method", "transfers", "agency_id"]] + [[f["id"], "1.00", "EUR", "0", "", f["agency"]] for f in fares]}
        if not fares: del T["fare_attributes.txt"]
        elif not any(f["agency"] for f in fares) and rng.random() < .6: T["fare_attributes.txt"] = [r[:-1] for r in T["fare_attributes.txt"]]
        if not any(r["co2"] for r in routes): T["routes.txt"] = [r[:-1] for r in T["routes.txt"]]
        cur = dict(stops=[dict(s) for s in order], routes=[dict(r) for r in routes])
        for s in cur["stops"]:     # as loaded
            s["type"] = cell(str(max(0, s["type"]["num"])))
            if s["vehicle"]["num"] < 0: s["vehicle"] = cell("")
        edits = [dict(op="validate", children=rng.random() < .6)]
        for _ in range(rng.choice([0, 1, 2, 3])):
            if rng.random() < .5:
                i = rng.randrange(len(order)); s = cur["stops"][i]
                v = rng.choice([0, 3, 700, 99, None])
                s = cur["stops"][i] = dict(s, vehicle=cell("" if v is None else str(v)))
                edits.append(dict(op="stop", at=i + 1, new=s, set=[["vehicle_type", v]]))
            else:
                i = rng.randrange(len(routes)); r = cur["routes"][i]
                if rng.random() < .5:
                    t = self.rtype(rng)
                    r = cur["routes"][i] = dict(r, type=t)
                    edits.append(dict(op="route", at=i + 1, new=r, set=[["route_type", t["num"]]]))
                else:
                    r = cur["routes"][i] = self.co2(rng, r)
                    edits.append(dict(op="route", at=i + 1, new=r, set=[["co2_per_km", r["co2"]]]))
            edits.append(dict(op="validate", children=rng.random() < .6))
        if rng.random() < .5: edits.append(dict(op="reload"))
        return dict(w=w, tables=T, edits=edits)

    def gen(self, rng):
        return [self.case(rng) for _ in range(160 if self.quick else 5000)]

    def nontrivial(self, log):
        return any(e["op"] == "load" and any(e["o"]["stops"]) for e in log["ev"])

PARTS = [Tags, Fields]
ASSUMPTIONS = ["the registry of subtags is the one that comes with the extension", "whether an extended language subtag fits its prefix is not part of validity (RFC 5646, 2.2.9)", "fares without an agency are left open beside an agency without an id among several"]
