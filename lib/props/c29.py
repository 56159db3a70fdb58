from fw import *
import math
R = 6378135.0

class Stops(Part):
    name, driver, trace = "stops", "stops", "StopsTrace"
    mc = [("StopsMC", "StopsMC.cfg")]
    mc_thorough = [("StopsMC", "StopsMC.cfg"), ("StopsMC", "StopsMC2.cfg")]

    def gen(self, rng):
        return [self.one(rng) for _ in range(220 if self.quick else 6000)]

    def one(self, rng):
        n = rng.randrange(1, 9)
        lat0 = rng.choice([36.9, 0.0, 60.1, -33.5, 47.0])
        lon0 = rng.choice([-116.8, 0.0, 8.5, 151.2]) if lat0 != 0.0 else rng.choice([-116.8, 8.5, 77.0])
        pts = [(0, 0)]
        stops, rows = [], []
        for i in range(n):
            bx, by = rng.choice(pts)
            q = rng.random()
            if q < .25: x, y = bx, by
            elif q < .6:
                r = rng.choice([12, 18, 19, 22, 30])
                a = rng.choice([0, 1, 2, 3, .7, 4.1])
                x, y = bx + int(r * math.cos(a)), by + int(r * math.sin(a))
            elif q < .85:
                r = rng.choice([900, 985, 1015, 5000, 9960, 10040, 12000])
                a = rng.choice([0, 1.5707, 2, 4])
                x, y = bx + int(r * math.cos(a)), by + int(r * math.sin(a))
            else:
                x, y = bx + rng.choice([0, 20000]), by + rng.choice([0, 25000])
            x, y = max(-25000, min(25000, x)), max(-25000, min(25000, y))
            pts.append((x, y))
            s = dict(type=rng.choice([0, 0, 0, 1, 1, 2, 3, 4]), where="at", x=x, y=y, parent=0, used=rng.choice([0, 1, 1, 1, 2]),
                     name="", desc="", bad=[], tz=False, origin=False)
            row = dict(stop_id="%s_%d" % (rng.choice("szm"), i + 1))
            name = rng.choice(["Main Street", "Zürich HB", "X", "A, \"B\""]) + rng.choice(["", " %d" % i])
            s["name"] = name.lower()
            row["stop_name"] = name
            q = rng.random()
            if q < .2:
                d = rng.choice([name, name.upper(), name.lower(), " " + name, name + " "]) if name[0] != "Z" else name
                row["stop_desc"], s["desc"] = d, d.strip().lower()
            elif q < .4:
                row["stop_desc"] = name + " more"
                s["desc"] = row["stop_desc"].lower()
            if rng.random() < .04:
                row["stop_name"] = rng.choice(["", " "])
                s["name"] = ""
                if rng.random() < .5: row["stop_desc"] = s["desc"] = ""
            lat = lat0 + y / 10.0 / R * 180 / math.pi
            lon = lon0 + x / 10.0 / R * 180 / math.pi / math.cos(math.radians(lat0))
            row["stop_lat"], row["stop_lon"] = "%.12f" % lat, "%.12f" % lon
            q = rng.random()
            if q < .03:
                k = rng.choice(["stop_lat", "stop_lon"])
                row[k] = rng.choice(["91", "-90.001"]) if k == "stop_lat" else rng.choice(["180.5", "-181"])
                s["where"] = "far"
                s["bad"].append(k)
            elif q < .06:
                k = rng.choice(["stop_lat", "stop_lon"])
                row[k] = "x"
                s["where"] = "none"
                s["bad"].append(k)
            elif q < .08:
                k = rng.choice(["stop_lat", "stop_lon"])
                row[k] = ""
                s["where"] = "none"
                s["bad"].append("missing " + k)
            elif q < .11:
                row["stop_lat"], row["stop_lon"] = rng.choice([("0.5", "0.5"), ("-0.99", "0.2"), ("0.0", "0.999")])
                s["origin"] = True
                s["where"] = "far"
            if s["type"] == 0 and rng.random() < .5: row["location_type"] = ""
            else: row["location_type"] = str(s["type"])
            if rng.random() < .03:
                # an unknown type is kept with a warning; text is dropped
                row["location_type"] = rng.choice(["5", "9", "x", "1.0"])
                s["type"] = int(row["location_type"]) if row["location_type"].isdigit() else 0
                s["bad"].append("location_type")
            if rng.random() < .04:
                row["stop_url"] = "nourl"; s["bad"].append("stop_url")
            elif rng.random() < .1: row["stop_url"] = "http://example.com/s"
            if rng.random() < .04:
                row["wheelchair_boarding"] = rng.choice(["3", "y"]); s["bad"].append("wheelchair_boarding")
            elif rng.random() < .2: row["wheelchair_boarding"] = rng.choice("012")
            stops.append(s)
            rows.append(row)
        far = [i for i, s in enumerate(stops) if s["where"] == "far"]
        for i in far[1:]:   # no two out-of-range places: their distance is not modelled
            s, row = stops[i], rows[i]
            s["where"], s["origin"] = "at", False
            s["bad"] = [b for b in s["bad"] if b not in ("stop_lat", "stop_lon")]
            row["stop_lat"], row["stop_lon"] = "%.12f" % (lat0 + s["y"] / 10.0 / R * 180 / math.pi), "%.12f" % (lon0 + s["x"] / 10.0 / R * 180 / math.pi / math.cos(math.radians(lat0)))
        for i, s in enumerate(stops):
            q = rng.random()
            if q < .45:
                st = [j for j in range(n) if stops[j]["type"] == 1 and j != i]
                j = rng.choice(st) if st and rng.random() < .8 else rng.choice([j for j in range(n)])
                s["parent"] = j + 1
                rows[i]["parent_station"] = rows[j]["stop_id"]
            elif q < .5:
                s["parent"] = -1
                rows[i]["parent_station"] = "nowhere_99"
            q = rng.random()
            if q < .12:
                s["tz"] = True
                rows[i]["stop_timezone"] = "Europe/Zurich"
        if self.close(stops):
            return self.one(rng)
        order = list(range(n))
        rng.shuffle(order)
        vis = list(range(sum(s["used"] for s in stops)))
        rng.shuffle(vis)
        return dict(stops=stops, rows=rows, order=order, visits=vis)

    def close(self, stops):
        P = [s for s in stops if s["where"] == "at"]
        for i, a in enumerate(P):
            for b in P[i + 1:]:
                d = math.hypot(a["x"] - b["x"], a["y"] - b["y"])
                if 19 < d < 21 or abs(d - 1000) < 5 or abs(d - 10000) < 30: return True
        return False

    def nontrivial(self, log):
        o = log["ev"][-1]["o"]
        return bool(o["close0"] or o["close1"] or o["foreign"] or o["far"])

PARTS = [Stops]
ASSUMPTIONS = ["Distances within 5 per cent (2 m) or 0.5 per cent (100 m, 1 km) of a limit are not generated.", "At most one stop per feed has coordinates out of range or near 0, 0."]
