from fw import *
CLS = ["StopsTooClose", "StationsTooClose", "DifferentStationTooClose", "StopTooFarFromParentStation",
       "StopTooFarFromShapeWithDistTraveled", "TooFastTravel", "InvalidValue", "OtherProblem", "MissingFile", "UnusedStop", "DuplicateID"]
NAMES = ["Main St", "Zürich", "a, b", "x \"y\"", "東京 Station", "long name with several words that has to be wrapped when printed to the console"]

class Accum(Part):
    name, driver, trace = "accum", "accum", "AccumTrace"
    mc = [("AccumMC", "AccumMC.cfg")]
    mc_thorough = [("AccumMC", "AccumMC2.cfg")]
    case_timeout = 120

    def gen(self, rng):
        n = 150 if self.quick else 3000
        return ([self.direct(rng) for _ in range(n)] + [self.whole(rng) for _ in range(n * 2 // 3)] +
                [dict(mode="handler", raises=r, code=c) for r, c in (("", 0), ("", 1), ("", 2), ("value", 0), ("key", 1), ("error", 0))])

    def direct(self, rng):
        some = rng.sample(CLS, rng.randrange(1, 5))
        k = rng.randrange(0, 16)
        reps = [dict(lvl=rng.choice("EEWWN") if rng.random() < .8 else "N", cls=rng.choice(some), dist=rng.choice([0, 1, 1, 5, 9, 12, 15, 200]), tag=i,
                     text="%s <%d>" % (rng.choice(NAMES), i)) for i in range(k)]
        for r in reps: r["text"] = r["text"].replace("<", "n").replace(">", "")
        ask = [[l, c] for l in "EWN" for c in rng.sample(CLS, 4)]
        return dict(mode="direct", limit=rng.choice([0, 1, 2, 3, 5, 50]), ign=rng.sample(some + CLS, rng.randrange(0, 3)) if rng.random() < .6 else [],
                    reports=reps, ask=ask, looks=[i for i in range(k) if rng.random() < .15],
                    agencies=rng.choice([[], ["Demo"], ["Verkehrsbetriebe Zürich"], ["A", "東京"]]), feed=rng.choice(["/data/feed.zip", "feed", "/tmp/é/fééd.zip"]))

    def whole(self, rng):
        n = rng.randrange(2, 10)
        stops, y = [], 0
        for i in range(n):
            y += rng.choice([1, 1, 3, 500, 2000, 20000])
            par = rng.choice(["", "", "s%d" % rng.randrange(n), "none"]) if rng.random() < .5 else ""
            stops.append(["s%d" % i, rng.choice(NAMES) + " %d" % i, "%.12f" % (46 + y / 111319.49), "8.000", rng.choice([0, 0, 1]), par])
        if rng.random() < .3: stops.append(["s0", "twice", "46.5", "8.0", 0, ""])
        tr, st = [], []
        for t in range(rng.randrange(1, 4)):
            tr.append([rng.choice(["R", "R", "Q"]), "FULLW" if rng.random() < .9 else "NO", "t%d" % t, rng.choice(["", "B"])])
            m = 8 * 60
            for q in range(rng.randrange(1, n + 1)):
                m += rng.choice([0, 1, 2, 10])
                st.append(["t%d" % t, "%02d:%02d:00" % (m // 60, m % 60), "%02d:%02d:00" % (m // 60, m % 60), "s%d" % q, q])
        T = {"agency.txt": [["agency_id", "agency_name", "agency_url", "agency_timezone"], ["DTA", rng.choice(["Demo", "Zürich"]), rng.choice(["http://example.com", "nourl"]), "America/Los_Angeles"]],
             "stops.txt": [["stop_id", "stop_name", "stop_lat", "stop_lon", "location_type", "parent_station"]] + stops,
             "routes.txt": [["route_id", "agency_id", "route_short_name", "route_long_name", "route_type"], ["R", "DTA", "1", "One", 3], ["Q", "DTA", rng.choice(["2", "1"]), rng.choice(["Two", "One", "Längs"]), rng.choice([3, 1, 99])]],
             "calendar.txt": [["service_id", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday", "start_date", "end_date"],
                              ["FULLW", 1, 1, 1, 1, 1, 1, 1, rng.choice(["20200101", "20350101"]), rng.choice(["20351231", "20351231", "20210101"])]],
             "trips.txt": [["route_id", "service_id", "trip_id", "block_id"]] + tr,
             "stop_times.txt": [["trip_id", "arrival_time", "departure_time", "stop_id", "stop_sequence"]] + st}
        if T["calendar.txt"][1][8] > T["calendar.txt"][1][9]: T["calendar.txt"][1][9] = "20351231"
        if rng.random() < .5: T["calendar_dates.txt"] = [["service_id", "date", "exception_type"], ["FULLW", "20201225", 2]]
        if rng.random() < .15: T["unknown.txt"] = [["x"], ["y"]]
        if rng.random() < .15: T["stops.txt"][0].append("shoe"); [r.append("x") for r in T["stops.txt"][1:]]
        if rng.random() < .1: del T["routes.txt"]
        if rng.random() < .12:      # a feed without defects
            T["stops.txt"] = [T["stops.txt"][0][:6]] + [["s%d" % i, "Name %d" % i, "%.12f" % (46 + i * .01), "8.000", 0, ""] for i in range(3)]
            T["trips.txt"], T["routes.txt"] = [T["trips.txt"][0], ["R", "FULLW", "t0", ""]], [["route_id", "agency_id", "route_short_name", "route_long_name", "route_type"], ["R", "DTA", "1", "One", 3]]
            T["stop_times.txt"] = [T["stop_times.txt"][0]] + [["t0", "08:%02d:00" % (q * 10), "08:%02d:00" % (q * 10), "s%d" % q, q] for q in range(3)]
            T["agency.txt"][1][2] = "http://example.com"
            T["calendar.txt"][1][8:] = ["20200101", "20351231"]
            T["calendar_dates.txt"] = [["service_id", "date", "exception_type"], ["FULLW", "20201225", 2]]
            T.pop("unknown.txt", None)
        out = rng.choice(["console", "console", "html", "html", "html", "unwritable"] if rng.random() < .5 else ["console", "html"])
        return dict(mode="whole", tables=T, out=out, limit=rng.choice([0, 1, 2, 5, 100]), ign=rng.sample(["UnusedStop", "InvalidValue", "StopsTooClose", "NoServiceExceptions", "NewVersionAvailable", "NoSuchType", "UnknownFile"], rng.randrange(1, 5)) if rng.random() < .4 else [],
                    latest=rng.choice([[1, 2, 16], [1, 2, 15], [1, 2, 17], [1, 10, 0], [2, 0, 0], [0, 9, 99], [1, 2, 9]]), mem=rng.random() < .5, dup=rng.random() < .3, gap=rng.choice([13, 13, 1, 400]))

    def nontrivial(self, log):
        return any(e["op"] != "handler" for e in log["ev"])

PARTS = [Accum]
ASSUMPTIONS = ["The problems a run of the validator reports are noted at ProblemReporter.AddToAccumulator and compared, as a multiset, with an independent load and validation of the same feed.",
               "Notices are not required to be raised nor not to be raised by an accumulator asked to raise warnings."]
