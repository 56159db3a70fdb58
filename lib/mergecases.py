"""Cases of merges shared by C15, C16 and C17."""
import datetime
import mergegen
EPOCH = datetime.date(2000, 1, 1).toordinal()
DAY = mergegen.DAY0.toordinal() - EPOCH
DEFAULT = ["agency", "stop", "route", "service", "fare", "shape", "trip", "rule", "transfer"]
KINDS = ["agency", "stop", "route", "service", "fare", "shape", "trip", "rule"]
BEFORE = {"route": ["agency"], "trip": ["agency", "stop", "route", "service", "shape"], "rule": ["agency", "stop", "route", "fare"], "transfer": ["stop"]}

def order(rng):
    """An order of the mergers in which every one comes after what it refers to."""
    left, out = KINDS + (["transfer"] if rng.random() < .7 else []), []
    if rng.random() < .4: left = [k for k in left if rng.random() < .7]
    while True:
        need = [k for x in left for k in BEFORE.get(x, []) if k not in left]
        if not need: break
        left += sorted(set(need))
    while left:
        k = rng.choice([x for x in left if not any(y in left for y in BEFORE.get(x, []))])
        left.remove(k)
        out.append(k)
    return out

def case(rng, overlap=.1, cut=.3, more=.25, size=3):
    n = 3 if rng.random() < more else 2
    feeds, steps, hi = [], [], 0
    for i in range(n):
        lo = 60 * i if not i or rng.random() > overlap else 60 * i - rng.randrange(1, 90)
        lo = max(lo, 0)
        if i and rng.random() < .35: feeds.append(mergegen.twin(rng, feeds[-1], (lo, lo + 59), lo - 60 * (i - 1) or 60)); continue
        feeds.append(mergegen.make(rng, feeds[-1] if feeds else None, (lo, lo + 59), size))
    for i in range(1, n):                      # calendars that meet in one day, or just do not
        cals, old = feeds[i].get("calendar.txt", []), feeds[i - 1]
        ends = [r["end_date"] for r in old.get("calendar.txt", [])] + [r["date"] for r in old.get("calendar_dates.txt", []) if r["exception_type"] == "1"]
        if cals and ends and rng.random() < .2:
            c, d = rng.choice(cals), datetime.datetime.strptime(max(ends), "%Y%m%d") + datetime.timedelta(rng.choice([0, 0, 1]))
            d = d.strftime("%Y%m%d")
            if d <= c["end_date"]: c["start_date"] = d
    for i in range(n - 1):
        how = "tool" if rng.random() < .3 else "api"
        default = how == "tool" or rng.random() < .4
        m = DEFAULT if default else order(rng)
        steps.append(dict(how=how, default=default, mergers=m, cut=DAY + 60 * (i + 1) + rng.choice([0, -1, 1, 5, -30, 30, -70, 70]) if rng.random() < cut and (default or "service" in m) else -1,
                          stopd=rng.choice([-1, -1, -1, 5000, 25000, 0]), shaped=rng.choice([-1, -1, -1, 5000, 25000, 0]), next=rng.choice(["object", "reload"])))
    for k, st in enumerate(steps):
        if st["how"] == "tool" and k: steps[k - 1]["next"] = "tool"
    names = {r["stop_name"] for f in feeds for r in f["stops.txt"]}
    return dict(feeds=[mergegen.files(rng, f) for f in feeds], steps=steps, mem=rng.random() < .8, zip=rng.random() < .5,
                low={t: [ord(c) for c in t.lower()] for t in names})

