from fw import *
import base64, csv, io

BOM = b"\xef\xbb\xbf"
def text(rows, rng):
    f = io.StringIO()
    csv.writer(f, lineterminator=rng.choice(["\n", "\n", "\r\n"]), quoting=rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_MINIMAL, csv.QUOTE_ALL])).writerows(rows)
    return f.getvalue().encode()

WORDS = ["Palace", "Old Town", "To Palace", "Šťastná", "A, B", "say \"hi\"", "http://e.com/x", "id-1", "id-2", "id-3", "Harbour", "s0", "en"]
LANGS = ["en", "es", "fr", "zh-Hant"]
SHAPES = {
    "agency": (["agency_id", "agency_name", "agency_url", "agency_lang"], "agency_id"),
    "stops": (["stop_id", "stop_name", "stop_desc", "stop_lat", "stop_url"], "stop_id"),
    "routes": (["route_id", "agency_id", "route_short_name", "route_long_name", "route_type"], "route_id"),
    "trips": (["route_id", "trip_id", "trip_headsign", "trip_short_name"], "trip_id"),
    "stop_times": (["trip_id", "stop_id", "stop_sequence", "stop_headsign"], "trip_id"),
    "feed_info": (["feed_publisher_name", "feed_publisher_url", "feed_lang"], ""),
    "pathways": (["pathway_id", "from_stop_id", "signposted_as", "reversed_signposted_as"], "pathway_id"),
    "levels": (["level_id", "level_index", "level_name"], "level_id"),
    "attributions": (["attribution_id", "agency_id", "attribution_url", "organization_name"], "attribution_id"),
    "extra": (["note_text", "extra_id", "other_id"], "extra_id"),
    "calendar": (["service_id", "monday", "service_name"], "service_id"),
}
PLAIN = {"shapes.txt": b"shape_id,shape_pt_lat\r\n a ,1\n", "fare_rules.txt": BOM + b"fare_id,route_id\nid-1,id-2\n", "empty.txt": b"", "blank.txt": b"\n\n"}

class Upgrade(Part):
    """Feeds with old translation tables of every kind, converted."""
    name, driver, trace = "upgrade", "translate", "TranslateTrace"
    mc = [("TranslateMC", "TranslateMC.cfg")]
    mc_thorough = [("TranslateMC", "TranslateMC2.cfg")]
    canary_within = ("tables", "entries")

    def case(self, rng):
        main = rng.choice(["en", "en", "en", "es", "zh-Hant"])
        words = rng.sample(WORDS, rng.choice([3, 5, 8]))
        ids = rng.sample(words, rng.randrange(1, len(words) + 1))
        langs = [main] + rng.sample([x for x in LANGS if x != main], rng.choice([0, 1, 2, 3]))
        old = []
        style = rng.random()
        for x in ids:
            orig = x if style < .3 or rng.random() < .3 else rng.choice(words + ["Town %s" % x])
            for l in langs:
                if l == main: old.append(dict(id=x, lang=l, text=orig))
                elif rng.random() < .8: old.append(dict(id=x, lang=l, text=rng.choice(["%s in %s" % (x, l), "%s in %s" % (x, l), orig, rng.choice(words), "Übersetzt"])))
        missing = rng.random() < .06
        if missing:
            k = rng.choice([i for i, x in enumerate(old) if x["lang"] == main])
            del old[k]
        rng.shuffle(old)
        tables = []
        names = [x for x in SHAPES if rng.random() < .55]
        if "trips" not in names: names.append("trips")
        where = rng.choice(["feed_info", "agency", "agency", "both", "both", "none"] if rng.random() < .3 else ["feed_info", "agency", "both"])
        for w in ("feed_info", "agency"):
            if where in (w, "both") and w not in names: names.append(w)
        rng.shuffle(names)
        value = lambda: rng.choice(words + ids + ids) if rng.random() < .9 else rng.choice(["", "plain text", "Town %s" % ids[0]])
        for t in names:
            cols, key = SHAPES[t]
            cols = [x for x in cols if x == key or x in ("stop_sequence", "extra_id", "attribution_id", "agency_lang", "feed_lang") or rng.random() < .85]
            if t == "agency" and rng.random() < .2 and where != "x": cols = [x for x in cols if x != "agency_id"]
            if t not in ("attributions", "extra") or rng.random() < .0: rng.shuffle(cols)
            n = 1 if t == "feed_info" or (t == "agency" and "agency_id" not in cols) else rng.choice([0, 1, 2, 3, 5])
            if t == "agency" and where in ("agency", "both"): n = max(n, 1)
            own = ["%s%d" % (t[0], i) for i in range(n)]
            if rng.random() < .3: own = (rng.sample(ids, min(n, len(ids))) + own)[:n]       # identifiers that are also texts
            rows = []
            for i in range(n):
                row = []
                for x in cols:
                    if t == "stop_times" and x == "trip_id": row.append(own[i // 2])
                    elif x == key: row.append(own[i])
                    elif x == "stop_sequence": row.append(str(i + 1))
                    elif x == "feed_lang": row.append(main if where in ("feed_info", "both") else "")
                    elif x == "agency_lang": row.append((rng.choice(["", main]) if i < n - 1 else main) if where in ("agency",) else rng.choice(["", "de"]) if where == "both" else "")
                    elif x.endswith(("_name", "_desc", "_headsign", "_url", "_text", "signposted_as")): row.append(value())
                    else: row.append(value() if rng.random() < .4 else str(rng.randrange(9)))
                if all(v == "" for v in row): row[-1] = "1"
                rows.append(row)
            tables.append(dict(name=t, cols=cols, rows=rows))
        files = {}
        for t in tables: files[t["name"] + ".txt"] = (BOM if rng.random() < .15 else b"") + text([t["cols"]] + t["rows"], rng)
        cols = ["trans_id", "lang", "translation"]
        if rng.random() < .3: rng.shuffle(cols)
        if rng.random() < .1: cols.append("note")
        key = dict(trans_id="id", lang="lang", translation="text", note="lang")
        usable = where != "none"
        q = rng.random()
        if q < .03: usable = False                                     # no table of translations
        elif q < .06:
            usable = False
            files["translations.txt"] = text([["table_name", "field_name", "language", "translation", "record_id"], ["stops", "stop_name", "es", "X", "s0"]], rng)
        else: files["translations.txt"] = (BOM if rng.random() < .15 else b"") + text([cols] + [[o[key[x]] for x in cols] for o in old], rng)
        plain = [x for x in PLAIN if rng.random() < .4]
        for x in plain: files[x] = PLAIN[x]
        if rng.random() < .3: files["readme.md"] = b"stop_name\nPalace\n"
        # a table without any translatable column is copied as it is
        suffix = ("_name", "_desc", "_headsign", "_url", "_text", "_abbreviation", "signposted_as", "instructions")
        for t in list(tables):
            if not any(x.endswith(suffix) for x in t["cols"]): plain.append(t["name"] + ".txt"); tables.remove(t)
        dest = rng.choice(["default", "given", "given", "there", "same", "inside"] if rng.random() < .3 else ["default", "given", "there"])
        cli = dest == "default" or rng.random() < .5
        if dest == "same": usable = False
        return dict(old=old, main=main if where != "none" else "", tables=tables, usable=usable, plain=plain, dir=rng.random() < .1, dest=dest, cli=cli, slash=rng.choice(["", "", "/"]),
                    files={f: base64.b64encode(b).decode() for f, b in files.items()})

    def gen(self, rng):
        return [self.case(rng) for _ in range(150 if self.quick else 5000)]

    def nontrivial(self, log):
        return len(log["ev"][0]["o"]["entries"]) > 0

PARTS = [Upgrade]
ASSUMPTIONS = ["rows are no longer than their header; cells hold no line breaks", "identifiers are unique in a table; a table without identifying column has one row", "no translation identifier is empty, and each has one line for a language"]
