"""mutate.py N SEED [ONLY-FILE]: small changes of the code against the checks (replay and judgement only).
Prints one line per change: caught by PROP, or SURVIVED with the changed line. Works on a scratch copy; a study aid, no check uses it."""
import sys, random, tempfile, json, importlib, shutil, re, os, subprocess, io, tokenize, time
REPO = tempfile.mkdtemp(prefix="mutrepo_")
os.environ["VERIF_REPO"] = REPO
sys.path.insert(0, "/verif/lib")
import fw
N, SEED = int(sys.argv[1]), int(sys.argv[2])
ONLY = sys.argv[3] if len(sys.argv) > 3 else None
SRC = os.environ.get("MUT_SRC", "/repo")
T = "transitfeed/"
MAP = [  # file, functions, properties
 (T+"schedule.py", "Add|GetDefault|NewDefault|SetDefault|GetTableColumns", "C05 C01"), (T+"schedule.py", "GetDateRange|ActiveEachDate|GenerateDateTrips|ServiceGaps|ExpirationDates|ServiceExceptions", "C07"),
 (T+"schedule.py", "ValidateBlocks", "C11"), (T+"schedule.py", "ValidateStops|NearbyStops", "C29"), (T+"schedule.py", "SameTimeCount|ValidateStopTimesForTrip|ValidateTripStopTimes|ValidateTrips", "C12 C13"),
 (T+"schedule.py", "WriteGoogle|WriteArchive", "C01"), (T+"schedule.py", "GetNearest|BoundingBox", "C20"), (T+"schedule.py", "AddFare|AddTransfer|FareZones", "C28"), (T+"schedule.py", "ValidateAgenc|ValidateFeedInfo|RouteNames|Idless|RouteAgency|UnusedShapes", "C13 C02 C03"),
 (T+"trip.py", "Frequenc|Headway", "C10"), (T+"trip.py", "StopTime|GetPattern|GetStartTime|GetEndTime|GetTimeStops|GetCount", "C08 C09 C01"), (T+"trip.py", "Validate(No|Trip[SE]|StopTimes|ShapeDist|Distance)|CheckSpeed|ValidateChildren", "C12"),
 (T+"trip.py", "Validate(Route|Service|Shape|Trip)Id|ValidateDirection|ValidateBikes|ValidateWheel|AddToSch|ValidateBefore|ValidateAfter", "C03 C02 C27 C05"),
 (T+"stop.py", "", "C29 C27 C20 C03"), (T+"stoptime.py", "", "C08 C27 C12 C01"), (T+"shape.py", "", "C18 C12"), (T+"shapepoint.py", "", "C18 C27 C03"), (T+"serviceperiod.py", "", "C06 C27 C03"),
 (T+"util.py", "Valid|Color|IsEmpty|Time|Date|Float|NonNeg|Seconds", "C27"), (T+"util.py", "FindUnique", "C05"), (T+"util.py", "^Approximate", "C29 C12"), (T+"util.py", "writerow|__iter__|next|FinalCheck", "C01 C04"),
 ("merge.py", "DisjoinCal|TruncateP|CheckDisj", "C17"), ("merge.py", "", "C15 C16 C17"), ("schedule_viewer.py", "static_file|OpenFile|GET_home", "C21"), ("schedule_viewer.py", "json|ttable|StopToTuple|answer|do_GET", "C20"),
 ("gtfsscheduleviewer/marey_graph.py", "", "C20"), ("feedvalidator.py", "", "C14"), ("kmlwriter.py", "", "C22"), ("kmlparser.py", "", "C22"), (T+"shapelib.py", "", "C23"), (T+"shapelib.py", "ShortestPath|FindShortest|AddPathTo|Reconstruct|AddNode|AddPoly|Merge|FindMatch", "C23"),
 (T+"loader.py", "", "C04 C03 C02"), (T+"problems.py", "^(?!Format|_Line|__str__)", "C14 C03"), (T+"fareattribute.py", "", "C28 C27"), (T+"farerule.py", "", "C28"), (T+"transfer.py", "", "C28 C27"), (T+"agency.py", "", "C27 C05 C03"),
 (T+"route.py", "", "C27 C05 C03 C20"), (T+"feedinfo.py", "", "C27 C03"), (T+"frequency.py", "", "C10 C03"), (T+"gtfsfactory.py", "", "C19"), (T+"gtfsobjectbase.py", "", "C01 C19"),
 ("upgrade_translations.py", "", "C24"), ("visualize_pathways.py", "", "C25"), ("unusual_trip_filter.py", "", "C26"),
]
cases = {}
def prepared(prop):
    if prop in cases: return cases[prop]
    res = []
    for P in importlib.import_module("props." + prop.lower()).PARTS:
        part = P(True, 1); wd = tempfile.mkdtemp()
        cs, _ = part.spec_cases(wd)
        cs = cs + part.gen(random.Random("%s/%s/%s" % (prop, part.name, 1)))
        for i, c in enumerate(cs): c.setdefault("id", "c%d" % i)
        res.append((part, cs)); shutil.rmtree(wd)
    cases[prop] = res
    return res
def verdict(prop):
    for part, cs in prepared(prop):
        wd = tempfile.mkdtemp()
        try:
            logs = fw.run_driver(part.driver, cs, wd, case_timeout=min(20, part.case_timeout), env=part.env)
            by = {c["id"]: c for c in cs}
            bad = [l for l in logs if l.get("crash")]
            if any(not l.get("lib") for l in bad): return "BROKEN " + str([l.get("tb","")[-200:] for l in bad if not l.get("lib")][:1])
            if bad: return "caught"
            f, _ = fw.validate(part.trace, part.trace + ".cfg", [part.post(by[l["id"]], l) for l in logs], wd)
            if f: return "caught %d" % len(f)
        except fw.MachineryError as e: return "BROKEN " + str(e)[-150:].replace("\n", " ")
        finally: shutil.rmtree(wd, ignore_errors=True)
    return ""
def functions(lines):
    name, ind, res = None, 0, []
    stack = []
    for l in lines:
        m = re.match(r"( *)(def|class) (\w+)", l)
        if l.strip():
            k = len(l) - len(l.lstrip())
            while stack and k <= stack[-1][0]: stack.pop()
        if m and m.group(2) == "def": stack.append((len(m.group(1)), m.group(3)))
        res.append(stack[-1][1] if stack else None)
    return res
SW = {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "==", "+": "-", "-": "+", "and": "or", "or": "and", "True": "False", "False": "True", "*": "+", "+=": "-=", "continue": "break", "not": "", "min": "max", "max": "min", "is not": "is", "break": "continue"}
def mutants(path, pat):
    text = open(os.path.join(SRC, path), encoding="utf-8").read(); lines = text.split("\n"); fn = functions(lines); res = []
    try: toks = list(tokenize.generate_tokens(io.StringIO(text).readline))
    except Exception: toks = []
    for i, t in enumerate(toks):
        r = t.start[0] - 1
        if fn[r] is None or not re.search(pat, fn[r]): continue
        l = lines[r]; a, b = t.start[1], t.end[1]
        if re.match(r"\s*(def|class|@|print|import|from|raise|\"|')", l): continue
        def put(x): res.append((r, l[:a] + x + l[b:]))
        if t.string in SW and t.type in (tokenize.OP, tokenize.NAME):
            if t.string == "not" and (toks[i-1].string == "is" or toks[i+1].string == "in"): continue
            put(SW[t.string])
        elif t.type == tokenize.NUMBER and t.string.isdigit(): put(str(int(t.string) + 1)); 
        elif t.string == "if" and l.strip().startswith("if ") and l.rstrip().endswith(":"):
            k = len(l) - len(l.lstrip()); res.append((r, l[:k] + "if True:")); res.append((r, l[:k] + "if False:"))
    for r, l in enumerate(lines):
        if fn[r] and re.search(pat, fn[r]) and re.match(r"\s+[\w.\[\]'\"]+( [-+]?= .*|\(.*\))$", l) and not re.match(r"\s*(return|print|def|raise)", l) and l.count("(") == l.count(")") and l.count("[") == l.count("]") and l.count("{") == l.count("}") and '"""' not in l:
            res.append((r, l[:len(l) - len(l.lstrip())] + "pass"))
    return lines, fn, [m for m in res if m[1] != lines[m[0]]]
subprocess.check_call("cp -a %s/. %s/" % (SRC, REPO), shell=True)
rng = random.Random(SEED)
targets = [t for t in MAP if ONLY is None or t[0] == ONLY]
done = 0; seen = set(); t0 = time.time()
pool = []
for t in targets:
    lines, fn, ms = mutants(t[0], t[1] or "")
    rng.shuffle(ms)
    pool += [(t, lines, fn, m) for m in ms[:max(2, N * 3 // len(targets) + 1)]]
rng.shuffle(pool)
for t, lines, fn, (r, new) in pool:
    if done >= N: break
    if (t[0], r, new) in seen: continue
    seen.add((t[0], r, new)); done += 1
    p = os.path.join(REPO, t[0])
    open(p, "w", encoding="utf-8").write("\n".join(lines[:r] + [new] + lines[r+1:]))
    got = ""
    for prop in t[2].split():
        v = verdict(prop)
        if v: got = prop + " " + v; break
    shutil.copy(os.path.join(SRC, t[0]), p)
    print(("%-14s" % ("caught" if got and "BROKEN" not in got else "BROKEN" if got else "SURVIVED")), t[0], r + 1, fn[r], "|", lines[r].strip()[:110], "=>", new.strip()[:110], "|", got[:200] or t[2], flush=True)
shutil.rmtree(REPO)
print("END", done, int(time.time() - t0), "s")
