"""Check framework: generate cases, replay them in the real code (Jython drivers),
evaluate the recorded logs against the TLA+ specification (TLC), report."""
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JYTHON = "/opt/jy/bin/jython"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = int(os.environ.get("VERIF_PROCS") or min(8, os.cpu_count() or 4))


class MachineryError(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)

T0 = time.time()


# ---------------------------------------------------------------- processes
_children = set()
_lock = threading.Lock()


def _spawn(cmd, **kw):
    p = subprocess.Popen(cmd, start_new_session=True, **kw)
    with _lock:
        _children.add(p)
    return p


def _reap(p):
    with _lock:
        _children.discard(p)


def _kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def kill_all():
    with _lock:
        ps = list(_children)
    for p in ps:
        _kill(p)


# ---------------------------------------------------------------- Jython side
class Shard(threading.Thread):
    """Runs one driver process over its cases; survives hangs and JVM deaths of
    the code under test by recording them for the case and going on."""

    def __init__(self, driver, cases, wd, idx, case_timeout, env):
        super().__init__()
        self.driver, self.cases, self.wd, self.idx = driver, cases, wd, idx
        self.case_timeout, self.env = case_timeout, env
        self.logs, self.error = [], None

    def run(self):
        try:
            self._run()
        except Exception as e:       # surfaces in run_driver
            self.error = e

    def _run(self):
        todo, attempt, barren = list(self.cases), 0, 0
        while todo:
            attempt += 1
            sd = os.path.join(self.wd, "s%d_%d" % (self.idx, attempt))
            os.makedirs(os.path.join(sd, "tmp"))
            cin, cout = os.path.join(sd, "in.ndjson"), os.path.join(sd, "out.ndjson")
            with open(cin, "w") as f:
                for c in todo:
                    f.write(json.dumps(c) + "\n")
            env = dict(os.environ)
            for k in ("PYTHONPATH", "JYTHONPATH", "JAVA_TOOL_OPTIONS"):
                env.pop(k, None)
            env.update(LANG="C.UTF-8", TZ="UTC", VERIF_REPO=REPO, VERIF_DRV=os.path.join(ROOT, "drv"),
                       TMPDIR=os.path.join(sd, "tmp"))
            env.update(self.env)
            err = open(os.path.join(sd, "err.txt"), "wb")
            p = _spawn([JYTHON, os.path.join(ROOT, "drv", "base.py"), self.driver, cin, cout],
                       cwd=os.path.join(sd, "tmp"), env=env, stdin=subprocess.DEVNULL,
                       stdout=err, stderr=err)
            last, seen, start = time.time(), -1, time.time()
            hung = False
            while p.poll() is None:
                time.sleep(0.1)
                try:
                    n = os.path.getsize(cout)
                except OSError:
                    n = 0
                if n != seen:
                    seen, last = n, time.time()
                limit = self.case_timeout if seen > 0 else max(120, self.case_timeout)
                if time.time() - last > limit:
                    hung = True
                    _kill(p)
                    break
            _reap(p)
            err.close()
            done = []
            if os.path.exists(cout):
                with open(cout, "rb") as f:
                    for line in f.read().split(b"\n"):
                        if line.strip():
                            try:
                                done.append(json.loads(line.decode("utf-8")))
                            except ValueError:
                                break
            ready = bool(done) and done[0].get("ready")
            done = done[1:] if ready else []
            self.logs.extend(done)
            todo = todo[len(done):]
            if todo and (hung or p.returncode != 0):
                tail = open(os.path.join(sd, "err.txt"), "rb").read()[-3000:].decode("utf-8", "replace")
                if not ready:
                    barren += 1
                    if barren > 1:
                        raise MachineryError("driver %s did not start: %s" % (self.driver, tail))
                    continue
                c = todo.pop(0)
                self.logs.append(dict(id=c["id"], crash=("no answer within %ds" % self.case_timeout) if hung
                                      else "process died (rc %s)" % p.returncode, tb=tail, lib=True))
            elif todo:
                raise MachineryError("driver %s stopped early" % self.driver)
            shutil.rmtree(sd, ignore_errors=True)


def run_driver(driver, cases, wd, shards=None, case_timeout=60, env=None):
    shards = shards or min(NPROC, max(1, len(cases) // 4))
    parts = [cases[i::shards] for i in range(shards)]
    ths = [Shard(driver, p, wd, i, case_timeout, env or {}) for i, p in enumerate(parts) if p]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    for t in ths:
        if t.error:
            raise t.error
    logs = {}
    for t in ths:
        for l in t.logs:
            logs[l["id"]] = l
    if len(logs) != len(cases):
        raise MachineryError("driver %s: %d logs for %d cases" % (driver, len(logs), len(cases)))
    return [logs[c["id"]] for c in cases]


# ---------------------------------------------------------------- TLC side
def tlc(module, cfg, wd, env=None, workers=1, args=(), timeout=600, heap="2g"):
    """Runs TLC on spec/<module>.tla with spec/<cfg>; returns (rc, output)."""
    md = tempfile.mkdtemp(prefix="tlc_", dir=wd)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m",
           "-XX:TieredStopAtLevel=4", "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + md,
           "-cp", TLA_CP, "tlc2.TLC", "-config", cfg, "-metadir", os.path.join(md, "m"),
           "-workers", str(workers), "-noGenerateSpecTE"] + list(args) + [module + ".tla"]
    out = open(os.path.join(md, "out.txt"), "wb")
    p = _spawn(cmd, cwd=os.path.join(ROOT, "spec"), env=e, stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.STDOUT)
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        _kill(p)
        out.close()
        raise MachineryError("TLC %s timed out after %ds" % (module, timeout))
    finally:
        _reap(p)
    out.close()
    text = open(os.path.join(md, "out.txt"), "rb").read().decode("utf-8", "replace")
    shutil.rmtree(md, ignore_errors=True)
    return p.returncode, text


def tlc_counts(text):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text.replace(",", ""))
    m = m or re.findall(r"(\d+) states generated (\d+) distinct states found", text.replace(",", ""))
    if m:
        return int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"The number of states generated: ([\d,]+)", text)
    if m:
        n = int(m[-1].replace(",", ""))
        return n, n
    return 0, 0


def model_check(module, cfg, wd, workers=4, timeout=600, args=(), env=None):
    """Exhaustive (or simulated) check of the design; any error is a machinery
    error: the specification is ours and must satisfy its properties."""
    rc, text = tlc(module, cfg, wd, workers=workers, timeout=timeout, args=args, env=env, heap="6g")
    if rc != 0:
        raise MachineryError("TLC on %s/%s: rc %d\n%s" % (module, cfg, rc, (text[text.find("Error"):] if "Error" in text else text)[:2500]))
    gen, dist = tlc_counts(text)
    return dict(module=module, cfg=cfg, states=dist, transitions=gen), text


PRINT_JSON = re.compile(r'^<<"(?:CASE|BEH)", (".*")>>$')


def printed_json(text):
    """Values printed by PrintT(<<"BEH", ToJson(x)>>), in order, without repeats."""
    seen, res = set(), []
    for line in text.split("\n"):
        m = PRINT_JSON.match(line.strip())
        if m:
            s = m.group(1)
            if s not in seen:
                seen.add(s)
                res.append(json.loads(json.loads(s)))
    return res


FAIL = re.compile(r'<<\s*"FAIL",\s*(".*?"),\s*(\d+),\s*(\{.*?\})\s*>>', re.S)
DONE = re.compile(r'<<\s*"DONE",\s*(\d+)\s*>>')


def validate(module, cfg, logs, wd, shards=None, timeout=700, consts=None):
    """Evaluates logs against the trace specification; returns
    (failures {case id: (event index, clause text)}, states)."""
    if not logs:
        return {}, 0
    shards = shards or min(NPROC, max(1, len(logs) // 10))
    parts = [logs[i::shards] for i in range(shards)]

    def one(i, part):
        f = os.path.join(wd, "trace_%s_%d_%d.ndjson" % (module, i, threading.get_ident()))
        with open(f, "w") as h:
            for l in part:
                h.write(json.dumps(l) + "\n")
        env = dict(TRACE=f)
        env.update(consts or {})
        rc, text = tlc(module, cfg, wd, env=env, timeout=timeout, heap="3g")
        done = DONE.findall(text)
        fails = {}
        for cid, ev, cl in FAIL.findall(text):
            fails[json.loads(cid)] = (int(ev), " ".join(cl.split()))
        os.unlink(f)
        if rc == 0 and done and int(done[-1]) == len(part):
            return fails, tlc_counts(text)[1]
        # TLC could not evaluate some case: find it by bisection; a single case
        # whose observation has no place in the specification's state space is
        # itself a failure ("not evaluable"), provided that others evaluate.
        if len(part) == 1:
            m = re.search(r"(?s)Error: (.*?)(?:\n\n|The error occurred|The behavior up to)", text)
            return {part[0]["id"]: (0, "{\"not evaluable: %s\"}" % " ".join((m.group(1) if m else text[-1500:]).split())[:1200])}, 0
        h = len(part) // 2
        a, na = one(i, part[:h])
        b, nb = one(i, part[h:])
        a.update(b)
        return a, na + nb

    fails, states = {}, 0
    with ThreadPoolExecutor(shards) as ex:
        for f, n in ex.map(lambda ip: one(*ip), enumerate(parts)):
            fails.update(f)
            states += n
    return fails, states


# ---------------------------------------------------------------- canaries
def corrupt(x, rng, within=()):
    """A copy of log x with one recorded observation (a leaf below a key "o", and
    below one of the keys within) changed; None if it has none."""
    x = json.loads(json.dumps(x))
    slots = []

    def walk(v, parent, key, obs, inside):
        if isinstance(v, dict):
            for k in v:
                walk(v[k], v, k, obs or k == "o", inside or k in within)
        elif isinstance(v, list):
            if obs and inside and v:
                slots.append((parent, key, "drop"))
            for i, y in enumerate(v):
                walk(y, v, i, obs, inside)
        elif obs and inside:
            slots.append((parent, key, "leaf"))
    walk(x, None, None, False, not within)
    if not slots:
        return None
    p, k, kind = rng.choice(slots)
    v = p[k]
    if kind == "drop":
        i = rng.randrange(len(v))
        p[k] = v[:i] + v[i + 1:]
    elif isinstance(v, bool):
        p[k] = not v
    elif isinstance(v, int):
        p[k] = v + rng.choice([1, -1, 1000])
    else:
        p[k] = v + "~"
    return x


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    res = []
    f = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3).strip()))
    return res


# ---------------------------------------------------------------- the check
class Check:
    """One property. Sub-classes set the attributes and override gen()."""
    prop = None
    parts = ()          # sequence of Part

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.quick = tier == "quick"


class Part:
    """A driver + trace specification pair within a check."""
    name = ""
    driver = ""
    trace = ""           # TLA+ trace module (cfg: same name)
    mc = ()              # [(module, cfg)] exhaustive checks of the design
    mc_thorough = ()
    mc_args = ()
    case_timeout = 60
    env = {}
    canaries = 12
    canary_within = ()

    def __init__(self, quick, seed):
        self.quick, self.seed = quick, seed

    def spec_cases(self, wd):
        """(cases from specification behaviours, mc stats list)"""
        return [], []

    def gen(self, rng):
        return []

    def key(self, case, log, fail):
        """Signature for matching known findings."""
        return None

    def post(self, case, log):
        """Prepares the log for TLC (default: as recorded)."""
        return log

    def nontrivial(self, log):
        return True


def run_check(prop, parts, tier, seed, level="model_checking", assumptions=(), replay=None):
    t0 = time.time()
    wd = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    rc = 2
    try:
        rc = _run_check(prop, parts, tier, seed, level, assumptions, wd, t0, replay)
    except MachineryError as e:
        print("ERROR property=%s %s" % (prop, e), flush=True)
    finally:
        kill_all()
        shutil.rmtree(wd, ignore_errors=True)
    return rc


def _run_check(prop, parts, tier, seed, level, assumptions, wd, t0, replay):
    states = transitions = traces = 0
    mcs, samples, cover, violations = [], [], {}, []
    known = known_findings(prop)
    known_hit = set()
    canary_n = canary_hit = 0
    for part in parts:
        rng = random.Random("%s/%s/%s" % (prop, part.name, seed))
        pw = os.path.join(wd, part.name or "p")
        os.makedirs(pw)
        if replay:
            if replay["part"] != part.name:
                continue
            cases = [replay["case"]]
        else:
            with ThreadPoolExecutor(4) as ex:
                futs = [ex.submit(model_check, m, c, pw, 4, 800, part.mc_args) for m, c in (part.mc if part.quick or not part.mc_thorough else part.mc_thorough)]
                cases, st = part.spec_cases(pw)
                nspec = len(cases)
                for i, c in enumerate(cases):
                    c.setdefault("id", "%s-spec-%d" % (part.name, i))
                g = part.gen(rng)
                for i, c in enumerate(g):
                    c.setdefault("id", "%s-gen-%d" % (part.name, i))
                cases = cases + g
                log("%s: %d cases (%d from specification behaviours)" % (part.name, len(cases), nspec))
                logs_f = ex.submit(run_driver, part.driver, cases, pw, None, part.case_timeout, part.env)
                logs = logs_f.result()
                log("%s: %d logs recorded" % (part.name, len(logs)))
                st = list(st) + [f.result()[0] for f in futs]
            for s in st:
                mcs.append(s)
                states += s["states"]
                transitions += s["transitions"]
            log("%s: models checked: %s" % (part.name, ["%s/%s %d" % (s["module"], s["cfg"], s["states"]) for s in st]))
        if replay:
            logs = run_driver(part.driver, cases, pw, 1, part.case_timeout, part.env)
        bycase = {c["id"]: c for c in cases}
        crashes = [l for l in logs if "crash" in l]
        good = [l for l in logs if "crash" not in l]
        for l in crashes:
            if not l.get("lib"):
                raise MachineryError("driver failed on %s: %s\n%s" % (l["id"], l["crash"], l.get("tb")))
        tlogs = [part.post(bycase[l["id"]], l) for l in good]
        can = []
        if not replay and tlogs:
            crng = random.Random("canary/%s/%s" % (part.name, seed))
            for i in range(part.canaries):
                for _ in range(25):
                    x = corrupt(crng.choice(tlogs), crng, part.canary_within)
                    if x:
                        break
                if x:
                    x["id"] = "canary-%d" % i
                    can.append(x)
        fails, n = validate(part.trace, part.trace + ".cfg", tlogs + can, pw)
        canary_n += len(can)
        canary_hit += sum(1 for x in can if x["id"] in fails)
        states += n
        transitions += n
        traces += len(tlogs)
        c = cover.setdefault(part.name, {})
        c["cases"] = len(cases)
        c["distinct"] = len({hashlib.md5(json.dumps({k: v for k, v in l.items() if k != "id"}, sort_keys=True).encode()).hexdigest() for l in tlogs})
        c["nontrivial"] = sum(1 for l in tlogs if part.nontrivial(l))
        c["trace_states"] = n
        c.update(part.stats(cases, tlogs) if hasattr(part, "stats") else {})
        for l in crashes:
            fails[l["id"]] = (0, '{"crash: %s"}' % l["crash"])
        byid = {l["id"]: l for l in logs}
        log("%s: %d logs validated, %d rejected, %d/%d canaries rejected" % (
            part.name, len(tlogs), len([f for f in fails if not f.startswith("canary-")]),
            sum(1 for x in can if x["id"] in fails), len(can)))
        for cid, (ev, clause) in sorted(fails.items()):
            if cid.startswith("canary-"):
                continue
            case, lg = bycase[cid], byid[cid]
            k = part.key(case, lg, (ev, clause))
            hit = [x for x in known if x[0] == k] if k else []
            if hit:
                known_hit.add(hit[0])
                continue
            violations.append((part.name, case, lg, ev, clause))
        samples += [json.loads(json.dumps(x)[:4000]) if len(json.dumps(x)) < 4000 else dict(id=x["id"], truncated=json.dumps(x)[:1500]) for x in tlogs[:1]]
    for k, what in known:
        if (k, what) in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for pname, case, lg, ev, clause in violations[:8]:
        d = os.path.join(ROOT, "replays", prop)
        os.makedirs(d, exist_ok=True)
        h = hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(d, "%s-%s.json" % (case["id"], h))
        with open(path, "w") as f:
            json.dump(dict(property=prop, part=pname, case=case, log=lg, event=ev, failed=clause), f, indent=1)
        print("  %s event %d: %s %s" % (case["id"], ev, clause[:600], " | ".join(x.strip() for x in (lg.get("tb") or "").strip().split("\n")[-3:]) if "crash" in lg else ""))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if len(violations) > 8:
        print("  ... and %d more" % (len(violations) - 8))
    if not violations and not replay and canary_n and canary_hit == 0:
        raise MachineryError("only %d of %d corrupted logs were rejected: the binding is too weak" % (canary_hit, canary_n))
    if not replay:
        ev = dict(property=prop, tier=tier, seed=seed, level=level,
                  coverage=dict(states=states, transitions=transitions, traces_validated_against_impl=traces,
                                samples=samples or ["none"], models=mcs, parts=cover,
                                corrupted_logs=canary_n, corrupted_logs_rejected=canary_hit),
                  assumptions=list(assumptions), wall_s=round(time.time() - t0, 1), violations=len(violations))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    log("%s %s: %d logs validated, %d violations" % (prop, tier, traces, len(violations)))
    return 1 if violations else 0
