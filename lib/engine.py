"""Engine shared by all checks: build the driver from /repo, generate cases with TLC, run them on the real
code, validate the recorded traces with TLC, confirm rejections, write evidence."""
import concurrent.futures, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
OUT = os.path.join(VERIF, "out")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = os.cpu_count() or 4
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
T0 = time.time()


class CheckError(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


_built = {}


_lock = threading.RLock()


def build(flavour="plain"):
    """Build the driver from the repository's working tree; returns the build directory."""
    with _lock:
        return _build(flavour)


def _build(flavour):
    if flavour in _built:
        return _built[flavour]
    out = os.path.join(OUT, "build-" + flavour)
    # object files are keyed by the content of the sources, never by their timestamps
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + "/*.h") + glob.glob(REPO + "/*/*.h") + glob.glob(REPO + "/*/*.cc") + glob.glob(os.path.join(VERIF, "harness", "*"))):
        h.update(f.encode() + b"\0" + open(f, "rb").read())
    stamp = os.path.join(out, "stamp")
    if os.path.exists(out) and not (os.path.exists(stamp) and open(stamp).read() == h.hexdigest()):
        shutil.rmtree(out)
    if os.path.exists(stamp) and os.path.exists(os.path.join(out, "driver")):
        _built[flavour] = out
        return out
    extra = {"plain": "", "asan": "-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer"}[flavour]
    r = sh(["make", "-s", "-j%d" % (NPROC + 1), "-C", os.path.join(VERIF, "harness"), "REPO=" + REPO, "OUT=" + out, "EXTRA=" + extra])
    if r.returncode != 0:
        raise CheckError("building the driver from %s failed:\n%s" % (REPO, r.stdout[-3000:]))
    with open(stamp, "w") as f:
        f.write(h.hexdigest())
    log("driver built (%s)" % flavour)
    _built[flavour] = out
    return out


_jlock = threading.RLock()
_lock2 = threading.RLock()


def java_dir():
    with _jlock:
        return _java_dir()


def _java_dir():
    d = os.path.join(OUT, "java")
    os.makedirs(d, exist_ok=True)
    src = sorted(glob.glob(os.path.join(SPEC, "java", "*.java")))
    cls = os.path.join(d, "BigInt.class")
    if not os.path.exists(cls) or os.path.getmtime(cls) < max(os.path.getmtime(x) for x in src):
        r = sh(["javac", "-cp", JARS, "-d", d] + src)
        if r.returncode != 0:
            raise CheckError("javac: " + r.stdout)
    return d


class TLC:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        self.error = rc != 0
        self.evalerror = any(x in out for x in ("Error evaluating", "The error occurred when TLC was evaluating", "The exception was a", "Evaluating assumption")) and "OutOfMemory" not in out


def tlc(module, cfg_text, workdir, env=None, workers="auto", heap="8g", args=(), timeout=800):
    os.makedirs(workdir, exist_ok=True)
    jd = java_dir()
    for f in glob.glob(os.path.join(SPEC, "*.tla")):
        shutil.copy(f, workdir)
    for f in glob.glob(os.path.join(jd, "*.class")):
        shutil.copy(f, workdir)
    cfg = os.path.join(workdir, module + "_run.cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    e = dict(os.environ)
    e.update(env or {})
    e["VERIF_SEED"], e["VERIF_TIER"] = str(SEED), TIER
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Djava.io.tmpdir=" + workdir, "-Xmx" + heap, "-Xss512m", "-XX:+UseParallelGC", "-cp", JARS + ":" + workdir, "tlc2.TLC", "-workers", str(workers),
           "-metadir", os.path.join(workdir, "states-%d" % int(time.time() * 1e6)), "-noGenerateSpecTE", "-config", cfg] + list(args) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=workdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + module)
    for d in glob.glob(os.path.join(workdir, "states-*")):
        shutil.rmtree(d, ignore_errors=True)
    return TLC("\n".join(x for x in r.stdout.split("\n") if not re.match(r"(Loading|Parsing|Semantic|Linting) ", x)), r.returncode)


def run_driver(sessions_file, trace_file, flavour="plain", env=None, shards=None, timeout=800):
    b = build(flavour)
    shards = shards or NPROC
    e = dict(os.environ)
    e.setdefault("OMP_NUM_THREADS", "1")
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1"
    e["DRIVER_CLAIM"], e["DRIVER_TIMES"] = trace_file + ".claim", trace_file + ".times"
    if TIER == "quick":
        e["DRIVER_CAP"] = "90" if "/K" in trace_file[len(OUT):] else "240"
    for x in (e["DRIVER_CLAIM"], e["DRIVER_TIMES"], e["DRIVER_CLAIM"] + ".hung"):
        if os.path.exists(x):
            os.remove(x)
    e.update(env or {})
    ps = []
    for i in range(shards):
        ps.append(subprocess.Popen([os.path.join(b, "driver"), sessions_file, trace_file + ".%d" % i, str(i), str(shards)],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=os.path.dirname(trace_file)))
    end = time.time() + timeout
    for p in ps:
        try:
            o, _ = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            for q in ps:
                q.kill()
            raise CheckError("driver timed out")
        if p.returncode != 0:
            raise CheckError("driver failed: " + o[-2000:])
    lines = []
    for i in range(shards):
        with open(trace_file + ".%d" % i) as f:
            lines += [x for x in f if x.strip()]
        os.remove(trace_file + ".%d" % i)
    lines.sort(key=lambda x: int(re.match(r'\{"sid":(\d+)', x).group(1)))
    with open(trace_file, "w") as f:
        f.writelines(lines)
    return lines


TRACE_CFG = "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n"


class Check:
    def __init__(self, pid, module=None, level="model_checking"):
        self.pid, self.module, self.level = pid, module or pid, level
        self.dir = os.path.join(OUT, "run", pid + "-" + TIER)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.parts = [], [], []
        self.rejections = []
        self.known = load_known(pid)
        self.known_seen = []
        self.count = 0
        self.pool = concurrent.futures.ThreadPoolExecutor(3)
        self.pending = []
        # the driver is built while the models are checked and the cases are generated
        self.builder = threading.Thread(target=self._prebuild, daemon=True)
        self.builder.start()

    def _prebuild(self):
        try:
            build("plain")
        except CheckError:
            pass        # reported again where the build is needed

    def join(self):
        for f in self.pending:
            f.result()
        self.pending = []

    # ---- design-level model checking -------------------------------------------------------------
    def model(self, *args, **kw):
        self.pending.append(self.pool.submit(self._model, *args, **kw))

    def refute(self, *args, **kw):
        self.pending.append(self.pool.submit(self._refute, *args, **kw))

    def _subdir(self, prefix):
        with _lock2:
            self.count += 1
            return os.path.join(self.dir, "%s-%d" % (prefix, self.count))

    def _model(self, module, cfg, args=(), expect_states=1, workers=4, env=None, timeout=600):
        w = self._subdir("model-" + module)
        r = tlc(module, cfg, w, args=args, workers=workers, env=dict(env or {}, MODE="model"), timeout=timeout)
        if r.rc != 0:
            raise CheckError("model %s is not accepted by TLC:\n%s" % (module, r.out[-4000:]))
        if r.distinct < expect_states:
            raise CheckError("model %s: only %d states" % (module, r.distinct))
        with _lock2:
            self.states += r.distinct
            self.transitions += r.generated
        self.parts.append({"model": module, "distinct_states": r.distinct, "generated": r.generated})
        log("model %s: %d distinct states, %d generated" % (module, r.distinct, r.generated))
        return r

    def _refute(self, module, cfg, args=(), env=None, timeout=600):
        """A variant of the model known to be wrong: TLC has to find a counterexample (so the invariants are not vacuous)."""
        w = self._subdir("refute-" + module)
        r = tlc(module, cfg, w, args=args, workers=4, env=dict(env or {}, MODE="model"), timeout=timeout)
        if r.rc == 0 or not re.search(r"is violated|was violated|Temporal properties were violated|Deadlock reached", r.out):
            raise CheckError("model %s: the wrong variant is not refuted:\n%s" % (module, r.out[-3000:]))
        self.parts.append({"model": module, "refuted_variant": re.sub(r"\s+", " ", cfg)[-200:]})
        log("model %s: wrong variant refuted" % module)

    def behaviours(self, module, cfg, env=None, timeout=600, expect_states=1):
        """Model check and collect the JSON values the model prints (lines "@@..."), one worker so that histories are shortest."""
        r = self._model(module, cfg, workers=1, env=env, timeout=timeout, expect_states=expect_states)
        return [json.loads(json.loads('"' + x + '"')) for x in re.findall(r'^"@@(.*)"$', r.out, re.M)]

    # ---- generation -------------------------------------------------------------------------------
    def generate(self, module=None, env=None, name="cases", timeout=600, shards=1):
        """Let TLC evaluate the module's generator (split over several processes when the module supports it); returns the list of sessions."""
        module = module or self.module
        f = os.path.join(self.dir, name + ".ndjson")

        def one(k):
            fk = f + ".%d" % k
            w = os.path.join(self.dir, "gen-%s-%d" % (name, k))
            r = tlc(module, TRACE_CFG, w, env=dict(env or {}, MODE="gen", OUTFILE=fk, SHARD=str(k), SHARDS=str(shards)), workers=1, timeout=timeout, heap="8g" if shards == 1 else "3g")
            if not os.path.exists(fk):
                raise CheckError("generator %s failed:\n%s" % (module, r.out[-4000:]))
            return [x for x in open(fk) if x.strip()]
        with concurrent.futures.ThreadPoolExecutor(shards) as ex:
            parts = list(ex.map(one, range(shards)))
        with open(f, "w") as h:
            for q in parts:
                h.writelines(q)
        with open(f) as h:
            ss = [json.loads(x) for x in h if x.strip()]
        log("%s: TLC generated %d sessions, %d commands" % (module, len(ss), sum(len(s["cmds"]) for s in ss)))
        return ss

    # ---- execution + validation -------------------------------------------------------------------
    def conform(self, sessions, module=None, flavour="plain", env=None, tenv=None, name="t", shards=None, confirm=True, timeout=800, dtimeout=800, batch=None, runner=None, keep=False):
        """Run sessions on the real code and validate the traces against the spec; collects rejections."""
        module = module or self.module
        for i, s in enumerate(sessions):
            s["sid"] = i + 1
        rej, n, ev, lines = self._once(sessions, module, flavour, env, tenv, name, shards, timeout, dtimeout, runner)
        self.traces += n
        self.events += ev
        self.parts.append({"conformance": module, "part": name, "sessions": n, "events": ev})
        log("%s/%s: %d sessions, %d events validated, %d rejected" % (module, name, n, ev, len(rej)))
        if len(self.samples) < 6 and lines:
            for k in sorted(set([0, len(lines) // 2])):
                self.samples.append(lines[k].strip()[:600])
        tried = 0
        # sessions that were cut short after another one hung come last
        took = {}
        if os.path.exists(os.path.join(self.dir, name + ".trace.ndjson.times")):
            took = dict((int(x.split()[0]), int(x.split()[1])) for x in open(os.path.join(self.dir, name + ".trace.ndjson.times")))
        rej.sort(key=lambda r: 1 if r[2].endswith("timeout") and took.get(r[0], 1 << 40) < 60000 else 0)
        for (sid, i, why) in rej:
            sess = [s for s in sessions if s["sid"] == sid]
            if not sess:
                raise CheckError("rejected session %r not found: %s" % (sid, why))
            k = match_known(self.known, {"why": why, "session": sess[0]})
            if k:
                if k not in self.known_seen:
                    self.known_seen.append(k)
                continue
            tried += 1
            if tried > 6 or len(self.rejections) >= 6 or (self.rejections and TIER == "quick" and time.time() - T0 > 250):
                continue
            one = json.loads(json.dumps(sess[0]))
            if confirm:
                r2, _, _, l2 = self._once([one], module, flavour, env, tenv, name + "-confirm", 1, timeout, dtimeout, runner)
                tries = 1
                while not r2 and tries < 3 and confirm == "schedule":
                    r2, _, _, l2 = self._once([one], module, flavour, env, tenv, name + "-confirm", 1, timeout, dtimeout, runner)
                    tries += 1
                if not r2:
                    self.notes.append("session %d rejected once (%s) but not on re-run" % (sid, why))
                    log("NOT CONFIRMED:", why)
                    continue
                why = r2[0][2]
                ln = l2[0]
            else:
                ln = [x for x in lines if x.startswith('{"sid":%d,' % sid)][0]
            self.rejections.append({"module": module, "sid": sid, "event": i, "why": why, "session": one, "trace": ln, "tenv": tenv or {}, "flavour": flavour})
        if tried > 6:
            self.notes.append("%d further rejected sessions not re-run" % (tried - 6))
        return lines

    def _once(self, sessions, module, flavour, env, tenv, name, shards, timeout, dtimeout, runner=None):
        sf, tf = os.path.join(self.dir, name + ".in.ndjson"), os.path.join(self.dir, name + ".trace.ndjson")
        with open(sf, "w") as f:
            for s in sessions:
                f.write(json.dumps(s) + "\n")
        if runner:
            lines = runner(sf, tf, sessions)
        else:
            lines = run_driver(sf, tf, flavour, env, shards, dtimeout)
        if len(lines) != len(sessions):
            raise CheckError("driver returned %d sessions of %d" % (len(lines), len(sessions)))
        log("%s: %d sessions executed on the real code" % (name, len(lines)))
        rej = self.validate(tf, lines, module, tenv, name, timeout)
        ev = sum(len(json.loads(x)["ev"]) for x in lines)
        return rej, len(lines), ev, lines

    def validate(self, tf, lines, module, tenv, name, timeout):
        w = os.path.join(self.dir, "val-" + name)
        rej, todo, cur = [], None, lines
        nev = None
        for attempt in range(12):
            r = tlc(module, TRACE_CFG, w, env=dict(tenv or {}, MODE="trace", TRACE=tf), timeout=timeout)
            found = [(int(a), int(b), re.sub(r"\s+", " ", c)) for a, b, c in re.findall(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*"([^"]*)"\s*>>', r.out)]
            self.states += r.distinct
            self.transitions += r.generated
            if r.rc == 0:
                rej += sorted(set(found))
                evs = sum(len(json.loads(x)["ev"]) + 2 for x in cur)
                lost = sum(len(json.loads(x)["ev"]) + 2 for x in cur if any(int(re.match(r'\{"sid":(\d+)', x).group(1)) == f[0] for f in found))
                if not (evs - lost <= r.distinct <= evs):
                    raise CheckError("TLC visited %d states, expected %d (%s)\n%s" % (r.distinct, evs, module, r.out[-1500:]))
                return rej
            # the specification could not even be evaluated on some event: that session is not a behaviour of it
            if not r.evalerror or "Parsing or semantic analysis failed" in r.out:
                raise CheckError("TLC failed on %s:\n%s" % (module, r.out[-4000:]))
            st = re.findall(r"/\\ l = (\d+)", r.out), re.findall(r"/\\ s = (\d+)", r.out)
            if not st[0] or not st[1]:
                raise CheckError("TLC failed on %s:\n%s" % (module, r.out[-4000:]))
            idx = int(st[1][-1])
            sid = int(re.match(r'\{"sid":(\d+)', cur[idx - 1]).group(1))
            msg = re.sub(r"\s+", " ", r.out[r.out.find("Error:"):][:300]).replace('"', "'")
            rej.append((sid, int(st[0][-1]), "the specification cannot be evaluated on this event: " + msg))
            rej += [f for f in found if f[0] != sid]
            bad = set(x[0] for x in rej)
            cur = [x for x in cur if int(re.match(r'\{"sid":(\d+)', x).group(1)) not in bad]
            if not cur:
                return rej
            with open(tf, "w") as f:
                f.writelines(cur)
        return rej

    def clean(self):
        for d in glob.glob(os.path.join(self.dir, "scr-*")):
            shutil.rmtree(d, ignore_errors=True)

    # ---- end --------------------------------------------------------------------------------------
    def finish(self, rule, assumptions=(), exhaustive=None, extra=None):
        self.join()
        viol = []
        self.clean()
        for r in self.rejections:
            k = match_known(self.known, r)
            if k:
                if k not in self.known_seen:
                    self.known_seen.append(k)
            else:
                viol.append(r)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "samples": self.samples or ["(none)"], "rule": rule, "parts": self.parts, "notes": self.notes}
        if exhaustive is not None:
            cov["exhaustive"] = exhaustive
        if extra:
            cov.update(extra)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - T0, 1), "violations": len(viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known_seen:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if viol:
            rd = os.path.join(OUT, "replay")
            os.makedirs(rd, exist_ok=True)
            for n, v in enumerate(viol[:3]):
                p = os.path.join(rd, "%s-%d.json" % (self.pid, n))
                with open(p, "w") as f:
                    json.dump(dict(v, property=self.pid, how="VERIF replay: /verif/bin/replay " + p), f, indent=1)
                log("rejected event %s of session %s: %s" % (v["event"], v["sid"], v["why"]))
                print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)
            return 1
        log("held on everything explored: %d states, %d traces, %d events" % (self.states, self.traces, self.events))
        if not self.samples:
            self.notes.append("no samples")
        # keep the run directory small
        self.clean()
        for d in glob.glob(os.path.join(self.dir, "*")):
            if os.path.isdir(d):
                shutil.rmtree(d, ignore_errors=True)
        return 0


def load_known(pid):
    f = os.path.join(VERIF, "KNOWN_FINDINGS")
    if not os.path.exists(f):
        return []
    return [k for k in (json.loads(x) for x in open(f) if x.strip() and x.startswith("{")) if k.get("property") == pid and k.get("status") == "known"]


def match_known(known, r):
    for k in known:
        if k.get("why") == r["why"] and all(r["session"].get(a) == b for a, b in k.get("session", {}).items()):
            return k
    return None
