"""Running TLC, the Go harness and trace validation; collecting evidence."""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
JAR = "/opt/veriftools/tla/tla2tools.jar"


class CheckError(Exception):
    """The check itself failed: no verdict."""


class Run:
    """One run of a check: where it writes, what it has covered so far."""

    def __init__(self, prop, tier):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        base = os.environ.get("VERIF_OUT", os.path.join(VERIF, "out"))
        self.dir = os.path.join(base, "%s-%s-%d" % (prop, tier, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.replays = os.path.join(base, "replay")
        os.makedirs(self.replays, exist_ok=True)
        self.states = self.transitions = self.traces = 0
        self.samples, self.parts, self.violations, self.assumptions = [], [], [], []
        self.lock = threading.Lock()
        self.n = 0
        self.exe = None
        self.log = []

    def path(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.dir, "%03d-%s" % (self.n, name))

    def note(self, *a):
        s = "[%6.1fs] " % (time.time() - self.t0) + " ".join(str(x) for x in a)
        print(s, flush=True)

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, args=(), workers=8, timeout=600, heap="6g", name=None):
        """Runs TLC; cfg is the name of a file in spec/ or the text of a configuration."""
        d = self.path(name or module)
        os.makedirs(d)
        if "\n" in cfg:
            cfgfile = os.path.join(d, module + ".cfg")
            open(cfgfile, "w").write(cfg)
        else:
            cfgfile = os.path.join(SPEC, cfg)
        e = dict(os.environ)
        e.update(env or {})
        cp = JAR
        for extra in sorted(os.listdir(os.path.dirname(JAR))):
            if extra.endswith(".jar") and extra != os.path.basename(JAR):
                cp += ":" + os.path.join(os.path.dirname(JAR), extra)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + d, "-cp", cp, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-config", cfgfile] + list(args) + [os.path.join(SPEC, module + ".tla")]
        outf = os.path.join(d, "out")
        try:
            with open(outf, "w") as f:
                rc = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s after %ds (%s)" % (module, timeout, outf))
        out = open(outf, errors="replace").read()
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        return rc, out

    def count(self, out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            return int(m[-1][0]), int(m[-1][1])
        m = re.findall(r"number of states generated: (\d+)", out)
        if m:
            return int(m[-1]), int(m[-1])
        return 0, 0

    def model_check(self, module, cfg, workers=8, timeout=600, heap="8g"):
        """Exhaustive check of a model. A violation here is a defect of the specification: an error."""
        t = time.time()
        rc, out = self.tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, name=module + "-mc")
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("model checking of %s failed (rc %d):\n%s" % (module, rc, out[-3000:]))
        gen, dist = self.count(out)
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.parts.append(dict(part="exhaustive model " + (cfg if "\n" not in cfg else module), states=dist,
                                   transitions=gen, wall_s=round(time.time() - t, 1)))

    def simulate(self, module, cfg, num, depth, seed=None, timeout=600, tag="SCRIPT", heap="3g"):
        """Random behaviours of a generator specification; returns the scripts they print."""
        t = time.time()
        rc, out = self.tlc(module, cfg, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed",
                                              str(seed if seed is not None else SEED)],
                           workers=1, timeout=timeout, heap=heap, name=module + "-gen")
        if rc != 0:
            raise CheckError("generation with %s failed (rc %d):\n%s" % (module, rc, out[-3000:]))
        res = self.printed(out, tag)
        if not res:
            raise CheckError("%s generated nothing:\n%s" % (module, out[-2000:]))
        gen, dist = self.count(out)
        with self.lock:
            self.transitions += gen
            self.parts.append(dict(part="behaviours of " + module, scripts=len(res), transitions=gen,
                                   wall_s=round(time.time() - t, 1)))
        return res

    @staticmethod
    def printed(out, tag="SCRIPT"):
        res = []
        pre = '"' + tag + " "
        for line in out.splitlines():
            if line.startswith(pre):
                res.append(json.loads(json.loads(line)[len(tag) + 1:]))
        return res

    def enumerate(self, module, cfg, tag="CASE", timeout=600, workers=1, heap="6g", env=None):
        """All cases an (exhaustively explored) specification prints."""
        t = time.time()
        rc, out = self.tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, name=module + "-enum", env=env)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("enumeration with %s failed (rc %d):\n%s" % (module, rc, out[-3000:]))
        res = self.printed(out, tag)
        if not res:
            raise CheckError("%s enumerated nothing:\n%s" % (module, out[-2000:]))
        gen, dist = self.count(out)
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.parts.append(dict(part="cases of " + module, cases=len(res), states=dist, transitions=gen,
                                   wall_s=round(time.time() - t, 1)))
        return res

    def accepted(self, module, cfg, cases, timeout=600, workers=8, heap="8g", env=None):
        """Which of the recorded cases are behaviours of the trace specification? Returns the set of
        indices (from 0) that are."""
        if not cases:
            return set()
        t = time.time()
        f = self.path(module + ".ndjson")
        with open(f, "w") as o:
            for c in cases:
                o.write(json.dumps(c) + "\n")
        e = dict(env or {})
        e["TRACE"] = f
        rc, out = self.tlc(module, cfg, env=e, workers=workers, timeout=timeout, heap=heap, name=module + "-val")
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("validation with %s failed (rc %d):\n%s" % (module, rc, "".join(re.findall(r"(?m)^Error: .*\n(?:.+\n){0,4}", out)) + out[-2000:]))
        acc = set(int(x) - 1 for x in re.findall(r'<<"ACCEPT", (\d+)>>', out))
        gen, dist = self.count(out)
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.traces += len(acc)
            self.parts.append(dict(part="traces validated against " + module, traces=len(cases), accepted=len(acc),
                                   states=dist, transitions=gen, wall_s=round(time.time() - t, 1)))
        return acc

    def reached(self, module, cfg, case, env=None):
        """How far a rejected case can be explained."""
        f = self.path("diag.ndjson")
        open(f, "w").write(json.dumps(case) + "\n")
        e = dict(env or {})
        e["TRACE"] = f
        try:
            if "\n" not in cfg:
                cfg = open(os.path.join(SPEC, cfg)).read()
            rc, out = self.tlc(module, cfg.replace("INVARIANTS Accepted", "INVARIANTS Reached Accepted"), env=e,
                               workers=1, timeout=120, name="diag")
        except CheckError:
            return None
        at = [int(x) for x in re.findall(r'<<"AT", 1, (\d+)>>', out)]
        return max(at) if at else None

    # -------------------------------------------------------------- harness
    def build(self):
        if self.exe:
            return self.exe
        d = os.path.join(self.dir, "build")
        os.makedirs(d)
        mod = open(os.path.join(VERIF, "harness", "go.mod")).read().replace("=> /repo", "=> " + REPO)
        open(os.path.join(d, "go.mod"), "w").write(mod)
        shutil.copy(os.path.join(VERIF, "harness", "go.sum"), os.path.join(d, "go.sum"))
        exe = os.path.join(d, "h.test")
        r = subprocess.run(". /opt/vp/env.sh; cd %s/harness && go test -c -modfile=%s/go.mod -o %s . " % (VERIF, d, exe),
                           shell=True, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(exe):
            raise CheckError("the harness does not build:\n" + r.stdout + r.stderr)
        self.exe = exe
        return exe

    def replay(self, kind, cases, procs=8, limit=30, timeout=800, mem_gb=6):
        """Runs the cases against the real code. Returns one list of events per case."""
        if not cases:
            return []
        exe = self.build()
        t = time.time()
        f = self.path(kind + "-cases.ndjson")
        with open(f, "w") as o:
            for c in cases:
                o.write(json.dumps(c) + "\n")
        procs = max(1, min(procs, len(cases)))
        deadline = time.time() + timeout
        bad = []        # processes that died; a hang takes long, so two are enough

        def shard(i):
            out = f + ".out%d" % i
            events = {}
            start, crashes = i, 0
            pos = 0
            while start < len(cases) and len(bad) < 40:
                env = dict(os.environ, VKIND=kind, VCASES=f, VOUT=out, VSTART=str(start), VSTEP=str(procs),
                           VLIMIT=str(limit), VSTACK=out + ".stack", GOTRACEBACK="all", GOMAXPROCS="4")
                errf = out + ".err"

                def lim():
                    resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                left = deadline - time.time()
                if left <= 1:
                    raise CheckError("running the cases took too long")
                with open(errf, "w") as ef:
                    p = subprocess.Popen([exe, "-test.run", "TestWorker", "-test.timeout", "0"], env=env, stdout=ef,
                                         stderr=ef, cwd=self.dir, preexec_fn=lim)
                    try:
                        rc = p.wait(timeout=left)
                    except subprocess.TimeoutExpired:
                        p.kill()
                        p.wait()
                        raise CheckError("running the cases took too long")
                last, done = None, False
                with open(out, "rb") as fo:
                    fo.seek(pos)
                    data = fo.read()
                    pos += len(data)
                for line in data.splitlines():
                    try:
                        ev = json.loads(line)
                    except ValueError:
                        continue
                    if ev["e"] == "#start":
                        last, done = ev["c"], False
                        events[last] = []
                    elif ev["e"] == "#done":
                        done = True
                    else:
                        events.setdefault(ev["c"], []).append(ev)
                if rc == 0:
                    break
                if last is None:
                    raise CheckError("the harness does not run (rc %d): %s" % (rc, open(errf, errors="replace").read()[-2000:]))
                if rc != 3 and not done:
                    crashes += 1
                    evs = events[last]
                    if evs and evs[-1]["e"] == "#hang":
                        evs.pop()
                        evs.append({"c": last, "e": "hang", "t": evs[-1].get("t", 0) if evs else 0})
                    else:
                        txt = open(errf, errors="replace").read()
                        evs.append({"c": last, "e": "crash", "t": evs[-1].get("t", 0) if evs else 0, "msg": txt[:400]})
                elif rc != 3 and done:
                    # died between two cases: belongs to the case before
                    crashes += 1
                    events[last].append({"c": last, "e": "crash", "t": 0,
                                         "msg": open(errf, errors="replace").read()[:400]})
                start = last + procs
                if rc != 3:
                    bad.append(i)
                if crashes >= 12 or (rc == 4 and len(bad) >= 2):
                    break
            return events

        allev = {}
        with cf.ThreadPoolExecutor(procs) as ex:
            for ev in ex.map(shard, range(procs)):
                allev.update(ev)
        res = [allev.get(i) for i in range(len(cases))]
        with self.lock:
            self.parts.append(dict(part="executions of the real code (%s)" % kind, runs=len([r for r in res if r is not None]),
                                   events=sum(len(r) for r in res if r), wall_s=round(time.time() - t, 1)))
        return res

    # -------------------------------------------------------------- results
    def violation(self, what, **info):
        h = hashlib.sha1((what + json.dumps(info, sort_keys=True, default=str)).encode()).hexdigest()[:10]
        f = os.path.join(self.replays, "%s-%s.json" % (self.prop, h))
        with open(f, "w") as o:
            json.dump(dict(property=self.prop, what=what, **info), o, indent=1, default=str)
        self.violations.append((what, f))
        self.note("violation:", what[:400])

    def sample(self, x, n=3):
        if len(self.samples) < n:
            s = json.dumps(x)
            self.samples.append(x if len(s) < 4000 else s[:4000] + "...")

    def finish(self, err=None):
        ev = dict(property=self.prop, tier=self.tier, seed=SEED, level="model_checking",
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces, samples=self.samples or ["none"],
                                parts=self.parts),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        evdir = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
        os.makedirs(evdir, exist_ok=True)
        with open(os.path.join(evdir, self.prop + ".json"), "w") as o:
            json.dump(ev, o, indent=1)
        if err is None and not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)
        if self.violations:
            for what, f in self.violations[:1]:
                print("VIOLATION property=%s replay=%s" % (self.prop, f), flush=True)
            return 1
        if err is not None:
            print("ERROR: " + str(err), flush=True)
            return 2
        self.note("held: %d states, %d transitions, %d traces of the real code" % (self.states, self.transitions, self.traces))
        return 0
