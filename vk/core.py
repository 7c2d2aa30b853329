"""Machinery shared by all checks: building drivers from /repo, running TLC, driving the real library with scenarios
and validating the recorded traces against the TLA+ specifications."""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, random, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ZK_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SANITIZE = "-fsanitize=address -fno-omit-frame-pointer"
NCPU = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    """The check itself could not be carried out (neither held nor violated)."""


class Violation(Exception):
    def __init__(self, what, replay=None):
        super().__init__(what)
        self.what = what
        self.replay = replay


def log(*a):
    print(*a, flush=True)


# ----------------------------------------------------------------------------------------------------------- building
def build(*drivers):
    """Build the library from the current working tree of /repo and the named drivers. Returns the binary directory."""
    bdir = os.path.join(BUILD, "bin")
    os.makedirs(bdir, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cmake = ["cmake", "-S", os.path.join(VERIF, "harness"), "-B", bdir, "-G", "Ninja",
                 "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_CXX_COMPILER=/usr/bin/g++",
                 "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
                 "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O1 -g1 -DNDEBUG -D_GLIBCXX_ASSERTIONS", "-DCMAKE_C_FLAGS_RELWITHDEBINFO=-O1",
                 "-DCMAKE_CXX_FLAGS=-w " + SANITIZE, "-DCMAKE_C_FLAGS=-w " + SANITIZE,
                 "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
                 "-DFETCHCONTENT_SOURCE_DIR_DOCTEST=/opt/vp/deps/doctest",
                 "-DFETCHCONTENT_SOURCE_DIR_LIBSQUISH=/opt/vp/deps/libsquish",
                 "-DZK_BUILD_TESTS=OFF", "-DZK_BUILD_EXAMPLES=OFF", "-DZK_ENABLE_INSTALL=OFF", "-DZK_REPO=" + REPO]
        r = subprocess.run(cmake, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("cmake failed:\n" + r.stdout[-4000:])
        r = subprocess.run(["ninja", "-C", bdir] + list(drivers), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("build failed:\n" + r.stdout[-6000:])
    return bdir


# ---------------------------------------------------------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0
        self.ok = rc == 0 and "Model checking completed. No error has been found." in out
        self.sim_ok = rc == 0


def tlc(module, cfg, workdir, workers=1, timeout=600, heap="2g", env=None, extra=(), specdirs=(), retried=False):
    """Run TLC on specs/<module>.tla with the given cfg text. Files are copied to workdir, so that runs do not clash."""
    os.makedirs(workdir, exist_ok=True)
    for d in [SPECS] + list(specdirs):
        for f in glob.glob(os.path.join(d, "*.tla")):
            shutil.copy(f, workdir)
    cfgp = os.path.join(workdir, module + ".cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    meta = os.path.join(workdir, "states")
    tmp = os.path.join(workdir, "tmp")
    os.makedirs(tmp, exist_ok=True)
    gc = "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC"
    cmd = ["java", "-Xmx" + heap, "-Xss%s" % ("1g" if retried else "512m"), gc, "-Djava.io.tmpdir=" + tmp, "-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", module + ".cfg"] + list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=workdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired as ex:
        out = ex.stdout or b""
        raise CheckError("TLC timed out after %ds on %s\n%s" % (timeout, module, (out if isinstance(out, str) else out.decode(errors="replace"))[-1500:]))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    if ("StackOverflowError" in r.stdout or "OutOfMemoryError" in r.stdout) and not retried:  # depends on how much of TLC the JVM has compiled so far
        return tlc(module, cfg, workdir, workers=workers, env=env, timeout=timeout, heap="12g", extra=extra, specdirs=specdirs, retried=True)
    return TlcResult(r.returncode, r.stdout)


# --------------------------------------------------------------------------------------------------------------- check
class Check:
    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "work", "%s-%s-%d" % (prop, tier, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        os.makedirs(EVID, exist_ok=True)
        for f in glob.glob(os.path.join(EVID, "replay-%s-*.json" % prop)):
            os.unlink(f)
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "trace_events": 0,
                    "models": [], "trace_specs": []}
        self.assumptions = []
        self.violations = []
        self.known = []

    # ---- model checking the specification itself
    def model(self, module, cfg, what, workers=NCPU, timeout=600, heap="8g", exhaustive=True, extra=(), coverage_of=()):
        t = time.time()
        wd = os.path.join(self.work, "mc-" + module + "-" + hashlib.md5(cfg.encode()).hexdigest()[:6])
        r = tlc(module, cfg, wd, workers=workers, timeout=timeout, heap=heap, extra=extra)
        if not r.ok:
            raise CheckError("model %s does not check out:\n%s" % (module, r.out[-5000:]))
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov["models"].append({"module": module, "what": what, "distinct_states": r.distinct, "generated": r.generated,
                                   "depth": r.depth, "exhaustive": exhaustive, "wall_s": round(time.time() - t, 1)})
        log("model %-16s %8d distinct, %9d generated, depth %d  %.1fs  (%s)" % (module, r.distinct, r.generated, r.depth, time.time() - t, what))
        return r

    def scenarios_from(self, r):
        """Scenarios printed by a model as PrintT("SCN" \\o ToJson(hist)): one per transition of the state graph."""
        scns = []
        for line in r.out.splitlines():
            if line.startswith('"SCN'):
                s = line[4:-1].replace('\\"', '"').replace("\\\\", "\\")
                scns.append(json.loads(s))
        return maximal(scns) if all(isinstance(s, list) for s in scns) else scns

    # ---- driving the implementation
    def drive(self, driver, scenarios, shards=NCPU, timeout=300, args=(), env=None):
        """Run scenarios (lists of op dicts) through the driver; returns a list of traces (lists of event dicts)."""
        exe = os.path.join(BUILD, "bin", driver)
        if not scenarios:
            return []
        shards = max(1, min(shards, (len(scenarios) + 3) // 4))
        idx = [list(range(k, len(scenarios), shards)) for k in range(shards)]
        traces = [None] * len(scenarios)

        def run(ids, tag):
            d = os.path.join(self.work, "drv-" + driver + "-" + tag)
            os.makedirs(d, exist_ok=True)
            inp, outp = os.path.join(d, "in.ndjson"), os.path.join(d, "out.ndjson")
            with open(inp, "w") as f:
                for i in ids:
                    f.write('{"op":"begin"}\n')
                    for o in scenarios[i]:
                        f.write(json.dumps(o) + "\n")
            if os.path.exists(outp):
                os.unlink(outp)
            e = dict(os.environ)
            e.update({"TZ": "UTC", "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1"})
            e.update(env or {})
            scratch = os.path.join(d, "scratch")
            shutil.rmtree(scratch, ignore_errors=True)
            os.makedirs(scratch)
            with open(os.path.join(d, "stderr"), "w") as err:
                try:
                    rc = subprocess.run([exe, inp, outp, scratch] + list(args), stdout=subprocess.DEVNULL, stderr=err, timeout=timeout, env=e).returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
            shutil.rmtree(scratch, ignore_errors=True)
            lines = open(outp, errors="replace").read().split("\n") if os.path.exists(outp) else []
            got = []
            for ln in lines:
                if not ln:
                    continue
                try:
                    ev = json.loads(ln)
                except ValueError:
                    break
                if ev["op"] == "begin":
                    got.append([])
                else:
                    got[-1].append(ev)
            text = open(os.path.join(d, "stderr"), errors="replace").read()
            k = text.rfind("ERROR: AddressSanitizer")
            return rc, got, text[k:k + 1500] if k >= 0 else text[-1500:]

        def job(k):
            ids = idx[k]
            rest = list(ids)
            n = 0
            while rest:
                rc, got, err = run(rest, "%d-%d" % (k, n))
                n += 1
                if rc == 0:
                    if len(got) != len(rest):
                        raise CheckError("driver %s lost scenarios (%d of %d)" % (driver, len(got), len(rest)))
                    for i, t in zip(rest, got):
                        traces[i] = t
                    return
                if rc == 97:
                    raise CheckError("driver %s: %s" % (driver, err))
                # crashed or hung: the last scenario started is the culprit
                done = len(got)
                if done == 0 and n <= 3:
                    continue
                if done == 0:
                    raise CheckError("driver %s failed before its first scenario (%s): %s" % (driver, rc, err))
                for i, t in zip(rest[: done - 1], got[: done - 1]):
                    traces[i] = t
                bad = rest[done - 1]
                rc2, got2, err2 = run([bad], "%d-%d-again" % (k, n))
                if rc2 == 0:
                    rc3, got3, err3 = run(rest, "%d-%d-again2" % (k, n))
                    if rc3 == 0:
                        raise CheckError("driver %s: unrepeatable failure (%s): %s" % (driver, rc, err))
                what = "hangs" if rc == "timeout" else "crashes (status %s)" % rc
                partial = got[done - 1]
                self.report("the library %s in a scenario the specification allows: %s" % (what, err.strip()[:1200]),
                            {"driver": driver, "ops": scenarios[bad], "events_before": partial[-5:]})
                traces[bad] = None
                rest = rest[done:]
                if len(self.violations) >= 3:
                    return
        with cf.ThreadPoolExecutor(max_workers=shards) as ex:
            for fut in [ex.submit(job, k) for k in range(shards)]:
                fut.result()
        return traces

    # ---- validating traces
    def validate(self, module, traces, consts="", scenarios=None, driver=None, shards=NCPU, timeout=800, heap="3g", prepare=None, env=None, args=()):
        """Check that every trace is a behaviour of the trace specification `module`."""
        todo = [(i, t) for i, t in enumerate(traces) if t is not None]
        if not todo:
            return
        t0 = time.time()
        nev = sum(len(t) + 1 for _, t in todo)
        shards = max(1, min(shards, (len(todo) + 7) // 8, 1 + nev // 400))
        # balance by number of events
        order = sorted(todo, key=lambda it: -len(it[1]))
        parts = [[] for _ in range(shards)]
        load = [0] * shards
        for it in order:
            k = load.index(min(load))
            parts[k].append(it)
            load[k] += len(it[1]) + 1

        def job(k):
            bad = []
            part = parts[k]
            rounds = 0
            while part:
                res = self._validate_one(module, [t for _, t in part], "%s-%d-%d" % (module, k, rounds), consts, timeout, heap)
                rounds += 1
                if res is None:
                    break
                n, ev, why = res
                bad.append((part[n][0], ev, why))
                part = part[n + 1:]
                if rounds >= 4:
                    break
            return bad
        allbad = []
        with cf.ThreadPoolExecutor(max_workers=shards) as ex:
            for fut in [ex.submit(job, k) for k in range(shards)]:
                allbad += fut.result()
        self.cov["traces_validated_against_impl"] += len(todo)
        self.cov["trace_events"] += nev
        self.cov["trace_specs"].append({"module": module, "traces": len(todo), "events": nev, "wall_s": round(time.time() - t0, 1)})
        log("traces %-15s %6d traces, %7d events  %.1fs" % (module, len(todo), nev, time.time() - t0))
        for (i, ev, why) in sorted(allbad)[:3]:
            # a rejection counts only if executing the scenario again is rejected again
            if scenarios is not None and driver is not None:
                again = self.drive(driver, [scenarios[i]], shards=1, env=env, args=args)
                if again[0] is None:
                    continue
                t = again[0]
                if prepare:
                    t = prepare(t)
            else:
                t = traces[i]
            res = self._validate_one(module, [t], "%s-again-%d" % (module, i), consts, timeout, heap)
            if res is None:
                raise CheckError("trace rejected once (%s, event %d) but accepted when repeated" % (module, ev))
            n, ev, why = res
            self.report("recorded behaviour is not allowed by %s at event %d: %s" % (module, ev + 1, json.dumps(t[ev])[:600] if ev < len(t) else "end"),
                        {"driver": driver, "trace_spec": module, "ops": scenarios[i] if scenarios is not None else None,
                         "trace": t[: ev + 1], "explanation": why[-1500:]})
        return allbad

    def probe(self, key, driver, module, scenario, consts=""):
        """A scenario of its own that is known to fail: reported as a known finding if it is listed and fails, as a violation if it is not listed."""
        t = self.drive(driver, [scenario], shards=1)[0]
        res = self._validate_one(module, [t], "probe-" + key, consts, 300, "2g") if t is not None else None
        if res is None:
            return
        text = dict(known_findings().get(self.prop, [])).get(key)
        if text is not None:
            self.known.append(text)
        else:
            self.report("recorded behaviour is not allowed by %s at event %d" % (module, res[1] + 1),
                        {"driver": driver, "trace_spec": module, "ops": scenario, "explanation": res[2][-1500:]})

    def _validate_one(self, module, traces, tag, consts, timeout, heap):
        """None if all traces are accepted, else (trace number, event number, explanation) of the first rejected event."""
        wd = os.path.join(self.work, "tr-" + tag)
        os.makedirs(wd, exist_ok=True)
        path = os.path.join(wd, "trace.ndjson")
        where = []
        with open(path, "w") as f:
            for n, t in enumerate(traces):
                f.write('{"op":"begin"}\n')
                where.append((n, -1))
                for j, ev in enumerate(t):
                    f.write(json.dumps(ev) + "\n")
                    where.append((n, j))
        cfg = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n" + consts
        r = tlc(module, cfg, wd, workers=1, timeout=timeout, heap=heap, env={"TRACE": path})
        if r.ok:
            if r.distinct < len(where):
                raise CheckError("trace specification %s accepted without consuming the trace (%d of %d)" % (module, r.distinct, len(where)))
            shutil.rmtree(wd, ignore_errors=True)
            return None
        m = re.search(r'<<"REJECTED", (\d+)', r.out)
        if m:
            k = int(m.group(1))
        elif re.search(r"Attempted to|evaluating|Evaluating|was not in the domain|is not a|overflow|CHOOSE", r.out) and "l = " in r.out:
            k = int(re.findall(r"/\\ l = (\d+)", r.out)[-1])     # the event being evaluated when TLC gave up
        else:
            raise CheckError("TLC failed on %s (rc %s):\n%s" % (module, r.rc, r.out[-4000:]))
        if k - 1 >= len(where):
            raise CheckError("TLC rejected %s beyond the end of the trace:\n%s" % (module, r.out[-3000:]))
        n, j = where[k - 1]
        if j < 0:
            raise CheckError("trace specification %s cannot start a trace:\n%s" % (module, r.out[-3000:]))
        why = "\n".join(x for x in r.out.splitlines() if "EXPECTED" in x or "Error" in x or "REJECTED" in x)
        return n, j, why

    # ---- reporting
    def report(self, what, replay):
        n = len(self.violations)
        if n >= 5:
            return
        p = os.path.join(EVID, "replay-%s-%d.json" % (self.prop, n))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "what": what, "seed": self.seed, "tier": self.tier, **(replay or {})}, f, indent=1)
        self.violations.append((what, p))
        log("VIOLATION property=%s replay=%s" % (self.prop, p))
        log("  " + what[:1500])

    def sample(self, *xs):
        for x in xs:
            if len(self.cov["samples"]) < 6:
                self.cov["samples"].append(x)

    def finish(self):
        wall = time.time() - self.t0
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            log("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        shutil.rmtree(self.work, ignore_errors=True)
        log("%s %s: %s in %.1fs (%d model states, %d traces, %d events)" % (
            self.prop, self.tier, "VIOLATED" if self.violations else "held", wall, self.cov["states"],
            self.cov["traces_validated_against_impl"], self.cov["trace_events"]))
        return 1 if self.violations else 0


def maximal(scns):
    """Drop scenarios that are proper prefixes of others."""
    keys = {}
    for s in scns:
        keys[json.dumps(s, sort_keys=True)] = s
    prefixes = set()
    for s in keys.values():
        for n in range(1, len(s)):
            prefixes.add(json.dumps(s[:n], sort_keys=True))
    return [s for k, s in keys.items() if k not in prefixes]


def pick(rng, seq, n):
    seq = list(seq)
    if len(seq) <= n:
        return seq
    return rng.sample(seq, n)


def known_findings():
    """{property: [(key, text)]} from /verif/known-findings.txt; only lines that start with 'finding:' suppress anything."""
    res = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                res.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    return res


def main(run, prop, tier, level="model_checking"):
    c = Check(prop, tier, level)
    try:
        run(c)
    except Violation as v:
        c.report(v.what, v.replay)
    except CheckError as e:
        log("ERROR %s: %s" % (prop, e))
        if c.violations:
            return c.finish()
        return 2
    return c.finish()
