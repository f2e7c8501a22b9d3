"""Verdicts, evidence, known findings, and the runner of sharded C++ monitors."""
import atexit, json, os, re, shutil, struct, subprocess, sys, tempfile, time
import build

VERIF = build.VERIF
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
NPROC = os.cpu_count() or 4

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:handle_abort=1:detect_leaks=0:allocator_may_return_null=0:"
                    "max_allocation_size_mb=2048:hard_rss_limit_mb=3000:detect_stack_use_after_return=1:"
                    "strict_string_checks=0:detect_odr_violation=0:malloc_context_size=12:allow_user_segv_handler=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1",
}


def env():
    e = dict(os.environ)
    e.update(SAN_ENV)
    e["LC_ALL"] = "C"
    return e


def san_key(text):
    """A stable, position-free name for a sanitizer report."""
    m = re.search(r"SUMMARY: (\w+): (\S+)(?: \S+)?(?: in (.*))?", text)
    kind = None
    m2 = re.search(r"runtime error: ([^\n]*)", text)
    if m:
        kind = m.group(2)
    if m2:
        kind = "ub:" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m2.group(1))[:80]
    fn = None
    for l in re.findall(r"^\s+#\d+ \S+ in (.*)$", text, re.M):
        if "/packages/" in l:
            fn = re.sub(r" /\S*/packages/", " ", l)
            fn = re.sub(r":\d+(:\d+)?$", "", fn.strip())
            fn = re.sub(r"\(.*\)", "()", fn)
            break
    if not kind:
        m = re.search(r"(terminate called[^\n]*|AddressSanitizer:?[^\n]*|LeakSanitizer[^\n]*|Assertion[^\n]*)", text)
        kind = re.sub(r"0x[0-9a-f]+|==\d+==", "", m.group(1))[:100] if m else "died"
    return "crash:%s%s" % (kind, " @ " + fn if fn else "")


class Inconclusive(Exception):
    pass


class Check:
    def __init__(self, pid, level="exploration"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.violations, self.known_hits = [], {}
        self.counters, self.hashes, self.samples = {}, set(), []
        self.evals = 0
        self.rule = ""
        self.assumptions = []
        self.extra = {}
        self.min_events = {}
        self.only = None  # restricts what counts, by key
        os.makedirs(EVID, exist_ok=True)
        self.replays = os.path.join(EVID, "replay")
        os.makedirs(self.replays, exist_ok=True)
        for f in os.listdir(self.replays):
            if f.startswith(pid + "-"):
                os.unlink(os.path.join(self.replays, f))
        try:
            os.unlink(os.path.join(EVID, pid + ".json"))
        except OSError:
            pass
        self.known = []
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) key=<(.*?)>(?: case=<(.*?)>)? :: (.*)$", l.strip())
            if m and m.group(1) == pid:
                self.known.append((m.group(2), m.group(3), m.group(4)))
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        atexit.register(shutil.rmtree, self.tmp, True)

    # -- observations
    def saw(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def mark(self, ident):
        self.hashes.add(ident if isinstance(ident, (int, str)) else repr(ident))

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s if len(s) < 3000 else s[:3000] + "...")

    def require(self, **mins):
        self.min_events.update(mins)

    # -- verdicts
    def violation(self, key, msg, replay):
        if self.only and not self.only(key):
            self.saw("left_to_other_checks")
            return False
        for k, case, desc in self.known:
            if k == key and (case is None or case in json.dumps(replay, ensure_ascii=False) or case in msg):
                self.known_hits[k + (case or "")] = desc
                self.saw("known_finding_hits")
                return False
        n = len(self.violations)
        if n < 40:
            path = os.path.join(self.replays, "%s-%d.json" % (self.pid, n))
            with open(path, "w") as f:
                json.dump({"property": self.pid, "key": key, "message": msg, "seed": SEED, "tier": TIER, "replay": replay}, f,
                          indent=1, ensure_ascii=True, default=repr)
            self.violations.append((key, msg, path))
        else:
            self.violations.append((key, msg, self.violations[-1][2]))
        return True

    def finish(self):
        for k, _, desc in self.known:
            pass
        for k, desc in sorted(self.known_hits.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, desc))
        missing = [k for k, v in self.min_events.items() if self.counters.get(k, 0) < v]
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.hashes), "rule": self.rule,
               "samples": self.samples[:8] or ["(no sample recorded)"], "observed": dict(sorted(self.counters.items()))}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
            f.write("\n")
        if self.violations:
            seen = set()
            for key, msg, path in self.violations:
                if key in seen:
                    continue
                seen.add(key)
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                print("  [%s] %s" % (key, msg[:600].replace("\n", "\n    ")))
            sys.stdout.flush()
            sys.exit(1)
        if missing:
            print("INCONCLUSIVE property=%s: too few observations of %s" % (self.pid, missing))
            sys.exit(3)
        print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" % (self.pid, self.evals, len(self.hashes), time.time() - self.t0))
        sys.exit(0)

    # -- sharded C++ monitor
    def monitor(self, exe, cases, args=(), shards=None, stall=90, tag="m", start=0):
        """Run exe over case indices [start, start+cases)."""
        shards = min(shards or NPROC, max(1, cases))
        work = []
        for k in range(shards):
            work.append([k, start + cases * k // shards, start + cases * (k + 1) // shards, 0])
        running = []

        def launch(k, lo, hi, restarts):
            out = "%s/%s-%d-%d" % (self.tmp, tag, k, restarts)
            err = open(out + ".err", "wb")
            p = subprocess.Popen([exe, "--seed", str(SEED), "--from", str(lo), "--to", str(hi), "--out", out] + list(args),
                                 stdout=err, stderr=err, env=env(), cwd=self.tmp)
            running.append({"p": p, "k": k, "lo": lo, "hi": hi, "r": restarts, "out": out, "cur": 0, "t": time.time()})

        for w in work:
            launch(*w)
        while running:
            time.sleep(0.05)
            for r in list(running):
                rc = r["p"].poll()
                cur = self._cur(r["out"])
                if cur != r["cur"]:
                    r["cur"], r["t"] = cur, time.time()
                if rc is None:
                    if time.time() - r["t"] > stall:
                        r["p"].kill()
                        r["p"].wait()
                        running.remove(r)
                        self._collect(r)
                        self._hang(exe, args, r, stall)
                        if r["r"] < 3 and cur and cur < r["hi"]:
                            launch(r["k"], cur, r["hi"], r["r"] + 1)
                    continue
                running.remove(r)
                done = self._collect(r)
                if not done:
                    text = open(r["out"] + ".err", errors="replace").read()
                    if not cur:
                        raise Inconclusive("monitor %s died outside any case (rc %d):\n%s" % (exe, rc, text[-3000:]))
                    if rc == -9:
                        raise Inconclusive("monitor was killed (out of memory?)")
                    desc = open(r["out"] + ".desc", errors="replace").read()
                    sec, _, body = desc.partition("\n")
                    self.evals += cur - r["lo"]
                    self.violation(san_key(text), "the code under test died (rc %d) in case %d [%s]: %s" % (
                        rc, cur - 1, sec, text[-3500:]), {"exe": os.path.basename(exe).rsplit("-", 1)[0], "case": cur - 1, "section": sec,
                                                          "args": list(args), "input": body, "report": text[-6000:]})
                    if r["r"] < 12 and cur < r["hi"]:
                        launch(r["k"], cur, r["hi"], r["r"] + 1)

    def _cur(self, out):
        try:
            with open(out + ".cur", "rb") as f:
                return struct.unpack("<Q", f.read(8))[0]
        except Exception:
            return 0

    def _hang(self, exe, args, r, stall):
        cur = r["cur"]
        if not cur:
            raise Inconclusive("monitor made no progress")
        out = r["out"] + "-hang"
        try:
            subprocess.run([exe, "--seed", str(SEED), "--from", str(cur - 1), "--to", str(cur), "--out", out] + list(args),
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env(), timeout=2 * stall, cwd=self.tmp)
            self.saw("slow_cases_rerun_ok")
        except subprocess.TimeoutExpired:
            self.violation("hang", "case %d does not terminate within %d s (twice)" % (cur - 1, stall),
                           {"case": cur - 1, "args": list(args)})

    def _collect(self, r):
        done = False
        try:
            lines = open(r["out"] + ".jsonl", errors="replace").read().splitlines()
        except OSError:
            lines = []
        for l in lines:
            try:
                j = json.loads(l)
            except ValueError:
                continue
            if "fail" in j:
                f = j["fail"]
                self.violation(f["key"], "case %d [%s] %s" % (f["case"], f["section"], f["msg"]),
                               {"case": f["case"], "section": f["section"], "input": f["desc"]})
            if "done" in j:
                done = True
                d = j["done"]
                self.evals += d["evaluations"]
                for k, v in d["counters"].items():
                    self.saw(k, v)
                for s in d["samples"]:
                    self.sample(s)
        try:
            b = open(r["out"] + ".hash", "rb").read()
            self.hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        except OSError:
            pass
        return done
