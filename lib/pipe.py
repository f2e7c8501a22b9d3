"""Python side of harness/pipe.cc: a pool of sanitized drafter processes."""
import json, os, queue, struct, subprocess, threading, time
import build, common

NAME, NOBODY, NOSCHEMA, NULLOPT, JSON, JSON_SM, YAML, YAML_SM, CHECK, TO, TO_NULL, BALANCE, NULLS, CHECK_NULL = [1 << i for i in range(14)]
OUTPUTS = [JSON, JSON_SM, YAML, YAML_SM, CHECK, TO, TO_NULL]
ONAME = {JSON: "json", JSON_SM: "jsonsm", YAML: "yaml", YAML_SM: "yamlsm", CHECK: "check", TO: "to", TO_NULL: "tonull"}


class Died(Exception):
    def __init__(self, text, hang=False):
        Exception.__init__(self, text)
        self.text, self.hang = text, hang


class Res:
    """One response."""
    def __init__(self, flags, head, blobs):
        self.exc = head[4:] if head.startswith("EXC ") else None
        if self.exc is None:
            n = [int(x) for x in head.split()]
            self.rc, self.rc_to, self.rc_check, self.rc_tonull, self.rc_checknull, self.got = n[:6]
            self.nulls = n[6:12] if flags & NULLS else None
            self.balance = n[-1]
            for f in OUTPUTS:
                setattr(self, ONAME[f], blobs.pop(0) if flags & f else None)

    def doc(self, which="jsonsm"):
        return json.loads(getattr(self, which).decode("utf-8"), strict=False)


class Proc:
    def __init__(self, exe, tmp, k):
        self.exe, self.errpath = exe, os.path.join(tmp, "pipe-%d-%d.err" % (os.getpid(), k))
        self.p = None

    def start(self):
        self.err = open(self.errpath, "wb")
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  env=common.env(), bufsize=0)

    def _read(self, n):
        b = b""
        while len(b) < n:
            x = self.p.stdout.read(n - len(b))
            if not x:
                raise EOFError
            b += x
        return b

    def ask(self, flags, src, timeout=60):
        if self.p is None:
            self.start()
        hung = []

        def kill():
            hung.append(1)
            self.p.kill()
        t = threading.Timer(timeout, kill)
        t.start()
        try:
            self.p.stdin.write(struct.pack("<II", flags, len(src)) + src)
            n, = struct.unpack("<I", self._read(4))
            blobs = []
            for _ in range(n):
                l, = struct.unpack("<I", self._read(4))
                blobs.append(None if l == 0xffffffff else self._read(l) if l else b"")
            return Res(flags, blobs[0].decode("latin-1"), blobs[1:])
        except (EOFError, BrokenPipeError, OSError):
            rc = self.p.wait()
            self.p = None
            text = open(self.errpath, errors="replace").read()
            if rc == -9 and not hung:
                raise common.Inconclusive("the process under test was killed from outside (out of memory?)")
            raise Died(text or "exit code %d" % rc, bool(hung))
        finally:
            t.cancel()

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(10)
            except Exception:
                self.p.kill()


class Pool:
    """run(cases, flags, oracle): cases yields (ident, bytes[, extra]); every case is
    executed, and oracle(case, Res) is called in the calling thread."""

    def __init__(self, check, variant="asan", workers=None):
        self.check = check
        self.b = build.Build(variant)
        self.exe = self.b.link("pipe", ["pipe.cc"])
        self.procs = [Proc(self.exe, check.tmp, k) for k in range(workers or common.NPROC)]

    def run(self, cases, flags, oracle, timeout=60, died=None):
        """flags: int, or function of the case."""
        todo, done = queue.Queue(64), queue.Queue(256)
        stop = threading.Event()

        def feed():
            try:
                for i, c in enumerate(cases):
                    if stop.is_set():
                        break
                    if i in (3, 200, 900):
                        self.check.sample("%s: %s" % (c[0], c[1][:1200].decode("latin-1")))
                    todo.put(c)
            except BaseException as e:
                done.put((None, None, e))
            for _ in self.procs:
                todo.put(None)

        def work(p):
            while True:
                c = todo.get()
                if c is None:
                    done.put(None)
                    return
                try:
                    r = p.ask(flags(c) if callable(flags) else flags, c[1], timeout)
                    done.put((c, r, None))
                except BaseException as e:
                    done.put((c, None, e))

        ts = [threading.Thread(target=feed, daemon=True)] + [threading.Thread(target=work, args=(p,), daemon=True) for p in self.procs]
        for t in ts:
            t.start()
        left, deaths = len(self.procs), 0
        ck = self.check
        while left:
            x = done.get()
            if x is None:
                left -= 1
                continue
            c, r, e = x
            if e is not None and not isinstance(e, Died):
                stop.set()
                raise e
            ck.evals += 1
            if e is not None:
                deaths += 1
                if e.hang:
                    # once more, alone and with more time, before it counts
                    q = Proc(self.exe, ck.tmp, 99)
                    try:
                        q.ask(flags(c) if callable(flags) else flags, c[1], timeout * 4)
                        ck.saw("slow_cases_rerun_ok")
                        q.close()
                        continue
                    except Died as e2:
                        e = e2
                if died and died(c, e):
                    continue
                key = "hang" if e.hang else common.san_key(e.text)
                ck.violation(key, "%s: %s" % (c[0], "no answer within %d s" % (timeout * 4) if e.hang else e.text[-3000:]),
                             {"case": c[0], "input": c[1].decode("latin-1"), "report": e.text[-6000:]})
                if deaths > 60:
                    stop.set()
            elif r.exc:
                ck.violation("exception", "%s: an exception left the C interface: %s" % (c[0], r.exc),
                             {"case": c[0], "input": c[1].decode("latin-1")})
            else:
                oracle(c, r)
        for p in self.procs:
            p.close()
            p.p = None

    def one(self, flags, src, timeout=60):
        return self.procs[0].ask(flags, src, timeout)


def replay(case, src, extra=None):
    d = {"case": case, "input": src.decode("latin-1") if isinstance(src, bytes) else src}
    if extra:
        d.update(extra)
    return d
