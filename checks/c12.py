import concurrent.futures, os, random, re, shutil, subprocess
import apie, build, common, corpus, gen, mson, pipe, pipeline, written
from pipeline import n, bad

VERSION = r"^v([0-9]+)\.([0-9]+)\.([0-9]+)(?:-([0-9A-Za-z-]+(?:\.[0-9A-Za-z-]+)*))?(?:\+[0-9A-Za-z-]+)?\n$"     # as in features/version.feature


def run(exe, args, cwd, stdin=b"", out=subprocess.PIPE):
    r = subprocess.run([exe] + args, cwd=cwd, input=stdin, stdout=out, stderr=subprocess.PIPE, env=common.env(), timeout=120)
    return r.returncode, r.stdout, r.stderr


def report(doc, rc, lines):
    """What is said about a document."""
    out = ["", "OK."] if rc == 0 else [""]
    for a in apie.annotations(doc):
        s = "%s: (%d)  %s" % (apie.classes(a)[0], apie.content(apie.attr(a, "code")), a["content"])
        sm = apie.attr(a, "sourceMap")
        rs = sm["content"][0]["content"] if sm and len(sm["content"]) == 1 else []
        for i, x in enumerate(rs):
            p, l = x["content"]
            if lines:
                s += "; line %d, column %d - line %d, column %d" % tuple(apie.content(apie.attr(y, k)) for y in (p, l) for k in ("line", "column"))
            else:
                s += "%s%d:%d" % (" :" if i == 0 else ";", p["content"], l["content"])
        out.append(s)
    return "\n".join(out) + "\n"


def one(exe, d, i, name, src, r):
    """Runs the program on a document every way; yields what is wrong."""
    rand = random.Random("%s/%d" % (name, i))
    doc = apie.read(r.jsonsm)
    cwd = os.path.join(d, "r%d" % i)
    os.makedirs(cwd)
    try:
        for k in range(3):
            args, json, sm = [], rand.random() < .5, rand.random() < .5
            f = rand.choice([None, "-f", "--format"]) if not json else rand.choice(["-f", "--format"])
            if f:
                args += [f, "json" if json else "yaml"]
            if sm:
                args.append(rand.choice(["-s", "--sourcemap"]))
            lines = rand.random() < .4
            if lines:
                args.append(rand.choice(["-u", "--use-line-num"]))
            log = rand.random() < .2
            if log:
                args.append(rand.choice(["-L", "--enable-log"]))
            validate = rand.random() < .25
            if validate:
                args.append(rand.choice(["-l", "--validate"]))
            out = rand.random() < .4
            old = None
            if out:
                args += [rand.choice(["-o", "--output"]), "out%d" % k]
                if rand.random() < .5:
                    old = b"x" * rand.choice([3, 300000])
                    open(os.path.join(cwd, "out%d" % k), "wb").write(old)
            stdin = rand.random() < .4
            if not stdin:
                open(os.path.join(cwd, "in.apib"), "wb").write(src)
                args.insert(rand.choice([0, len(args)]), "in.apib")
            before = set(os.listdir(cwd))
            rc, so, se = run(exe, args, cwd, src if stdin else b"")
            want = (r.jsonsm if sm else r.json) if json else (r.yamlsm if sm else r.yaml)
            want = b"" if validate else want + b"\n"
            if rc in (77, -6, -11) and (b"Sanitizer" in se or b"runtime error" in se):
                yield common.san_key(se.decode("utf-8", "replace")), "%s: %s" % (args, se.decode("utf-8", "replace")[:3000])
                continue
            if rc != r.rc & 255:
                yield "exit", "%s: exit code %d instead of %d" % (args, rc, r.rc)
            made = set(x for x in os.listdir(cwd) if not log or not x.endswith(".log")) - before
            if out:
                path = os.path.join(cwd, "out%d" % k)
                got = open(path, "rb").read() if os.path.exists(path) else None
                made.discard("out%d" % k)
                if validate:
                    if got != old:
                        yield "validate-writes", "%s: the output file, which was %s, is %s" % (args, "absent" if old is None else "%d bytes" % len(old), "absent" if got is None else "%d bytes" % len(got))
                elif got != want:
                    yield "output-file", "%s: %.200r instead of %.200r" % (args, got, want)
                if so:
                    yield "stdout", "%s: %.200r on the standard output" % (args, so)
            elif so != want:
                yield "stdout", "%s: %.200r instead of %.200r" % (args, so, want)
            if made:
                yield "files", "%s: made %s" % (args, made)
            want = report(doc, r.rc, lines)
            text = se.decode("utf-8", "replace")
            if validate and out:
                first, _, text = text.partition("\n")
                if not first.startswith("WARN"):
                    yield "no-warning", "%s: %r" % (args, first)
            if text != want:
                yield "report", "%s: %r instead of %r" % (args, text[:1500], want[:1500])
            yield None, "validate" if validate else "output-file" if out else "stdout"
    finally:
        shutil.rmtree(cwd)


def failures(exe, d, api):
    """Uses that must fail, or need no document: yields what is wrong."""
    src = b"# A\n\n## GET /a\n\n+ Response 204\n"
    open(os.path.join(d, "in.apib"), "wb").write(src)
    open(os.path.join(d, "second.apib"), "wb").write(src)
    os.makedirs(os.path.join(d, "dir"))

    def fails(key, args, what, stdin=b"", out=subprocess.PIPE):
        keep = os.path.join(d, "keep")
        open(keep, "wb").write(b"old")
        before = sorted(os.listdir(d))
        rc, so, se = run(exe, args, d, stdin, out)
        wrong = []
        if rc == 0:
            wrong.append("exit code 0")
        if rc == 77 or rc < 0:
            wrong.append("exit code %d" % rc)
        if so:
            wrong.append("standard output %.100r" % so)
        if not re.search(what, se.decode("utf-8", "replace")):
            wrong.append("says %.300r" % se)
        if sorted(os.listdir(d)) != before or open(keep, "rb").read() != b"old":
            wrong.append("changed files")
        if wrong:
            yield key, "%s: %s" % (args, ", ".join(wrong))
        yield None, "failures"
    for args, key, what in (
            (["absent.apib"], "absent-input", "absent.apib"), (["absent.apib", "-o", "keep"], "absent-input", "absent.apib"),
            (["dir"], "unreadable-input", "."), (["-f", "json", "dir"], "unreadable-input", "."),
            (["dir/x/y"], "absent-input", "dir/x/y"), (["in.apib", "-o", "absent/x"], "no-output", "absent/x"), (["in.apib", "-o", "dir"], "no-output", "dir"),
            (["in.apib", "second.apib"], "two-inputs", "one input"), (["in.apib", "second.apib", "-o", "keep"], "two-inputs", "one input"),
            (["-f", "xml", "in.apib"], "format", "xml|format|usage"), (["--nonsense", "in.apib"], "option", "nonsense|usage"), (["in.apib", "-o"], "option", "output|-o|usage")):
        yield from fails(key, args, what)
    for args in ([], ["-f", "json"], ["-s"]):
        with open("/dev/full", "wb") as f:
            yield from fails("output-lost", args + ["in.apib"], ".", out=f)
        yield from fails("output-lost", args + ["in.apib", "-o", "/dev/full"], ".")
    for args in (["--version"], ["-v"], ["-v", "in.apib"]):
        rc, so, se = run(exe, args, d)
        if rc or not re.match(VERSION, so.decode()) or se:
            yield "version", "%s: exit code %d, %r, %r" % (args, rc, so, se)
        yield None, "informative"
    for args in (["--help"], ["-h"]):
        rc, so, se = run(exe, args, d)
        missing = [o for o in ("output", "format", "sourcemap", "help", "version", "validate", "use-line-num", "enable-log") if "--" + o not in (so + se).decode()]
        if rc or missing:
            yield "help", "%s: exit code %d, lacks %s" % (args, rc, missing)
        yield None, "informative"


def main():
    ck = common.Check("C12")
    ck.rule = ("the command-line program is run on documents with random options, from files and pipes into files and pipes, and on uses that must fail; its outputs, "
               "files, reports and exit codes are compared with what the library says of the same document; distinct: runs")
    ck.assumptions = pipeline.ASSUMED + ["a stand-in parses the command line, since the submodule (cmdline) is absent"]
    exe = build.Build("asan").cli()
    docs = list(corpus.mutants(n(90, 3000), "c12-%d" % common.SEED)) + [x for i, x in enumerate(corpus.fixtures()) if i % 5 == common.SEED % 5]
    docs += list(written.documents(n(60, 1000), "c12-%d" % common.SEED))
    for i in range(n(30, 600)):
        docs.append(("api-%d" % i, gen.Gen("c12-%d/%d" % (common.SEED, i), random.Random(i).choice(list(gen.ALPHA))).api()[0].encode()))
    docs += [("empty", b""), ("nul", b"# A\n\0# B\n"), ("crlf", b"# A\r\n\r\n## GET /a\r\n\r\n+ Response 204\r\n"), ("bytes", b"# A\n\n\xff\xfe\n"), ("large", b"# A\n\n" + b"text of it\n\n" * 20000)]
    answers = {}

    def oracle(case, r):
        answers[case[0]] = r
    pipe.Pool(ck).run([x for x in docs], pipe.JSON | pipe.JSON_SM | pipe.YAML | pipe.YAML_SM, oracle)
    d = os.path.join(ck.tmp, "cli")
    os.makedirs(d)
    jobs = []
    with concurrent.futures.ThreadPoolExecutor(common.NPROC) as ex:
        for i, x in enumerate(docs):
            r = answers.get(x[0])
            if r is not None and r.exc is None and apie.is_utf8(x[1].split(b"\0")[0]):
                jobs.append((x, ex.submit(lambda *a: list(one(*a)), exe, d, i, x[0], x[1], r)))
        f = os.path.join(d, "f")
        os.makedirs(f)
        jobs.append((("failures", b""), ex.submit(lambda: list(failures(exe, f, None)))))
    for case, j in jobs:
        for key, what in j.result():
            if key:
                bad(ck, key, case, what)
            else:
                ck.saw("runs_" + what)
                ck.evals += 1
                ck.mark(hash((case[1], what)))
    ck.require(**{"runs_validate": 50, "runs_output-file": 80, "runs_stdout": 80, "runs_failures": 14, "runs_informative": 5})
    ck.finish()
