import os, random, re, shutil, subprocess, sys
import build, common, corpus, pipe, written
import pipeline
from pipeline import n

# the monitors of the parts, which here count only for memory, termination and balance
PARTS = ["utf8", "ranges", "lines", "mdnode", "text", "media", "clone", "equal", "info", "contain", "registry", "expand", "merge", "size",
         "traverse", "lookup", "so"]


def fatal(key):
    return key.startswith("crash:") or key in ("hang", "leak", "exception", "valgrind", "fuzz") or key.endswith(":exception")


def main():
    ck = common.Check("C01")
    ck.only = fatal
    ck.rule = ("fixtures, mutated and spliced fixtures, generated documents right and wrong, and documents large or deep in one respect go through parsing, checking and every output under random options; each part of "
               "the library is driven by its own monitor; counted are sanitizer reports, exceptions, crashes, hangs and unbalanced heap blocks; distinct: outputs and states of the parts")
    ck.assumptions = pipeline.ASSUMED
    p = pipe.Pool(ck)

    def docs():
        for f in corpus.fixtures():
            yield f
        for x in corpus.shapes(n(300, 4000), common.SEED):
            yield x
        for x in corpus.mutants(n(900, 30000), common.SEED):
            yield x
        for x in written.documents(n(900, 30000), "c01-%d" % common.SEED):
            yield x

    def flags(case):
        r = random.Random(case[0])
        f = pipeline.options(r) | r.choice([pipe.JSON_SM, pipe.YAML_SM, pipe.JSON | pipe.CHECK, pipe.YAML, pipe.TO])
        return f | (pipe.BALANCE if r.random() < .4 else 0)

    def oracle(case, r):
        ck.saw("documents")
        if flags(case) & pipe.BALANCE:
            ck.saw("balances")
            if r.balance:
                ck.violation("leak", "%s: %d heap blocks remain after parsing and freeing" % (case[0], r.balance), pipe.replay(*case))
        for o in ("jsonsm", "json", "yaml", "yamlsm", "to"):
            b = getattr(r, o)
            if b:
                ck.mark(hash(b))
                ck.saw("output_bytes", len(b))
    p.run(docs(), flags, oracle)

    b = build.Build("asan")
    os.environ["SO_YAML"] = os.path.join(ck.tmp, "yaml")
    for h in PARTS:
        ck.monitor(b.link(h, [h + ".cc"]), n(1600, 40000), tag=h, start=1000000)
    ck.require(documents=2000, balances=200)
    if common.THOROUGH:
        fuzz(ck)
        memcheck(ck)
    ck.finish()


def fuzz(ck, seconds=900):
    b = build.Build("fuzz")
    exe = b.link("fuzz", ["fuzz.cc"], "-fsanitize=fuzzer")
    d = os.path.join(ck.tmp, "corpus")
    os.makedirs(d)
    for i, (name, x) in enumerate(corpus.fixtures()):
        open(os.path.join(d, "f%d" % i), "wb").write(bytes([i % 8]) + x)
    art = os.path.join(ck.tmp, "art-")
    ps = []
    for k in range(common.NPROC):
        log = open(os.path.join(ck.tmp, "fuzz-%d.log" % k), "wb")
        ps.append((k, subprocess.Popen([exe, d, "-dict=%s/lib/blueprint.dict" % build.VERIF, "-max_total_time=%d" % seconds, "-max_len=6000",
                                        "-artifact_prefix=%s" % art, "-rss_limit_mb=3000", "-timeout=60", "-seed=%d" % (common.SEED * 100 + k), "-reload=1"],
                                       stdout=log, stderr=log, env=common.env())))
    for k, pr in ps:
        pr.wait()
        t = open(os.path.join(ck.tmp, "fuzz-%d.log" % k), errors="replace").read()
        m = re.findall(r"stat::number_of_executed_units:\s*(\d+)|^#(\d+)\s", t, re.M)
        if m:
            ck.saw("fuzz_executions", max(int(a or b_) for a, b_ in m))
        m = re.findall(r"cov: (\d+)", t)
        if m:
            ck.counters["fuzz_edges"] = max(ck.counters.get("fuzz_edges", 0), int(m[-1]))
        if pr.returncode:
            a = re.search(r"Test unit written to (\S+)", t)
            data = open(a.group(1), "rb").read() if a and os.path.exists(a.group(1)) else b""
            ck.violation(common.san_key(t), "found by fuzzing: " + t[-3500:], pipe.replay("fuzz-%d" % k, data, {"report": t[-6000:]}))


def memcheck(ck, count=120):
    """Uninitialised reads, which the sanitizers here do not see."""
    vg = shutil.which("valgrind")
    if not vg:
        return
    exe = build.Build("plain").link("pipe", ["pipe.cc"])
    import struct
    from concurrent.futures import ThreadPoolExecutor
    cases = list(corpus.mutants(count, "vg%d" % common.SEED)) + list(corpus.shapes(40, "vg"))

    def one(k):
        mine = cases[k::common.NPROC]
        inp = b"".join(struct.pack("<II", pipe.JSON_SM | pipe.YAML | pipe.CHECK, len(x)) + x for _, x in mine)
        return mine, subprocess.run([vg, "--error-exitcode=88", "--exit-on-first-error=yes", "--leak-check=no", "-q", exe], input=inp,
                                    stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=common.env())
    with ThreadPoolExecutor(common.NPROC) as ex:
        for mine, r in ex.map(one, range(common.NPROC)):
            ck.saw("memcheck_documents", len(mine))
            if r.returncode:
                ck.violation("valgrind", r.stderr.decode(errors="replace")[-3500:], {"cases": [x[0] for x in mine], "report": r.stderr.decode(errors="replace")[-6000:]})
