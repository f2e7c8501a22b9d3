import os, random
import common, corpus, pipe, written
import pipeline
from pipeline import n, bad


def main():
    ck = common.Check("C04")
    ck.rule = ("each document is parsed in a process that has parsed others before, again in another order in a differently built one with the heap filled with other garbage, and in a fresh "
               "process of its own; all outputs must be the same bytes; distinct: outputs")
    ck.assumptions = pipeline.ASSUMED
    cases = [(a, b) for a, b in corpus.fixtures()] + list(corpus.shapes(n(60, 1000), "c04-%d" % common.SEED)) \
        + list(corpus.mutants(n(500, 15000), "c04-%d" % common.SEED)) + list(written.documents(n(800, 15000), "c04-%d" % common.SEED))

    def flags(case):
        r = random.Random(case[0])
        return pipeline.options(r) | pipe.JSON_SM | pipe.YAML
    ref = {}

    def first(case, r):
        ref[case[0]] = (r.rc, r.jsonsm, r.yaml)
        ck.saw("documents")
        ck.mark(hash(r.jsonsm))

    def again(what):
        def oracle(case, r):
            ck.saw(what)
            if case[0] not in ref:
                return
            rc, j, y = ref[case[0]]
            if rc != r.rc:
                bad(ck, "code", case, "code %d, then %d (%s)" % (rc, r.rc, what))
            for a, b in ((j, r.jsonsm), (y, r.yaml)):
                if a != b:
                    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                    bad(ck, "output", case, "outputs differ (%s) at %d: %r / %r" % (what, i, a[max(0, i - 80):i + 80], b[max(0, i - 80):i + 80]))
                    break
        return oracle
    pipe.Pool(ck).run(cases, flags, first)
    rnd = random.Random(common.SEED)
    for k, fill in enumerate((165, 90)[:n(1, 2)]):
        rnd.shuffle(cases)
        os.environ["MALLOC_PERTURB_"] = str(fill)
        os.environ["TZ"] = ("Pacific/Kiritimati", "UTC")[k]
        pipe.Pool(ck, "plain", workers=3).run(cases, flags, again("runs_in_another_order_and_build"))
    os.environ.pop("MALLOC_PERTURB_")
    # each in a process of its own
    p = pipe.Pool(ck, "plain")
    for case in rnd.sample(cases, n(150, 2000)):
        q = pipe.Proc(p.exe, ck.tmp, 50)
        try:
            again("runs_in_a_fresh_process")(case, q.ask(flags(case), case[1]))
        except pipe.Died as e:
            bad(ck, common.san_key(e.text), case, e.text[-2000:])
        q.close()
    ck.require(documents=1500, runs_in_another_order_and_build=1500, runs_in_a_fresh_process=150)
    ck.finish()
