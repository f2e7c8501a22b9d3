import random, re
import apie, common, gen, pipe, pipeline
from pipeline import n, bad


def main():
    ck = common.Check("C08")
    ck.rule = ("API descriptions are generated together with what they say, and the document read back from the output must say exactly that, without any annotation; "
               "distinct: outcomes")
    ck.assumptions = pipeline.ASSUMED + ["the generated descriptions keep to constructs whose meaning the API Blueprint specification fixes"]

    def cases():
        for i in range(n(1500, 60000)):
            g = gen.Gen("c08-%d/%d" % (common.SEED, i), alphabet=random.Random(i).choice(["ascii", "ascii", "two", "three", "four"]))
            t, d = g.api()
            yield "api-%d" % i, t.encode(), gen.normal(d)

    def oracle(case, r):
        judge(ck, case, r)
    pipe.Pool(ck).run(cases(), pipe.JSON_SM, oracle)
    ck.require(documents=n(1500, 60000), resources=1000, transactions=3000, payloads=5000, parameters=1000)
    ck.finish()


def judge(ck, case, r):
    ck.saw("documents")
    doc = apie.read(r.jsonsm)
    try:
        got = gen.read(doc)
    except gen.Unread as e:
        return bad(ck, "unread", case, str(e))
    want = case[2]
    ck.mark(hash(r.jsonsm))
    count(ck, got)
    if got != want:
        m = pipeline.diff(got, want)
        return bad(ck, "differs:" + re.sub(r"\d+", "N", m.split(":")[0]), case, m)
    for a in apie.annotations(doc):
        bad(ck, "annotation", case, "unexpected annotation: %s" % a["content"])
    if r.rc:
        bad(ck, "code", case, "code %d" % r.rc)
    ck.sample("%s -> %.300r" % (case[1].decode()[:600], want), limit=2)


def count(ck, d):
    for rs in [d["resources"]] + [g["resources"] for g in d["groups"]]:
        for x in rs:
            ck.saw("resources")
            ck.saw("parameters", len(x["vars"] or []))
            for t in x["transitions"]:
                ck.saw("transitions")
                ck.saw("parameters", len(t["vars"] or []))
                ck.saw("transactions", len(t["transactions"]))
                ck.saw("payloads", 2 * len(t["transactions"]))
