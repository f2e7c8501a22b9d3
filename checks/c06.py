import os
import apie, build, common, corpus, pipe, written
import pipeline
from pipeline import n, bad

OPTS = (0, pipe.NOBODY, pipe.NOSCHEMA, pipe.NOBODY | pipe.NOSCHEMA, pipe.NAME)


def without(x, cls):
    """Without the assets of a class that carry no source map, that is, were generated."""
    if isinstance(x, list):
        return [without(y, cls) for y in x if not (apie.el(y) and y["element"] == "asset" and cls in apie.classes(y) and not apie.attr(y, "sourceMap"))]
    if isinstance(x, dict):
        return {k: without(v, cls) for k, v in x.items()}
    return x


def main():
    ck = common.Check("C06")
    ck.rule = ("documents are parsed under each option alone and the results compared with the one without options; and random histories of results and options "
               "objects, created, changed, used and freed in any order, are compared with what each document yields alone; distinct: outputs, histories")
    ck.assumptions = pipeline.ASSUMED
    p = pipe.Pool(ck)
    base = [f for f in corpus.fixtures()] + list(corpus.mutants(n(250, 8000), "c06-%d" % common.SEED)) + list(written.documents(n(400, 8000), "c06-%d" % common.SEED))
    got = {}

    def docs():
        for name, b in base:
            if apie.is_utf8(b.split(b"\0")[0]):
                for o in OPTS:
                    yield name, b, o

    def judge(case, r):
        docs = {o: apie.read(x) for o, (_, x) in r.items()}
        ref, rc = docs[0], r[0][0]
        ck.saw("documents")
        for o, cls in ((pipe.NOBODY, ["messageBody"]), (pipe.NOSCHEMA, ["messageBodySchema"]), (pipe.NOBODY | pipe.NOSCHEMA, ["messageBody", "messageBodySchema"])):
            want = ref
            for k in cls:
                want = without(want, k)
            if want != ref:
                ck.saw("documents_with_generated_assets")
            if docs[o] != want or r[o][0] != rc:
                bad(ck, "skip-generated", case, "option %d: %s" % (o, pipeline.diff(docs[o], want)))
        d = docs[pipe.NAME]
        if d != ref or r[pipe.NAME][0] != rc:
            # a missing name is the one thing that may become an error
            ck.saw("name_required")
            notes = [apie.content(x) for x in apie.annotations(d) if "error" in apie.classes(x)]
            named = rc == 0 and apie.only(ref, "category") and apie.title(apie.only(ref, "category")[0])
            if named or len(notes) != 1 or r[pipe.NAME][0] != 2:
                bad(ck, "name-required", case, "code %d, errors %s, name %r: %s" % (r[pipe.NAME][0], notes, named, pipeline.diff(d, ref)))
        elif rc == 0 and not apie.title(apie.only(ref, "category")[0]) and (apie.only(ref, "category")[0].get("content") or apie.annotations(ref)):
            # (a document without any content is accepted as it is)
            bad(ck, "name-not-required", case, "an API without a name is accepted though one is required")
        ck.mark(hash(r[0][1]))

    def oracle(case, r):
        k = got.setdefault(case[0], {})
        k[case[2]] = (r.rc, r.jsonsm)
        if len(k) == len(OPTS):
            try:
                judge(case, got.pop(case[0]))
            except apie.Malformed as e:
                bad(ck, "malformed", case, str(e))
    p.run(docs(), lambda c: c[2] | pipe.JSON_SM, oracle)

    exe = build.Build("asan").link("api", ["api.cc"])
    args = ["--docs", corpus.pack(os.path.join(ck.tmp, "docs"), [x for _, x in corpus.mutants(n(120, 2000), "c06h-%d" % common.SEED)] + [x for _, x in written.documents(n(100, 2000), "c06h-%d" % common.SEED)] + [x for _, x in corpus.fixtures()][::5])]
    ck.monitor(exe, n(240, 8000), args=args)
    ck.require(documents=600, documents_with_generated_assets=100, name_required=10, texts=500)
    ck.finish()
