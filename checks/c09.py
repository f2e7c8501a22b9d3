import random, re
import apie, common, gen, mson, pipe, pipeline
from pipeline import n, bad


def main():
    ck = common.Check("C09")
    ck.rule = ("sections of data structures are generated together with the types they define, and the types read back from the output must be exactly these, without any "
               "annotation; distinct: outcomes")
    ck.assumptions = pipeline.ASSUMED + ["the generated types keep to constructs whose meaning the MSON specification fixes",
                                         "new lines at the end of samples written as blocks are ignored"]

    def cases():
        for i in range(n(2000, 80000)):
            t, d = mson.Mson("c09-%d/%d" % (common.SEED, i), alphabet=random.Random(i).choice(["ascii", "ascii", "two", "three", "four"]), rich="keys").structures()
            yield "types-%d" % i, t.encode(), d

    def oracle(case, r):
        ck.saw("documents")
        doc = apie.read(r.jsonsm)
        try:
            got = mson.read_structures(doc)
        except gen.Unread as e:
            return bad(ck, "unread", case, str(e))
        ck.mark(hash(r.jsonsm))
        for x in case[2]:
            ck.saw("types")
            count(x)
        if got != case[2]:
            m = pipeline.diff(got, case[2])
            return bad(ck, "differs:" + re.sub(r"\d+", "N", m.split(":")[0]), case, m)
        for a in apie.annotations(doc):
            bad(ck, "annotation", case, "unexpected annotation: %s" % a["content"])
        ck.sample("%s -> %.400r" % (case[1].decode()[:500], case[2]), limit=2)

    def count(x):
        k = x["e"]
        ck.saw("elements")
        ck.saw(k if k in ("member", "object", "array", "enum", "string", "number", "boolean", "ref", "select", "option") else "references")
        for y in ([x["c"]] if isinstance(x.get("c"), dict) else x["c"] if isinstance(x.get("c"), list) else []) + x.get("samples", []) + x.get("enums", []):
            count(y)
        for k in ("val", "default"):
            if k in x:
                count(x[k])

    pipe.Pool(ck).run(cases(), pipe.JSON_SM, oracle)
    ck.require(documents=n(2000, 80000), types=4000, member=8000, array=1000, enum=800, references=500, ref=150, select=150)
    ck.finish()
