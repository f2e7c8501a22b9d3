import random
import apie, common, corpus, pipe, written
import pipeline
from pipeline import n, bad


def main():
    ck = common.Check("C03")
    ck.rule = ("the JSON and YAML of fixtures, mutants, extreme documents and documents with multi-byte characters anywhere, with and without source maps, are read by independent readers, compared with each other, and checked "
               "against the rules every API Elements document follows; distinct: outputs")
    ck.assumptions = pipeline.ASSUMED + ["documents that are not valid UTF-8 are left out (the writers pass bytes through)", "YAML is read with PyYAML, numbers by YAML 1.2"]
    p = pipe.Pool(ck)

    def docs():
        for f in corpus.fixtures():
            yield f
        for x in corpus.shapes(n(120, 3000), "c03-%d" % common.SEED):
            yield x
        for x in corpus.wide(n(500, 12000), "c03-%d" % common.SEED):
            ck.saw("wide")
            yield x
        for x in list(corpus.mutants(n(1000, 30000), "c03-%d" % common.SEED)) + list(written.documents(n(1000, 20000), "c03-%d" % common.SEED)):
            if apie.is_utf8(x[1].split(b"\0")[0]):
                yield x

    def flags(case):
        r = random.Random(case[0])
        return pipeline.options(r) | pipe.JSON | pipe.JSON_SM | r.choice([pipe.YAML, pipe.YAML_SM])

    def oracle(case, r):
        if not apie.is_utf8(case[1].split(b"\0")[0]):
            return
        ck.saw("documents")
        try:
            a, b = apie.read(r.json), apie.read(r.jsonsm)
        except apie.Malformed as e:
            return bad(ck, "json-malformed", case, str(e))
        if apie.strip(b) != a:
            bad(ck, "source-maps-change-more", case, pipeline.diff(apie.strip(b), a))
        y, want = (r.yaml, a) if r.yaml is not None else (r.yamlsm, b)
        try:
            y = apie.read_yaml(y)
        except apie.Malformed as e:
            return bad(ck, "yaml-malformed", case, str(e))
        if y != want:
            bad(ck, "yaml-differs", case, pipeline.diff(y, want))
        for key, msg in apie.problems(b):
            bad(ck, "rule-" + key, case, msg)
        ck.saw("elements", sum(1 for _ in apie.walk(b)))
        ck.mark(hash(r.json))
        ck.sample("%s: %.300s" % (case[0], r.json.decode()))
    p.run(docs(), flags, oracle)
    ck.require(documents=2200, wide=400, elements=20000)
    ck.finish()
