import random
import apie, common, corpus, pipe, written
import pipeline
from pipeline import n, bad


def main():
    ck = common.Check("C02")
    ck.rule = ("documents and options are put through every function of the C interface, with and without the arguments that may be absent, and the answers compared with each "
               "other; distinct: outputs")
    ck.assumptions = pipeline.ASSUMED
    p = pipe.Pool(ck)
    seen = {}

    def docs():
        fx = corpus.fixtures()
        for f in fx:
            yield f
        for x in corpus.shapes(n(60, 1500), "c02-%d" % common.SEED):
            yield x
        for x in corpus.mutants(n(700, 20000), "c02-%d" % common.SEED):
            yield x
        for x in written.documents(n(900, 20000), "c02-%d" % common.SEED):
            yield x
        for x in fx[::3]:
            yield x[0] + " (options absent)", x[1]

    def flags(case):
        r = random.Random(case[0])
        f = pipe.NULLOPT if case[0].endswith("(options absent)") else 0 if case[0].startswith("packages") else pipeline.options(r)
        return f | pipe.JSON_SM | pipe.YAML | pipe.CHECK | pipe.TO | pipe.TO_NULL | pipe.NULLS | pipe.CHECK_NULL

    def oracle(case, r):
        ck.saw("documents")
        if not r.got:
            return bad(ck, "no-result", case, "no result for a source")
        if not 0 <= r.rc <= 0x7f:
            bad(ck, "code-range", case, "code %d" % r.rc)
        for what in ("rc_to", "rc_check", "rc_tonull", "rc_checknull"):
            if getattr(r, what) != r.rc:
                bad(ck, "codes-differ", case, "%s is %d, code of parsing is %d" % (what, getattr(r, what), r.rc))
        a, b, c, d, e, f = r.nulls
        if (a, b, c) != (-2, -2, -2):
            bad(ck, "null-source", case, "codes for an absent source: %s" % ((a, b, c),))
        if (d, e) != (r.rc, r.rc):
            bad(ck, "null-out", case, "codes without a place for the result: %s, code of parsing %d" % ((d, e), r.rc))
        if not f:
            bad(ck, "null-touched", case, "something was stored for an absent source or result")
        if r.to != r.jsonsm:
            bad(ck, "parse-to", case, "parsing to a text differs from parsing and serialising")
        if r.tonull != r.yaml:
            bad(ck, "default-output", case, "absent output options do not mean YAML without source maps")
        try:
            doc = apie.read(r.jsonsm)
        except apie.Malformed:
            ck.saw("not_utf8" if not apie.is_utf8(case[1]) else "malformed_left_to_C03")
            return
        notes = apie.annotations(doc)
        errors = [x for x in notes if "error" in apie.classes(x)]
        if bool(errors) != (r.rc != 0):
            bad(ck, "error-annotation", case, "code %d with %d errors" % (r.rc, len(errors)))
        if errors and apie.content(apie.attr(errors[0], "code")) != r.rc:
            bad(ck, "error-code", case, "code %d, annotated %s" % (r.rc, apie.attr(errors[0], "code")))
        if bool(apie.only(doc, "category")) != (r.rc == 0):
            bad(ck, "result-and-error", case, "code %d, API description: %d" % (r.rc, len(apie.only(doc, "category"))))
        if r.check is None:
            ck.saw("clean_documents")
            if notes:
                bad(ck, "check-silent", case, "checking found nothing, parsing annotates %d" % len(notes))
        else:
            ck.saw("annotated_documents")
            ck.saw("annotations", len(notes))
            k = apie.read(r.check)
            if k.get("element") != "parseResult" or k.get("content") != notes:
                bad(ck, "check-differs", case, "checking yields other annotations than parsing: " + pipeline.diff(k.get("content"), notes))
            if not notes:
                bad(ck, "check-empty", case, "checking yields an empty list of annotations")
        if case[0].endswith("(options absent)"):
            if seen.get(case[0][:-17]) not in (None, r.jsonsm):
                bad(ck, "default-options", case, "absent options differ from fresh ones")
            ck.saw("defaults_compared")
        elif case[0].startswith("packages"):
            seen[case[0]] = r.jsonsm
        if errors:
            ck.saw("documents_in_error")
        ck.mark(hash(r.jsonsm))
        ck.sample("%s: code %d, %d annotations" % (case[0], r.rc, len(notes)))
    p.run(docs(), flags, oracle)
    ck.require(documents=1500, annotated_documents=100, clean_documents=50, documents_in_error=60, defaults_compared=40)
    ck.finish()
