import os
import build, common, corpus, written
from pipeline import n


def main():
    ck = common.Check("C05")
    ck.rule = ("two to six threads parse and serialise random documents at once, often the same one, under the thread sanitizer; every text is compared with the one the document yields "
               "alone; distinct: assignments of documents and options to threads")
    ck.assumptions = ["the library is compiled from /repo's working tree with clang's thread sanitizer, every report fatal",
                      "threads share no result and no options object"]
    exe = build.Build("tsan").link("conc", ["conc.cc"])
    docs = [x for _, x in corpus.fixtures()][::n(3, 1)] + [x for _, x in corpus.mutants(n(150, 2000), "c05-%d" % common.SEED)] \
        + [x for _, x in corpus.shapes(n(40, 400), "c05")] \
        + [x for _, x in written.documents(n(200, 2000), "c05-%d" % common.SEED)]
    args = ["--docs", corpus.pack(os.path.join(ck.tmp, "docs"), docs)]
    ck.monitor(exe, n(400, 20000), args=args, shards=4)
    # the very first use, when whatever is made once is made: many short processes
    ck.monitor(exe, n(48, 1000), args=args, tag="first", shards=n(48, 250), start=10 ** 6)
    ck.require(texts=2000, cases_overlapping=300)
    ck.finish()
