import os, random
import build, common, corpus, written
from core import BASIC
from pipeline import n


def main():
    ck = common.Check("C26")
    ck.rule = ("random documents are parsed by the parser's own interface; its tree and its source maps are walked side by side, copied, assigned, changed and freed, and compared with a description "
               "taken before; distinct: trees")
    ck.assumptions = list(BASIC)
    docs = [x for _, x in corpus.fixtures()] + [x for _, x in corpus.mutants(n(800, 20000), "c26-%d" % common.SEED)] \
        + [x for _, x in corpus.shapes(n(60, 1000), "c26")] + [x for _, x in written.documents(n(1100, 20000), "c26-%d" % common.SEED)]
    random.Random(common.SEED).shuffle(docs)
    exe = build.Build("asan").link("ast", ["ast.cc"])
    ck.monitor(exe, n(6000, 110000), args=["--docs", corpus.pack(os.path.join(ck.tmp, "docs"), docs)])
    ck.require(documents=1000, nodes=10000, copies=4000, parts=400, references=20, not_empty=5000)
    ck.finish()
