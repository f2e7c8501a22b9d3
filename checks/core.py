"""The common shape of a check that is one sharded C++ monitor."""
import os
import build, common


def core(pid, harness, quick, thorough, rule, require=None, assumptions=(), variant="asan", extra="", srcs=None, args=(), stall=90,
         then=None, env=None):
    ck = common.Check(pid)
    if env:
        os.environ[env] = os.path.join(ck.tmp, "yaml")
    b = build.Build(variant)
    exe = b.link(harness, srcs or [harness + ".cc"], extra)
    ck.rule = rule
    ck.assumptions = list(assumptions) or BASIC
    ck.monitor(exe, thorough if common.THOROUGH else quick, args=args, stall=stall)
    if require:
        ck.require(**require)
    if then:
        then(ck, b)
    ck.finish()


BASIC = ["the library is compiled from /repo's working tree with clang's address and undefined-behaviour sanitizers, every report fatal",
         "the submodules absent from the sandbox are replaced by the stand-ins in /verif/shims"]
