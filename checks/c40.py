import build, common


def main():
    ck = common.Check("C40")
    exe = build.Build("tsan").link("log", ["log.cc"])
    ck.rule = ("two to eight threads write up to thirty entries each of random severity, text and timing to the log, built with logging on, while others switch it on; the file "
               "is read back after each case; distinct: order in which the threads' lines came out")
    ck.assumptions = ["the log is compiled from /repo's working tree with clang's thread sanitizer, every report fatal",
                      "no entry is written while another entry of the same thread is being written (the log's lock is not recursive)"]
    # the log stays on once it is: many processes see the switch from off to on
    ck.monitor(exe, 60000 if common.THOROUGH else 6000, shards=120 if common.THOROUGH else 64)
    ck.require(lines=50000, thread_switches=5000, cases_on=1000, cases_off=10, cases_enabled_meanwhile=5)
    ck.finish()
