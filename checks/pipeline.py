"""What the checks of the whole parser share."""
import common, pipe

ASSUMED = ["the library is compiled from /repo's working tree with clang's address and undefined-behaviour sanitizers, every report fatal",
           "the Markdown renderer (sundown), the PEG library, mpark::variant and cmdline are stand-ins (/verif/shims): the submodules are absent",
           "documents are byte strings without NUL, up to 24 kB"]


def n(quick, thorough):
    return thorough if common.THOROUGH else quick


def options(rng):
    return rng.choice([0, 0, 0, pipe.NAME, pipe.NOBODY, pipe.NOSCHEMA, pipe.NOBODY | pipe.NOSCHEMA, pipe.NULLOPT, pipe.NAME | pipe.NOBODY | pipe.NOSCHEMA])


def bad(ck, key, case, msg, **more):
    ck.violation(key, "%s: %s" % (case[0], msg), pipe.replay(case[0], case[1], more))


def diff(a, b, path=""):
    """Where two JSON values first differ."""
    if type(a) != type(b):
        return "%s: %.200r instead of %.200r" % (path, a, b)
    if isinstance(a, dict):
        if list(a) != list(b) and sorted(a) != sorted(b):
            return "%s: members %s instead of %s" % (path, list(a), list(b))
        for k in a:
            if a[k] != b[k]:
                return diff(a[k], b[k], path + "/" + k)
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, "%s/%d" % (path, i))
        if len(a) != len(b):
            return "%s: %d items instead of %d: %.300r / %.300r" % (path, len(a), len(b), a[len(b):], b[len(a):])
    return "%s: %.300r instead of %.300r" % (path, a, b) if a != b else ""
