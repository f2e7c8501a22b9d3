"""A plain validator of JSON Schema draft 7, for the keywords that say something about structure."""
import re


class Bad(Exception):
    """The schema is not a schema."""


TYPES = {"null": lambda v: v is None, "boolean": lambda v: isinstance(v, bool), "object": lambda v: isinstance(v, dict), "array": lambda v: isinstance(v, list),
         "string": lambda v: isinstance(v, str), "number": lambda v: isinstance(v, (int, float)) and not isinstance(v, bool),
         "integer": lambda v: isinstance(v, (int, float)) and not isinstance(v, bool) and v == int(v)}


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(v, b[k]) for k, v in a.items())
    return a == b


def need(ok, at, what):
    if not ok:
        raise Bad("%s: %s" % (at or "/", what))


def check(s, at=""):
    """Raises Bad unless this is a schema."""
    if isinstance(s, bool):
        return
    need(isinstance(s, dict), at, "neither an object nor a boolean")
    for k, v in s.items():
        here = at + "/" + k
        if k == "$schema":
            need(not at, here, "inside of a schema")
            need(v == "http://json-schema.org/draft-07/schema#", here, "is %r" % v)
        elif k == "type":
            vs = v if isinstance(v, list) else [v]
            need(vs and all(isinstance(x, str) and x in TYPES for x in vs) and len(set(vs)) == len(vs), here, "is %r" % v)
        elif k in ("properties", "patternProperties"):
            need(isinstance(v, dict), here, "no object")
            for a, b in v.items():
                check(b, here + "/" + a)
                if k == "patternProperties":
                    try:
                        re.compile(a)
                    except re.error as e:
                        need(False, here, "bad expression %r: %s" % (a, e))
        elif k == "required":
            need(isinstance(v, list) and all(isinstance(x, str) for x in v) and len(set(v)) == len(v), here, "is %r" % v)
        elif k in ("additionalProperties", "additionalItems", "not", "contains", "propertyNames", "if", "then", "else"):
            check(v, here)
        elif k == "items":
            for i, x in enumerate(v) if isinstance(v, list) else [(0, v)]:
                check(x, "%s/%d" % (here, i))
        elif k in ("anyOf", "oneOf", "allOf"):
            need(isinstance(v, list) and v, here, "no list, or an empty one")
            for i, x in enumerate(v):
                check(x, "%s/%d" % (here, i))
        elif k == "enum":
            need(isinstance(v, list), here, "no list")
        elif k in ("minItems", "maxItems", "minProperties", "maxProperties", "minLength", "maxLength"):
            need(isinstance(v, int) and not isinstance(v, bool) and v >= 0, here, "is %r" % v)
        elif k == "const":
            pass
        else:
            need(k in ("title", "description", "default", "examples", "$id", "$comment"), here, "unknown keyword")


def valid(s, v):
    """Whether a value fits a schema that passed check()."""
    if isinstance(s, bool):
        return s
    if "type" in s and not any(TYPES[t](v) for t in (s["type"] if isinstance(s["type"], list) else [s["type"]])):
        return False
    if "const" in s and not same(s["const"], v):
        return False
    if "enum" in s and not any(same(x, v) for x in s["enum"]):
        return False
    if "anyOf" in s and not any(valid(x, v) for x in s["anyOf"]):
        return False
    if "allOf" in s and not all(valid(x, v) for x in s["allOf"]):
        return False
    if "oneOf" in s and sum(valid(x, v) for x in s["oneOf"]) != 1:
        return False
    if "not" in s and valid(s["not"], v):
        return False
    if "if" in s and not valid(s.get("then" if valid(s["if"], v) else "else", True), v):
        return False
    if isinstance(v, dict):
        if any(k not in v for k in s.get("required", [])) or not s.get("minProperties", 0) <= len(v) <= s.get("maxProperties", len(v)):
            return False
        for k, x in v.items():
            known = False
            if k in s.get("properties", {}):
                known = True
                if not valid(s["properties"][k], x):
                    return False
            for p, y in s.get("patternProperties", {}).items():
                if re.search(p, k):
                    known = True
                    if not valid(y, x):
                        return False
            if not known and not valid(s.get("additionalProperties", True), x):
                return False
            if not valid(s.get("propertyNames", True), k):
                return False
    if isinstance(v, list):
        if not s.get("minItems", 0) <= len(v) <= s.get("maxItems", len(v)):
            return False
        items = s.get("items", True)
        if isinstance(items, list):
            for i, x in enumerate(v):
                if not valid(items[i] if i < len(items) else s.get("additionalItems", True), x):
                    return False
        elif not all(valid(items, x) for x in v):
            return False
        if "contains" in s and not any(valid(s["contains"], x) for x in v):
            return False
    if isinstance(v, str) and not s.get("minLength", 0) <= len(v) <= s.get("maxLength", len(v)):
        return False
    return True
