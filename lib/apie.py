"""API Elements documents: strict reading, walking, and the rules every one of them follows."""
import json

PRIMITIVES = {"string", "number", "boolean", "null", "array", "object", "enum", "member", "ref", "option", "select", "extend", "generic",
              "annotation", "asset", "category", "copy", "resource", "transition", "httpTransaction", "httpRequest", "httpResponse",
              "httpHeaders", "hrefVariables", "dataStructure", "parseResult", "sourceMap", "link"}


class Malformed(Exception):
    pass


def _pairs(ps):
    d = {}
    for k, v in ps:
        if k in d:
            raise Malformed("duplicate name %r" % k)
        d[k] = v
    return d


def _const(x):
    raise Malformed("not JSON: %s" % x)


def read(b):
    """Strict JSON: valid UTF-8, unique names, no NaN, nothing else."""
    try:
        return json.loads(b.decode("utf-8"), object_pairs_hook=_pairs, parse_constant=_const)
    except (UnicodeDecodeError, ValueError) as e:
        raise Malformed(str(e))


def is_utf8(b):
    try:
        b.decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


def el(e):
    return isinstance(e, dict) and "element" in e


def kids(e):
    """Every element directly below, with how it is reached."""
    for part in ("meta", "attributes"):
        for k, v in (e.get(part) or {}).items():
            if el(v):
                yield "%s.%s" % (part, k), v
    c = e.get("content")
    if isinstance(c, list):
        for i, x in enumerate(c):
            if el(x):
                yield "[%d]" % i, x
    elif isinstance(c, dict):
        if el(c):
            yield "content", c
        else:
            for k in ("key", "value"):
                if el(c.get(k)):
                    yield k, c[k]


def walk(e, path="", up=()):
    yield e, path, up
    for p, x in kids(e):
        for y in walk(x, path + "/" + p, up + (e,)):
            yield y


def strip(x, attrs=("sourceMap",)):
    """Without the given attributes (and what becomes empty for it); annotations always keep theirs."""
    if isinstance(x, list):
        return [strip(y, attrs) for y in x]
    if not isinstance(x, dict):
        return x
    o = {}
    if x.get("element") == "annotation":
        attrs = [a for a in attrs if a != "sourceMap"]
    for k, v in x.items():
        if k == "attributes" and isinstance(v, dict):
            v = {a: strip(b, attrs) for a, b in v.items() if a not in attrs}
            if not v:
                continue
        else:
            v = strip(v, attrs)
        o[k] = v
    return o


def classes(e):
    c = ((e.get("meta") or {}).get("classes") or {}).get("content") or []
    return [x.get("content") for x in c if isinstance(x, dict)]


def title(e):
    return ((e.get("meta") or {}).get("title") or {}).get("content")


def attr(e, name):
    return (e.get("attributes") or {}).get(name)


def content(e):
    return e.get("content") if e else None


def only(e, kind, cls=None):
    c = e.get("content")
    return [x for x in (c if isinstance(c, list) else []) if el(x) and x["element"] == kind and (cls is None or cls in classes(x))]


def annotations(doc):
    return only(doc, "annotation")


def problems(doc):
    """Yields what is wrong with the shape of a parse result."""
    if not el(doc) or doc["element"] != "parseResult" or not isinstance(doc.get("content"), list):
        yield "root", "the root is not a parse result"
        return
    cs = [x.get("element") for x in doc["content"]]
    if any(x not in ("category", "annotation") for x in cs):
        yield "root", "children of the parse result: %s" % cs
    if cs.count("category") > 1 or "category" in cs[1:]:
        yield "root", "the API description is not the first and only one: %s" % cs
    for e, path, up in walk(doc):
        for v in shape(e, path, up):
            yield v


def _list(e):
    return isinstance(e.get("content"), list)


def shape(e, path, up):
    k = e["element"]
    if not isinstance(k, str) or not k:
        yield "name", "%s: element is %r" % (path, k)
        return
    extra = set(e) - {"element", "meta", "attributes", "content"}
    if extra:
        yield "members", "%s: %s" % (path, extra)
    for part in ("meta", "attributes"):
        if part in e:
            if not isinstance(e[part], dict) or not e[part]:
                yield part, "%s: %s is %r" % (path, part, e[part])
            else:
                for n, v in e[part].items():
                    if not el(v):
                        yield part, "%s: %s %s is not an element: %r" % (path, part, n, v)
    c = e.get("content")
    if isinstance(c, list):
        if not all(el(x) for x in c):
            yield "content", "%s: a list of others than elements" % path
    elif isinstance(c, dict):
        if not el(c):
            if set(c) - {"key", "value"} or not el(c.get("key")) or ("value" in c and not el(c["value"])):
                yield "member", "%s: %r" % (path, c)
            elif k != "member" and k in PRIMITIVES:
                yield "member", "%s: %s has a key and a value" % (path, k)
    parent = up[-1]["element"] if up else None
    if k == "parseResult" and up:
        yield "nesting", "%s: a parse result inside another element" % path
    elif k == "annotation":
        code = attr(e, "code")
        if not isinstance(c, str) or not c:
            yield "annotation", "%s: without text" % path
        if classes(e) not in (["warning"], ["error"]):
            yield "annotation", "%s: classes %s" % (path, classes(e))
        if not el(code) or not isinstance(code.get("content"), int):
            yield "annotation", "%s: code %r" % (path, code)
        if parent != "parseResult":
            yield "nesting", "%s: annotation in %s" % (path, parent)
    elif k == "resource":
        if not isinstance(content(attr(e, "href")), str):
            yield "resource", "%s: href %r" % (path, attr(e, "href"))
        if parent != "category":
            yield "nesting", "%s: resource in %s" % (path, parent)
        for x in c if isinstance(c, list) else []:
            if x["element"] not in ("copy", "transition", "dataStructure", "category"):
                yield "nesting", "%s: %s in a resource" % (path, x["element"])
    elif k == "transition":
        if parent != "resource":
            yield "nesting", "%s: transition in %s" % (path, parent)
        for x in c if isinstance(c, list) else []:
            if x["element"] not in ("copy", "httpTransaction"):
                yield "nesting", "%s: %s in a transition" % (path, x["element"])
    elif k == "httpTransaction":
        if parent != "transition":
            yield "nesting", "%s: transaction in %s" % (path, parent)
        n = [x["element"] for x in c] if isinstance(c, list) else []
        if [x for x in n if x != "copy"] != ["httpRequest", "httpResponse"]:
            yield "transaction", "%s: %s" % (path, n)
    elif k in ("httpRequest", "httpResponse"):
        if parent != "httpTransaction":
            yield "nesting", "%s: %s in %s" % (path, k, parent)
        if k == "httpRequest" and not isinstance(content(attr(e, "method")), str):
            yield "request", "%s: method %r" % (path, attr(e, "method"))
        n = [x["element"] for x in c] if isinstance(c, list) else []
        if any(x not in ("copy", "dataStructure", "asset") for x in n) or n.count("dataStructure") > 1:
            yield "payload", "%s: %s" % (path, n)
        for cls in ("messageBody", "messageBodySchema"):
            if len(only(e, "asset", cls)) > 1:
                yield "payload", "%s: several assets %s" % (path, cls)
    elif k == "asset":
        if not isinstance(c, str) or classes(e) not in (["messageBody"], ["messageBodySchema"]):
            yield "asset", "%s: %s %r" % (path, classes(e), c)
    elif k == "copy":
        if not isinstance(c, str) or not c:
            yield "copy", "%s: %r" % (path, c)
    elif k == "dataStructure":
        if not el(c):
            yield "dataStructure", "%s: %r" % (path, c)
    elif k == "httpHeaders":
        for x in c if isinstance(c, list) else [None]:
            if not el(x) or x["element"] != "member" or not isinstance(content(x["content"].get("key")), str):
                yield "headers", "%s: %r" % (path, x)
    elif k == "hrefVariables":
        for x in c if isinstance(c, list) else [None]:
            if not el(x) or x["element"] != "member" or not isinstance(content(x["content"].get("key")), str):
                yield "hrefVariables", "%s: %r" % (path, x)
    elif k == "sourceMap":
        ok = isinstance(c, list)
        for x in c or []:
            n = x.get("content")
            ok = ok and x["element"] == "array" and isinstance(n, list) and len(n) == 2 and all(
                y["element"] == "number" and isinstance(y.get("content"), int) and y["content"] >= 0 for y in n)
        if not ok:
            yield "sourceMap", "%s: %r" % (path, c)
    elif k == "string" and not (c is None or isinstance(c, str)):
        yield "content", "%s: a string of %r" % (path, c)
    elif k == "boolean" and not (c is None or isinstance(c, bool)):
        yield "content", "%s: a boolean of %r" % (path, c)
    elif k == "number" and not (c is None or (isinstance(c, (int, float)) and not isinstance(c, bool))):
        yield "content", "%s: a number of %r" % (path, c)
    elif k == "null" and c is not None:
        yield "content", "%s: a null of %r" % (path, c)
    elif k in ("array", "object", "select", "option", "extend") and not (c is None or isinstance(c, list)):
        yield "content", "%s: %s of %r" % (path, k, c)


def source_maps(e):
    """[(first, length)...] of an element, or None."""
    a = attr(e, "sourceMap")
    if not a:
        return None
    return [tuple(y["content"] for y in x["content"]) for m in a["content"] for x in m["content"]]


def _yaml_loader():
    import re
    import yaml

    class Loader(getattr(yaml, "CSafeLoader", yaml.SafeLoader)):
        pass
    # numbers as YAML 1.2 has them (PyYAML reads YAML 1.1, where 1e5 is a text)
    Loader.add_implicit_resolver("tag:yaml.org,2002:float", re.compile(r"^[-+]?(\.[0-9]+|[0-9]+(\.[0-9]*)?)[eE][-+]?[0-9]+$"), list("-+.0123456789"))
    return Loader


_loader = None


def read_yaml(b):
    global _loader
    import yaml
    if _loader is None:
        _loader = _yaml_loader()
    try:
        return yaml.load(b.decode("utf-8"), Loader=_loader)
    except (UnicodeDecodeError, yaml.YAMLError, ValueError) as e:
        raise Malformed(str(e))
