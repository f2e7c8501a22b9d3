"""What generated bodies and schemas of data structures made by mson.py must be."""
import copy
import schema

PRIMS = ("string", "number", "boolean")
KINDS = PRIMS + ("array", "enum", "object")
EMPTY = {"string": "", "number": 0.0, "boolean": False}


class Skip(Exception):
    """The language does not say."""


class Circular(Exception):
    """A type includes itself."""


class World:
    """Named types."""
    def __init__(self, types):
        self.types = {t["id"]: t for t in types}

    def root(self, name):
        while self.types[name]["e"] not in KINDS:
            name = self.types[name]["e"]
        return self.types[name]

    def full(self, n, stack=()):
        """The element with all it inherits and includes, that is, without names."""
        if n["e"] in KINDS:
            return self.inner(n, stack)
        if n["e"] in stack:     # a type inside of itself is left empty
            return {k: v for k, v in self.root(n["e"]).items() if k not in ("id", "desc", "c")}
        chain, name = [], n["e"]
        while name not in KINDS:
            chain.insert(0, self.types[name])
            name = self.types[name]["e"]
        out = {}
        for t in chain:
            out = self.merge(out, self.inner(dict(t, e=name), stack + (n["e"],)), name)
        out = self.merge(out, self.inner(dict(n, e=name), stack), name)
        out["named"] = True
        return out

    def inner(self, n, stack):
        """The element with all its parts in full."""
        out = {k: v for k, v in n.items() if k not in ("id", "desc")}
        if n["e"] not in PRIMS and "c" in n:
            out["c"] = [self.part(x, stack) for x in n["c"]]
        return out

    def part(self, x, stack):
        if x["e"] == "member":
            return dict(x, val=self.full(x["val"], stack))
        if x["e"] == "ref":
            if x["c"] in stack:
                raise Circular(x["c"])
            return dict(x, full=self.full(self.types[x["c"]], stack + (x["c"],)))
        if x["e"] == "select":
            return dict(x, c=[dict(o, c=[self.part(y, stack) for y in o.get("c", [])]) for o in x["c"]])
        return self.full(x, stack)

    def merge(self, base, own, kind):
        if not base:
            return own
        out = dict(base)
        for k, v in own.items():
            if k == "c" and kind == "object":
                v = self.override(base.get("c", []), v)
            elif k == "c" and kind == "array":
                v = base.get("c", []) + v
            elif k == "enums":
                v = [x for x in base.get("enums", []) if x not in v] + v
            out[k] = v
        return out

    def override(self, base, own):
        out = list(base)
        for m in own:
            for i, o in enumerate(out):
                if m["e"] != "select" and self.names(o) & self.names(m):
                    out[i] = m
                    break
            else:
                out.append(m)
        return out

    def names(self, m):
        if m["e"] == "member":
            return {m["key"]["c"]}
        if m["e"] == "ref":
            return {("ref", m["c"])}
        return {y["key"]["c"] for o in m["c"] for y in o.get("c", []) if y["e"] == "member"}

    # ------------------------------------------------------------ values
    def value(self, n, nullable=False):
        k = n["e"]
        nullable = nullable or "nullable" in n.get("attrs", [])
        if "c" not in n:
            for x in n.get("samples", [])[:1] + ([n["default"]] if "default" in n else []):
                return self.value(x, nullable)
            if nullable:
                return None
            if k == "enum":
                return self.value(n["enums"][0]) if n.get("enums") else None
            return EMPTY[k] if k in PRIMS else [] if k == "array" else {}
        c = n["c"]
        if k in PRIMS:
            return c
        if k == "enum":
            return self.value(c[0])
        if k == "array":
            out = []
            for x in c:
                if x["e"] == "ref":
                    v = self.value(x["full"])
                    out += v if isinstance(v, list) else []
                elif x["e"] not in PRIMS or self.defined(x):
                    out.append(self.value(x))
            return out
        return self.props(c)

    def defined(self, n):
        return "named" in n or any(k in n for k in ("c", "samples", "default"))

    def props(self, ms):
        out = {}
        for m in ms:
            if m["e"] == "member":
                attrs = m.get("attrs", [])
                if "optional" not in attrs or self.defined(m["val"]):
                    out[m["key"]["c"]] = self.value(m["val"], "nullable" in attrs)
            elif m["e"] == "ref":
                out.update(self.value(m["full"]))
            elif m["e"] == "select":
                for o in m["c"]:
                    if o.get("c"):
                        out.update(self.props(o["c"]))
                        break
            else:
                raise Skip("property " + m["e"])
        return out

    # ------------------------------------------------------------ what a type admits
    def holds(self, n):
        """Whether being fixed carries over to it: it has a value."""
        if n["e"] == "object":
            return True
        if n["e"] == "enum":
            return self.holds(n["c"][0]) if "c" in n else "default" in n
        return any(k in n for k in ("c", "samples", "default"))

    def admits(self, n, v, fixed=False, ftype=False, nullable=False):
        """True, False, or None where the language does not say."""
        k = n["e"]
        attrs = n.get("attrs", [])
        fixed, ftype, nullable = fixed or "fixed" in attrs, ftype or "fixedType" in attrs, nullable or "nullable" in attrs
        if k == "enum":
            if nullable and v is None:
                return True
            return any3([self.enumerated(x, v) for x in n.get("enums", [])])
        if v is None:
            return nullable
        if not schema.TYPES[k](v):
            return False
        if k in PRIMS:
            return schema.same(n["c"], v) if fixed and "c" in n else True
        if k == "array":
            c = list(self.items(n))
            if ftype:
                return all3([any3([self.admits(x, i, fixed and self.holds(x)) for x in c]) for i in v])
            if not fixed:
                return True
            if not all(self.holds(x) and "c" in x for x in c):
                return None
            return len(v) == len(c) and all3([self.admits(x, i, True) for x, i in zip(c, v)])
        return self.record(n.get("c", []), v, fixed, ftype)

    def items(self, n):
        for x in n.get("c", []):
            if x["e"] == "ref":
                yield from self.items(x["full"])
            else:
                yield x

    def enumerated(self, x, v):
        if x["e"] in PRIMS and "c" in x:
            return schema.same(x["c"], v)
        return self.admits(x, v)

    def record(self, ms, v, fixed, ftype, part=False):
        out, props = [], {}

        def add(ms, all_required):
            for m in ms:
                if m["e"] == "member":
                    props[m["key"]["c"]] = m, all_required
                elif m["e"] == "ref":
                    add(m["full"].get("c", []), all_required and "maybe")
                else:
                    choices.append(m)
        choices = []
        add(ms, fixed or ftype)
        keys = lambda o: [k for y in o.get("c", []) for k in ([y["key"]["c"]] if y["e"] == "member" else keys(y["full"]) if y["e"] == "ref" else [k for x in y["c"] for k in keys(x)])]
        names = [k for m in choices for o in m["c"] for k in keys(o)] + list(props)
        for m in choices:
            # where names meet each other, which choice it is is not looked at
            if len(set(names)) != len(names):
                out.append(None)
                continue
            one = [self.record(o.get("c", []), v, fixed, ftype, True) for o in m["c"]]
            made = [k for o, k in zip(m["c"], one) if k and set(keys(o)) & set(v)]
            # known: several of them hold where their members are not required
            out.append(None if None in one or one.count(True) > 1 and len(made) < 2 else one.count(True) == 1)
        varies = lambda o: any(y.get("var") if y["e"] == "member" else varies(y["full"]) if y["e"] == "ref" else any(varies(x) for x in y["c"]) for y in o.get("c", []))
        if any(m.get("var") for m, _ in props.values()) or any(varies(o) for m in choices for o in m["c"]):    # known: the schema of a variable name applies to all names
            return None
        for key, (m, all_required) in props.items():
            attrs = m.get("attrs", [])
            if key in v:
                out.append(self.admits(m["val"], v[key], "fixed" in attrs or fixed and self.holds(m["val"]), "fixedType" in attrs, "nullable" in attrs))
            elif "required" in attrs or all_required and "optional" not in attrs:
                # whether all that is included in a fixed type is required, the language does not say
                out.append(None if all_required == "maybe" and "required" not in attrs else False)
        if (fixed or ftype) and not part and set(v) - set(props) - set(names):
            out.append(False)
        return all3(out)


def any3(xs):
    return True if True in xs else None if None in xs else False


def all3(xs):
    return False if False in xs else None if None in xs else True


# ------------------------------------------------------------------ values near a value
OTHERS = [None, True, False, 0, 17, -1.5, "", "other", [], [1], ["other", None], {}, {"other": 1}]


def near(v, r, count):
    """Values that differ from v in one or two places."""
    for _ in range(count):
        x = copy.deepcopy(v)
        for _ in range(r.choice([1, 1, 1, 2])):
            x = change(x, r)
        yield x


def change(v, r):
    if isinstance(v, dict) and v and r.random() < .85:
        k = r.choice(list(v))
        c = r.randrange(6)
        if c == 0:
            del v[k]
        elif c == 1:
            v["z%d" % r.randrange(9)] = copy.deepcopy(r.choice(OTHERS))
        else:
            v[k] = change(v[k], r)
        return v
    if isinstance(v, list) and v and r.random() < .85:
        i = r.randrange(len(v))
        c = r.randrange(5)
        if c == 0:
            del v[i]
        elif c == 1:
            v.insert(i, copy.deepcopy(r.choice(v)))
        elif c == 2:
            v.append(copy.deepcopy(r.choice(OTHERS)))
        else:
            v[i] = change(v[i], r)
        return v
    if isinstance(v, str) and v and r.random() < .3:
        return v + "z"
    if isinstance(v, (int, float)) and not isinstance(v, bool) and r.random() < .3:
        return v + 1
    return copy.deepcopy(r.choice(OTHERS))
