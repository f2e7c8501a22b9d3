import random
from collections import Counter
import apie, c14, common, gen, mson, pipe, pipeline
from mson import node
from pipeline import n, bad

OPEN, NOTHING = {"e": "?"}, {"e": "-"}
CODE = {"duplicate": 2, "formatting": 3, "mson": 4, "ignoring": 5, "empty": 6, "logical": 8}


class Flawed(mson.Mson):
    """Data structures in which known things are wrong at known places."""

    def __init__(self, seed, alphabet):
        mson.Mson.__init__(self, seed, alphabet)
        self.ascii = alphabet == "ascii"
        self.notes, self.seen, self.over = [], Counter(), []
        self.bare = False       # whether what is read as nothing would change more than its own place

    def note(self, kind, says, lo, hi, converted=False, cls="warning", open_place=False):
        # places found by the conversion are known to be in bytes
        self.notes.append([cls, CODE[kind], [says] if isinstance(says, str) else says, lo, hi, None, open_place or converted and not self.ascii])

    def noted(self, f, *notes):
        """f, and the notes on what it writes."""
        def g(d):
            lo = len(self.out)
            f(d)
            for x in notes:
                kind, says = x[:2]
                self.note(kind, says, lo, len(self.out), **(x[2] if len(x) > 2 else {}))
        return g

    def bulleted(self, text, nested=None):
        def f(d):
            self.line("%s %s" % (self.bullet, text), d)
            self.over.append(text)
            for g in nested or []:
                g(d + 1)
            self.over.pop()
        return f

    def direct(self, f, other=None):
        """f, or the other where members are listed under a title: what is said there is left open."""
        def g(d):
            title = self.over[-1] if self.over else [x for x in self.out if x.startswith("#")][-1].lstrip("# ")
            if title.lower() in ("properties", "one of"):
                if other:
                    other(d)
            else:
                f(d)
        return g

    def prop(self, key, val, attrs=()):
        return node("member", key=node("string", c=key), val=val, attrs=sorted(attrs))

    def member(self, d):
        if not self.chance(.22):
            return mson.Mson.member(self, d)
        fs = sorted(x for x in dir(self) if x.startswith("m_"))
        while True:
            x = self.r.choice(fs)
            m = getattr(self, x)(self.w(), d)
            if m:
                self.seen[x[2:]] += 1
                return m

    def oneof(self, d):
        was, self.bare = self.bare, True
        try:
            return mson.Mson.oneof(self, d)
        finally:
            self.bare = was

    # -- what may be wrong with a member: (write, node) or None
    def m_attribute(self, k, d):
        p = self.prim()
        t, v = self.literal(p)
        u = [self.a() for _ in range(self.r.choice([1, 1, 2]))]
        a = [p] + self.r.sample(["required", "nullable"], self.r.randrange(3))
        for x in u:
            a.insert(self.r.randint(1, len(a)), x)
        return (self.noted(self.bulleted("%s: %s (%s)" % (k, t, ", ".join(a))), *[("ignoring", "ignoring unrecognized type attribute")] * len(u)),
                self.prop(k, node(p, c=v), [x for x in a[1:] if x in ("required", "nullable")]))

    def m_nested_type(self, k, d):
        t = self.r.choice(["string", "number", "boolean", "object"])
        return (self.noted(self.bulleted("%s (%s[%s])" % (k, t, self.prim())), ("logical", "nested types should be present only for types which are sub typed from either array or enum structure type")),
                self.prop(k, node(t)))

    def m_number(self, k, d):
        v = self.r.choice([self.w(), "0x1f", "1.2.3", "12" + self.w(), "one", "`1 2`"])
        return (self.noted(self.bulleted("%s: %s (number)" % (k, v)), ("mson", "invalid value format for 'number' type", {"converted": True})), self.prop(k, OPEN))

    def m_boolean(self, k, d):
        v = self.r.choice([self.w(), "yes", "1", "0", "on", "truex", "nil", "t"])
        return (self.noted(self.bulleted("%s: %s (boolean)" % (k, v)), ("mson", "invalid value for 'boolean' type. allowed values are 'true' or 'false'", {"converted": True})), self.prop(k, OPEN))

    INVALID = {"number": "invalid value format for 'number' type", "boolean": "invalid value for 'boolean' type. allowed values are 'true' or 'false'"}

    def m_in_line(self, k, d):
        """Values of an array or enum of which one is not of the type."""
        p, x = self.r.choice(["number", "boolean"]), self.r.choice(["array", "array", "enum"])
        vs = []
        for _ in range(self.r.randint(0, 3)):
            t, v = self.literal(p)
            if v not in [y for _, y in vs]:
                vs.append((t, v))
        vs.insert(self.r.randint(0, len(vs)), (self.w(), None))
        return (self.noted(self.bulleted("%s: %s (%s[%s])" % (k, ", ".join(t for t, _ in vs), x, p)), ("mson", self.INVALID[p], {"converted": True})), self.prop(k, OPEN))

    def m_listed(self, k, d):
        """Items or members of which one is not of the type."""
        p, x = self.r.choice(["number", "boolean"]), self.r.choice(["array", "array", "enum"])
        if x == "enum":
            p = "number"
        w = []
        for _ in range(self.r.randint(0, 3)):
            w.append(self.bulleted("%d" % self.r.randrange(1, 10 ** 9) if p == "number" else self.literal(p)[0]))
        w.insert(self.r.randint(0, len(w)), self.noted(self.bulleted(self.w()), ("mson", self.INVALID[p], {"converted": True})))
        if self.chance(.4):
            w = [self.under("Items" if x == "array" else "Members", w)]
        return self.bulleted("%s (%s[%s])" % (k, x, p), w), self.prop(k, OPEN)

    def m_sample(self, k, d):
        """A sample or default that is not of the type."""
        p, s = self.r.choice(["number", "boolean"]), self.r.choice(["Sample", "Default"])
        return self.bulleted("%s (%s)" % (k, p), [self.noted(self.bulleted("%s: %s" % (s, self.w())), ("mson", self.INVALID[p], {"converted": True}))]), self.prop(k, OPEN)

    def m_oneof_in_items(self, k, d):
        x = self.r.choice(["array", "enum"])
        t = self.noted(self.bulleted("One Of", [self.bulleted(self.w())]), ("logical", "one-of can not be a nested member for a type not sub typed from object"))
        return self.bulleted("%s (%s)" % (k, x), [self.under("Items" if x == "array" else "Members", [t])]), self.prop(k, node(x))

    def m_no_default(self, k, d):
        p, x = self.prim(), self.r.choice(["default", "sample"])
        return (self.noted(self.bulleted("%s (%s, %s)" % (k, p, x)), ("mson", "no value present when '%s' is specified" % x, {"converted": True})), self.prop(k, node(p)))

    def m_clash(self, k, d):
        p = self.prim()
        t, v = self.literal(p)
        x, y = self.r.choice([("fixed", "optional"), ("required", "optional"), ("default", "sample"), ("fixed", "fixed-type")])
        more = [z for z in (["nullable"] + ["required"] * ("optional" not in (x, y) and x != "required")) if self.chance(.3)]
        a = [x, y] + more
        self.r.shuffle(a)
        return (self.noted(self.bulleted("%s: %s (%s)" % (k, t, ", ".join([p] + a))), ("mson", "cannot use '%s' and '%s' together" % (x, y), {"converted": True})),
                self.prop(k, OPEN if x == "default" else node(p, c=v), more if x == "default" else [{"fixed-type": "fixedType"}.get(z, z) for z in a]))

    def m_object_value(self, k, d):
        return (self.direct(self.noted(self.bulleted("%s: %s (object)" % (k, self.w())), ("logical", "'object' with value definition. You should use type definition without value eg. '- key (object)'")),
                            self.bulleted("%s (object)" % k)), self.prop(k, node("object")))

    def m_no_name(self, k, d):
        if self.bare:
            return None
        return (self.noted(self.bulleted("(%s)" % self.prim()), ("empty", "no identifier specified")), NOTHING)

    def m_no_value(self, k, d):
        return (self.noted(self.bulleted("%s:" % k), ("empty", "no value(s) specified")), self.prop(k, node("string")))

    def m_mixin_primitive(self, k, d):
        x = self.ref("string", "number", "boolean") if self.chance(.7) else self.prim()
        if self.bare or not x:
            return None
        return (self.direct(self.noted(self.bulleted("Include " + x), ("formatting", "mixin type may not include a type of a primitive sub-type"), ("logical", "mixin base type should be the same as parent base type"))), NOTHING)

    def m_mixin_other(self, k, d):
        x = self.ref("array", "enum") if self.chance(.7) else self.r.choice(["array", "enum"])
        if self.bare or not x:
            return None
        return (self.direct(self.noted(self.bulleted("Include " + x), ("logical", "mixin base type should be the same as parent base type"))), NOTHING)

    def m_empty_oneof(self, k, d):
        if self.bare:
            return None
        return (self.noted(self.bulleted("One Of"), ("empty", "one of type must have nested members")), node("select"))

    def m_nested_in_primitive(self, k, d):
        p = self.prim()
        return (self.noted(self.bulleted("%s (%s)" % (k, p), [self.noted(self.bulleted(self.w()), ("logical", "sub-types of primitive types should not have nested members"))])),
                self.prop(k, node(p)))

    def m_enum_twice(self, k, d):
        if self.seen["enum_twice"]:     # having no place, they are taken for one
            return None
        vs = [self.w() for _ in range(self.r.randint(1, 3))]
        again = self.r.choice(vs)
        w = [self.bulleted(x) for x in vs]
        w.insert(self.r.randint(vs.index(again) + 1, len(w)), self.bulleted(again))
        return (self.noted(self.bulleted("%s (enum)" % k, w), ("mson", "duplicit value in enumeration", {"converted": True})),
                self.prop(k, node("enum", enums=[node("string", c=x, attrs=["fixed"]) for x in vs])))

    def m_oneof_in_array(self, k, d):
        v = self.w()
        return (self.noted(self.bulleted("%s (array)" % k, [self.bulleted(v), self.noted(self.bulleted("One Of", [self.bulleted(self.w())]), ("logical", "one of may be a nested member of a object sub-types only"))]), ),
                self.prop(k, node("array", c=[node("string", c=v)])))

    def m_object_in_array(self, k, d):
        v = self.w()
        return (self.noted(self.bulleted("%s (array)" % k, [self.bulleted(v), self.noted(self.bulleted("%s (object)" % self.w()), ("logical", "array member definition of type 'object' contains value"))])),
                self.prop(k, node("array", c=[node("string", c=v), node("object")])))

    def m_items(self, k, d):
        p, s = self.r.choice(["string", "number", "boolean", "object"]), self.r.choice(["Items", "Members"])
        return (self.noted(self.bulleted("%s (%s)" % (k, p), [self.noted(self.bulleted(s, [self.bulleted(self.w())]), ("logical", "type section `%s` not allowed for a type sub-typed from a primitive or object type" % s))])),
                self.prop(k, node(p)))

    def m_properties(self, k, d):
        p = self.r.choice(["array", "enum", "string", "number"])
        return (self.noted(self.bulleted("%s (%s)" % (k, p), [self.noted(self.bulleted("Properties", [self.bulleted(self.w())]), ("logical", "type section `Properties` is only allowed for a type sub-typed from an object type"))])),
                self.prop(k, node(p)))

    def m_object_sample(self, k, d):
        s = self.r.choice(["Sample", "Default"])
        return (self.noted(self.bulleted("%s (object)" % k, [self.noted(self.bulleted("%s: %s" % (s, self.w())), ("logical", "a sample and/or default type section for a type which is sub-typed from an object cannot have value(s) beside the keyword"))])),
                self.prop(k, OPEN))

    def m_oneof_in_sample(self, k, d):
        s = self.r.choice(["Sample", "Default"])
        return (self.noted(self.bulleted("%s (object)" % k, [self.bulleted(s, [self.noted(self.bulleted("One Of", [self.bulleted(self.w())]), ("logical", "sample and default type sections cannot have `one of` type"))])])),
                self.prop(k, OPEN))

    def m_two_defaults(self, k, d):
        vs = [self.w() for _ in range(self.r.randint(2, 3))]
        return (self.noted(self.bulleted("%s (enum)" % k, [self.bulleted("Members", [self.bulleted(x) for x in vs])] + (
            [self.bulleted("Default: " + self.r.choice(vs)) for _ in range(2)] if self.chance(.5) else [self.bulleted("Default: " + ", ".join(self.r.sample(vs, 2)))])),
                           ("mson", "multiple definitions of 'default' value", {"converted": True})),
                self.prop(k, OPEN))

    # -- what may be wrong with a type
    def named(self, name, kind):
        if not self.chance(.15):
            return mson.Mson.named(self, name, kind)
        k = self.r.randrange(5)
        lo = len(self.out)
        p = self.prim()
        if k == 4:
            u, p = self.a().capitalize(), self.r.choice(["array", "enum"])
            us = [u] + self.r.sample(["string", "number", "boolean"], self.r.choice([0, 0, 1, 2]))
            self.r.shuffle(us)
            self.line("## %s (%s[%s])" % (name, p, ", ".join(us)))
            self.note("mson", "Undefined named type '%s' referenced in type definition" % u, lo, lo + 1, converted=True)
            x = OPEN
        elif k == 0:
            u = [self.a() for _ in range(self.r.choice([1, 1, 2]))]
            self.line("## %s (%s)" % (name, ", ".join([p] + u)))
            for _ in u:
                self.note("ignoring", "ignoring unrecognized type attribute", lo, lo + 1)
            x = node(p, id=name)
        elif k == 1:
            p = self.r.choice([p, "object"])
            self.line("## %s (%s[%s])" % (name, p, self.prim()))
            self.note("logical", "nested types should be present only for types which are sub typed from either array or enum structure type", lo, lo + 1)
            x = node(p, id=name) if p != "object" else OPEN
        elif k == 2:
            name += self.r.choice(["*%s", "_%s*", "+%s", "{%s}"]) % self.a()
            if "{" in name or "_" in name or "+" in name:
                name = name.split("{")[0].split("_")[0].split("+")[0] + "*" + self.a()
            self.line("## %s (%s)" % (name, p))
            self.note("formatting", "please escape the name of the data structure using backticks since it contains MSON reserved characters", lo, lo + 1)
            x = node(p, id=name)
        else:
            self.line("## %s (number)" % name)
            self.blank()
            s = self.r.choice(["Sample", "Default"])
            lo = len(self.out)
            self.line("### " + s)
            self.line(self.w())
            self.note("mson", "invalid value format for 'number' type", lo, lo + 2, converted=True)
            x = OPEN
        self.blank()
        return x

    def fatal(self):
        """A type with an error, that ends the reading."""
        r = self.r
        k, u = r.randrange(6), self.a().capitalize()
        self.over = []
        lo = len(self.out)
        err, late = dict(cls="error"), dict(cls="error", converted=True)
        if k == 0:
            t = r.choice(["string", "number", "boolean", "array", "enum", "object"])
            self.line("## %s%s" % (t, r.choice(["", " (object)"])))
            self.blank()
            self.note("mson", "%s is a reserved keyword and cannot be used." % t, lo, lo + 1, **late)
            return
        if k == 2 and self.refs:
            self.line("# Data Structures")
            self.blank()
            name = r.choice(self.refs)[0]
            lo = len(self.out)
            self.line("## " + name)
            self.note("mson", "named type '%s' is defined more than once" % name, lo, lo + 1, **err)
            self.note("duplicate", "named type with name '%s' already exists" % name, lo, lo + 1)
            self.blank()
            self.bulleted(self.w())(0)
            return
        self.line("## " + self.a().capitalize())
        self.blank()
        for _ in range(r.choice([0, 1])):
            self.bulleted(self.w())(0)
        lo = len(self.out)
        ref = self.ref("number", "boolean")
        if k == 1 and ref:
            self.bulleted("*%s (%s)*: %s" % (self.w(), r.choice([ref, ref, "number", "boolean"]), self.w()))(0)
            self.note("mson", "'variable named property' must be string or its sub-type", lo, lo + 1, **late)
        else:
            self.bulleted(r.choice(["%s: %s (%s)", "%s: %s (required, %s)", "%s: %s (array[%s])", "*%s*: %s (%s)"]) % (self.w(), self.w(), u) if r.random() < .8 else "*%s (%s)*: %s" % (self.w(), u, self.w()))(0)
            self.note("mson", "base type '%s' is not defined in the document" % u, lo, lo + 1, **err)
        self.blank()

    def attributes(self):
        """Flawed data structures elsewhere than among the types."""
        r = self.r
        self.over = []
        where = r.choice(["resource", "action", "payload"])
        t = r.choice(["", " (object)"])
        ms = [self.member(1 if where != "payload" else 2) for _ in range(r.randint(1, 4))]
        name = self.a()

        def attrs(d):
            self.line("+ Attributes" + t, d)
            for f, _ in ms:
                f(d + 1)
            self.blank()
        self.line("# " + (name + " [/%s]" % self.a() if where == "resource" else "POST /" + self.a()))
        self.blank()
        if where != "payload":
            attrs(0)
        if where == "resource":
            self.line("## POST")
            self.blank()
        self.line("+ Response 200 (text/plain)")
        self.blank()
        if where == "payload":
            attrs(1)
        self.line("+ Body", 1)
        self.blank()
        self.line(self.a(), 3)
        self.attrs = where, node("object", c=[x for _, x in ms], id=name if where == "resource" else None)

    def structures(self):
        r = self.r
        self.rc, self.attrs = 0, None
        names = [(self.a().capitalize(), r.choice(["object"] * 5 + ["string", "number", "boolean", "array", "enum"])) for _ in range(r.randint(1, 6))]
        made = []
        for name, kind in names:
            kept, self.notes = self.notes, []
            x = self.named(name, kind)
            made.append((self.out, x, self.notes))
            self.out, self.notes = [], kept
            if x.get("id") == name:
                self.refs.append((name, x["e"] if x["e"] in ("string", "number", "boolean", "object") else kind))
        if self.chance(.5):
            r.shuffle(made)
        self.out = ["# " + self.words(), "", "# Data Structures", ""]
        kept = []
        for ls, x, notes in made:
            for y in notes:
                y[3] += len(self.out)
                y[4] += len(self.out)
            self.notes += notes
            self.out += ls
            kept.append(x)
        if self.chance(.1) and all(x[1] != CODE["mson"] for x in self.notes):
            self.fatal()
            self.rc = CODE["mson"]
        elif self.chance(.5):
            while self.out[-1]:
                self.blank()
            self.attributes()
        while not self.out[-1]:
            self.out.pop()
        return "\n".join(self.out) + "\n", kept


def settle(want, got):
    """What is read, with what is open replaced; and what is wanted, without what is nothing."""
    if isinstance(want, list):
        want = [x for x in want if x != NOTHING]
        if isinstance(got, list) and len(got) == len(want):
            pairs = [settle(x, y) for x, y in zip(want, got)]
            return [x for x, _ in pairs], [y for _, y in pairs]
        return want, got
    if isinstance(want, dict) and isinstance(got, dict):
        if want == OPEN:
            return OPEN, OPEN
        w, g = {}, dict(got)
        for k, v in want.items():
            if isinstance(v, list) and not [x for x in v if x != NOTHING]:
                continue
            w[k] = v
            if k in got:
                w[k], g[k] = settle(v, got[k])
        return w, g
    return want, got


def main():
    ck = common.Check("C15")
    ck.rule = ("data structures are generated in which known things are wrong at known places; each must be annotated once, with its code, its text and its place, and nothing else; "
               "what is not wrong must be read as written; distinct: outputs")
    ck.assumptions = pipeline.ASSUMED

    def cases():
        for i in range(n(2500, 80000)):
            g = Flawed("c15-%d/%d" % (common.SEED, i), random.Random(i).choice(["ascii", "ascii", "two", "three", "four"]))
            t, want = g.structures()
            yield "flawed-%d" % i, t.encode(), (g.notes, want, g.seen, g.rc, g.attrs)

    def oracle(case, r):
        ck.saw("documents")
        ck.mark(hash(r.jsonsm))
        notes, want, seen, rc, attrs = case[2]
        for k, v in seen.items():
            ck.saw("members_" + k, v)
        try:
            doc = apie.read(r.jsonsm)
            c14.place(ck, case, doc, notes)
            if r.rc != rc:
                return bad(ck, "code", case, "code %d instead of %d" % (r.rc, rc))
            if rc:
                return ck.saw("refused")
            got = mson.read_structures(doc)
            if attrs:
                ck.saw("attributes_" + attrs[0])
                of = {"resource": "resource", "action": "transition", "payload": "httpResponse"}[attrs[0]]
                x = [mson.read_type(y["content"]) for e, _, _ in apie.walk(doc) if e["element"] == of
                     for y in ([apie.attr(e, "data")] if of == "transition" else e["content"]) if y and y["element"] == "dataStructure"]
                m = pipeline.diff(*reversed(settle([attrs[1]], x)))
                if m:
                    bad(ck, "attributes", case, m)
        except (gen.Unread, KeyError, TypeError, IndexError, AttributeError) as e:
            return bad(ck, "unread", case, repr(e))
        ck.saw("types", len(want))
        m = pipeline.diff(*reversed(settle(want, got)))
        if m:
            bad(ck, "read", case, m)
    pipe.Pool(ck).run(cases(), pipe.JSON_SM, oracle)
    ck.require(documents=2500, types=4000, refused=50, attributes_resource=150, attributes_action=150, attributes_payload=150, annotations_warning_3=150, annotations_warning_4=150, annotations_warning_5=300, annotations_warning_6=200, annotations_warning_8=900,
               **{"members_" + x[2:]: 20 for x in dir(Flawed) if x.startswith("m_")})
    ck.finish()
