"""Data structures made together with what they must be read as."""
import re
import apie, gen

FIXED = ["fixed"]


def node(e, **k):
    """What an element is read as, without what it lacks."""
    d = {"e": e}
    d.update((a, b) for a, b in k.items() if b is not None and b != [])
    return d


class Mson(gen.Gen):
    def __init__(self, seed, alphabet="ascii", rich=False):
        gen.Gen.__init__(self, seed, alphabet)
        self.rich = rich    # also less common forms; and all of them, if it is "keys", or those which can be told in bodies, if it is "more"
        self.without = set()
        self.refs = []      # names of types that may be referred to, with their kind

    # -- literals: (text, value)
    def literal(self, kind):
        r = self.r
        if kind == "number":
            v = r.choice(["%d" % r.randrange(10), "%d" % r.randrange(1000000), "%d.%d" % (r.randrange(100), r.randrange(1, 1000)), "0.%03d" % r.randrange(1, 999),
                          "-%d" % r.randrange(1, 1000), "%d" % r.randrange(2 ** 31, 2 ** 52), "%de%d" % (r.randrange(1, 9), r.randrange(1, 9))])
            return ("`%s`" % v if v[0] == "-" or self.chance(.15) else v), float(v)
        if kind == "boolean":
            v = self.chance(.5)
            return ("true" if v else "false"), v
        k = r.randrange(8)
        if k == 0:
            v = r.choice(["%s: %s", "%s (%s)", "%s, %s", "[%s] {%s}", "%s - %s", "%s + *%s"]) % (self.w(), self.w())
            return "`%s`" % v, v
        v = self.words(1, 3) if k < 6 else r.choice(["12", "true", "null", "a.b/c", "007", "x=y&z"]) + self.w()
        return ("`%s`" % v if self.chance(.2) else v), v

    def prim(self):
        return self.r.choice(["string", "string", "number", "boolean"])

    def ref(self, *kinds):
        c = [n for n, k in self.refs if not kinds or k in kinds]
        return self.r.choice(c) if c else None

    def named_as(self, name):
        """A reference to a type: its name, or a link."""
        if not self.chance(.12):
            return name
        return "[%s](%s)" % (name, self.r.choice(["#" + name.lower(), "#" + self.a(), "http://%s/#%s" % (self.a(), name)]))

    # -- a type: (text of the value, text of the type, how to write what is nested, node)
    def typed(self, d):
        k = self.r.randrange(13 if d > 0 else 7)
        if k < 6:
            return self.primitive(self.prim())
        if k == 6:
            n = self.ref()
            if n:
                return None, self.named_as(n), None, node(n)
            return self.primitive(self.prim())
        if k < 9:
            return self.array(d - 1, implied=True)
        if k < 11:
            return self.object(d - 1)
        return self.enum()

    def sections(self, one, p=.25):
        """Default and samples: one(title) makes (write, node)."""
        w, dflt, samples = [], None, []
        for title in ["Sample"] * self.r.choice([0, 0, 0, 1, 2]) + ["Default"] * self.chance(.2) if self.chance(2 * p) else []:
            f, x = one(title)
            w.append(f)
            if title == "Default":
                dflt = x
            else:
                samples.append(x)
        return w, dflt, samples

    def primitive(self, kind):
        v = self.literal(kind) if self.chance(.6) else None

        def one(title):
            t, x = self.literal(kind)
            ls = [self.words() for _ in range(self.r.randint(1, 2))] if kind == "string" and t == x and self.chance(.2) else []

            def f(d):       # its text may go on, in lines of its own
                self.line("%s %s: %s" % (self.bullet, title, t), d)
                for l in ls:
                    self.line("  " + l, d)
            return f, node(kind, c="\n".join([x] + ls) if ls else x)
        w, dflt, samples = self.sections(one)
        c, traits = (v[1] if v else None), []
        if v and self.rich and self.chance(.12) and v[0][0] != "`":     # only an example
            samples.insert(0, node(kind, c=c))
            v, c = ("*%s*" % v[0], v[1]), None
        elif v and not dflt and self.chance(.1):
            traits, dflt, c = ["default"], node(kind, c=c), None
        elif v and self.chance(.1):
            traits, samples, c = ["sample"], None, None
            samples = [node(kind, c=v[1])]
            w = [f for f in w if False]
            dflt = None
        n = node(kind, c=c, default=dflt, samples=samples)
        t = kind if kind != "string" or w or self.chance(.6) else None
        return (v[0] if v else None), ", ".join(([t] if t else []) + traits), w, n

    def item(self, kind, d):
        """An item of an array: (write, node)."""
        if kind is None:
            k = self.r.randrange(7)
            if k == 0 and d > 0:
                v, t, w, n = self.object(d - 1, kind="object")
                return self.bulleted("(%s)" % t, w), n
            if k == 6 and d > 0:
                v, t, w, n = self.enum() if self.chance(.3) else self.array(d - 1)
                return self.bulleted("%s (%s)" % (v, t) if v else "(%s)" % t, w), n
            if k == 1:
                n = self.ref()
                if n:
                    return self.bulleted("(%s)" % self.named_as(n)), node(n)
            if k == 2:
                p = self.prim()
                t, x = self.literal(p)
                return self.bulleted("%s (%s)" % (t, p)), node(p, c=x)
            kind = "string"
        t, x = self.literal(kind)
        if self.rich and self.chance(.15) and t[0] != "`":
            return self.bulleted("*%s*" % t), node(kind, samples=[node(kind, c=x)])
        desc = self.words() if self.chance(.15) else None
        return self.bulleted(t + (" - " + desc if desc else "")), node(kind, c=x, desc=desc)

    def spelled(self, text):
        """The words of the language in the ways they may be written."""
        if re.match(r"(Sample|Default)(:|$)|(Properties|Items|Members|One Of)$|Include ", text) and self.chance(.1):
            text = text[0].lower() + text[1:].replace("ne Of", self.r.choice(["ne of", "ne Of", "ne  Of"]))
        return text

    def bulleted(self, text, nested=None):
        def f(d):
            self.line("%s %s" % (self.bullet, self.spelled(text)), d)
            for g in nested or []:
                g(d + 1)
        f.text = text
        return f

    def block(self, paragraphs):
        """A description in paragraphs."""
        def f(d):
            for l in paragraphs:
                self.blank()
                self.line(l, d)
            self.blank()
        return f

    def under(self, title, fs):
        return self.bulleted(title, fs)

    def array(self, d, top=False, implied=False):
        r = self.r
        of = r.choice([None, "string", "number", "boolean", "ref"])
        if of == "ref":
            of = self.ref()
        if self.rich == "more" and self.chance(.1):       # of types that have a value without being given one
            kinds = [r.choice(["object", "array"]) for _ in range(r.randint(1, 3))]
            if self.chance(.5):
                return None, "array[%s]" % ", ".join(kinds), [], node("array", c=[node(x) for x in kinds])
            its = [(self.bulleted("(%s)" % x), node(x)) for x in kinds] + [self.item(None, d)]
            r.shuffle(its)
            return None, "array", [f for f, _ in its], node("array", c=[x for _, x in its])
        primitive = of in ("string", "number", "boolean")
        t = "array[%s]" % (of if primitive else self.named_as(of)) if of else "array"
        k = r.randrange(3) if of is None or primitive else 2
        items = [node(of)] if of else []
        if of and not primitive and self.chance(.2):       # several types
            more = [self.prim() for _ in range(r.randint(1, 2))]
            t = t[:-1] + "".join(", " + x for x in more) + "]"
            items += [node(x) for x in more]
        w, inline = [], None
        if k == 0 and not top:      # in line
            vs = [self.literal(of or "string") for _ in range(r.randint(1, 4))]
            inline = ", ".join(x if "," not in x or x[0] == "`" else "`%s`" % x for x, _ in vs)
            items = [node(of or "string", c=x) for _, x in vs]
            if self.rich == "keys" and t and self.chance(.15):      # some are only examples
                eg = [a[0] != "`" and "," not in a and self.chance(.5) for a, _ in vs]
                inline = ", ".join("*%s*" % a if e else a if "," not in a or a[0] == "`" else "`%s`" % a for e, (a, _) in zip(eg, vs))
                items = [node(x["e"], samples=[x]) if e else x for e, x in zip(eg, items)]
                return inline, t, [], node("array", c=items)
            if self.rich == "keys" and primitive and self.chance(.15):      # of several types: strings, as the parser has it
                vs = [self.words() for _ in range(r.randint(1, 3))]
                types = [of] + [self.prim() for _ in range(r.randint(1, 2))]
                return ", ".join(vs), "array[%s]" % ", ".join(types), [], node("array", c=[node(x) for x in types] + [node("string", c=x) for x in vs])
            if implied and len(vs) > 1 and of is None and self.chance(.4):     # several values make an array
                t = ""
            if of is None and self.chance(.3):      # and more of them
                k = 1
            elif self.rich and t and self.chance(.2):
                x = node("array", c=items)
                if self.chance(.5):
                    return inline, t + ", default", [], node("array", default=x)
                return inline, t + ", sample", [], node("array", samples=[x])
            elif t or self.chance(.5):
                return inline, t, [], node("array", c=items)
        if k == 1:
            its = [self.item(of, d) for _ in range(r.randint(1, 4))]
            x = self.ref("array") if self.rich and self.chance(.15) else None
            if x:       # its items, too
                its.insert(r.randint(0, len(its)), (self.bulleted("Include " + x), node("ref", c=x)))
            items += [n for _, n in its]
            w = [f for f, _ in its]

        def one(title):
            vs = [self.literal(of or "string") for _ in range(r.randint(1, 3))]
            n = node("array", c=[node(of or "string", c=x) for _, x in vs])
            if self.chance(.5):
                return self.bulleted("%s: %s" % (title, ", ".join(x for x, _ in vs))), n
            return self.under(title, [self.bulleted(x) for x, _ in vs]), n
        s, dflt, samples = self.sections(one) if not top and (of is None or primitive) else ([], None, [])
        if w and not top and (s or self.chance(.3)):
            w = [self.under("Items", w)]
        return inline, t, w + s, node("array", c=items, default=dflt, samples=samples)

    def object(self, d, kind=None):
        r = self.r
        kind = kind or r.choice(["object", "object", None])
        ms = [self.member(d) for _ in range(r.randint(1, 4))]
        w = [f for f, _ in ms]
        c = [n for _, n in ms]
        if d > 0 and self.chance(.15):
            n = self.ref("object")
            if n:
                at = r.randint(0, len(w))
                w.insert(at, self.bulleted("Include %s" % n))
                c.insert(at, node("ref", c=n))
        if d > 0 and self.chance(.12):
            f, n = self.oneof(d - 1)
            w.append(f)
            c.append(n)

        def one(title):
            ms = [self.flat() for _ in range(r.randint(1, 2))]
            return self.under(title, [f for f, _ in ms]), node("object", c=[n for _, n in ms])
        s, dflt, samples = self.sections(one) if kind else ([], None, [])
        if s or self.chance(.2) and kind:
            w = [self.under("Properties", w)]
        return None, kind or "", w + s, node("object", c=c, default=dflt, samples=samples)

    def flat(self):
        """A member whose value is a literal."""
        p = self.prim()
        t, x = self.literal(p)
        k = self.w()
        return self.bulleted("%s: %s (%s)" % (k, t, p)), node("member", key=node("string", c=k), val=node(p, c=x))

    def oneof(self, d):
        w, c = [], []
        for _ in range(self.r.randint(1, 3)):
            if self.chance(.3):
                ms = [self.member(0) for _ in range(self.r.randint(1, 3))]
                w.append(self.under("Properties", [f for f, _ in ms]))
                c.append(node("option", c=[n for _, n in ms]))
            else:
                f, n = self.member(d)
                w.append(f)
                c.append(node("option", c=[n]))
        return self.under("One Of", w), node("select", c=c)

    def enum(self, top=False):
        r = self.r
        of = r.choice([None, "string", "number"])
        of_ = of or "string"
        t = "enum[%s]" % of if of else "enum"
        vs = [self.literal(of_) for _ in range(r.randint(1, 4))]
        while len(set(str(x) for _, x in vs)) != len(vs):
            vs.pop()
        enums, w = [], []
        for x, v in vs:
            desc = self.words() if self.chance(.2) else None
            w.append(self.bulleted(x + (" - " + desc if desc else "")))
            enums.append(node(of_, c=v, attrs=FIXED, desc=desc))
        others = []
        def one(title):
            x, v = r.choice(vs)
            if self.rich and self.chance(.3):       # one that is not listed
                x, v = self.literal(of_)
                if str(v) not in [str(y) for _, y in vs + [o for _, o in others]]:
                    others.append((title, (x, v)))
                elif v not in [y for _, y in vs]:
                    x, v = vs[0]
            return self.bulleted("%s: %s" % (title, x)), node("enum", c=[node(of_, c=v, attrs=FIXED)])
        s, dflt, samples = self.sections(one) if not top else ([], None, [])
        for title in "Sample", "Default":       # counts all the same
            enums += [node(of_, c=v, attrs=FIXED) for t_, (_, v) in others if t_ == title]
        v, c = None, None
        if len(vs) == 1:        # what else could it be
            c = enums[:1]
        elif self.chance(.25) and not top:
            x, y = r.choice(vs)
            v, c = x, [node(of_, c=y, attrs=FIXED)]
            if self.rich and not s and x[0] != "`" and self.chance(.4):     # only an example
                v, c, samples = "*%s*" % x, None, [node("enum", c=c)]
        if of and v is None:    # what it holds
            enums.append(node(of))
        if not top and (s or self.chance(.25)):
            w = [self.under("Members", w)]
        return v, t, w + s, node("enum", c=c, enums=enums, default=dflt, samples=samples)

    def key(self):
        k = self.r.randrange(10)
        if k == 0:
            v = self.r.choice(["%s:%s", "%s (%s)", "%s - %s", "%s, %s", "[%s]{%s}"]) % (self.w(), self.w())
            return "`%s`" % v, v
        if k == 1:
            v = self.r.choice(["%s.%s", "%s %s", "%s/%s", "$%s#%s", "%s_%s", "@%s=%s"]) % (self.w(), self.w())
            return v, v
        v = self.w()
        return ("`%s`" % v if k == 2 else v), v

    def member(self, d):
        """A property: (write, node)."""
        r = self.r
        kt, key = self.key()
        v, t, w, n = self.typed(d)
        w = list(w or [])
        use = r.choice(["required", "optional", None, None, None])
        fix = r.choice(["fixed", "fixed-type"] + [None] * 6) if use != "optional" else None
        attrs = [x for x in (use, fix, r.choice(["nullable"] + [None] * 5)) if x]
        r.shuffle(attrs)
        text = kt
        kn, var = node("string", c=key), None
        if self.rich in ("keys", "more") and kt[0] != "`" and self.chance(.1):
            x = self.ref("string") if self.chance(.4) else None
            text, var = ("*%s (%s)*" % (kt, x) if x else "*%s*" % kt), True
            kn["e"] = x or "string"
        if v is not None:
            text += ": " + v
        traits = ([t] if t else []) + attrs
        if traits:
            text += " (%s)" % ", ".join(traits)
        desc = self.words() if self.chance(.25) else None
        if desc:
            text += " - " + desc
        if self.rich and self.chance(.15) and all(re.match("(Properties|Items|Members)$|(Sample|Default)(:|$)", getattr(f, "text", "")) for f in w):
            ls = [self.words(2, 5) for _ in range(r.randint(1, 2))]
            desc = "\n\n".join(([desc] if desc else []) + ls)
            w.insert(0, self.block(ls))
        return self.bulleted(text, w), node("member", key=kn, val=n, var=var, desc=desc, attrs=sorted("fixedType" if x == "fixed-type" else x for x in attrs))

    def use(self):
        """Attributes of a payload: ((what follows the word, writers of what is nested), node)."""
        k = self.r.randrange(10)
        n = self.ref()
        if k < 5 and n:
            return (" (%s)" % self.named_as(n), []), node(n)
        if k < 6:
            v, t, w, n = self.array(1, True)
        elif k < 7:
            v, t, w, n = self.enum(True)
        else:
            ms = [self.member(2) for _ in range(self.r.randint(1, 4))]
            t, w, n = self.r.choice(["", "object"]), [f for f, _ in ms], node("object", c=[x for _, x in ms])
        attrs = self.r.choice([[]] * 6 + [["nullable"], ["fixed"], ["fixed-type"]])
        if attrs:
            t = ", ".join(([t] if t else []) + attrs)
            n = dict(n, attrs=["fixedType" if x == "fixed-type" else x for x in attrs])
        return (" (%s)" % t if t else "", w), n

    # -- named types
    def named(self, name, kind):
        """Writes the definition of a type; returns what it is read as."""
        r = self.r
        attrs = []
        desc = None
        parts = []

        def block(fs, section):
            if desc or section and self.chance(.2):
                self.line("### " + self.spelled(section))
                self.blank()
            for f in fs:
                f(0)
            self.blank()
        if kind == "object":
            base = self.ref("object") if self.chance(.35) else None
            n = node("object")
            self.line("## %s%s" % (self.tick(name), " (%s)" % self.named_as(base) if base else r.choice(["", " (object)"])))
            self.blank()
            desc = self.about()
            n = dict(n)
            if base:
                n["e"] = base
            ms = [self.member(2) for _ in range(r.randint(1, 4))]
            f, c = [x for x, _ in ms], [x for _, x in ms]
            if self.chance(.2):
                b = self.ref("object")
                if b:
                    f.append(self.bulleted("Include " + b))
                    c.append(node("ref", c=b))
            if self.chance(.2):
                x, y = self.oneof(1)
                f.append(x)
                c.append(y)
            n["c"] = c
            block(f, "Properties")
        elif kind in ("array", "enum"):
            base = self.ref(kind) if self.rich and self.chance(.3) else None
            if base in self.without and self.rich != "keys":    # known: what is added to nothing is lost (C36)
                base = None
            if base:
                its = [self.item("string", 0) for _ in range(r.randint(0, 3))] if kind == "array" else []
                n = node(base, c=[x for _, x in its])
                x = self.ref("array") if kind == "array" and self.chance(.15) else None
                if x:
                    its.append((self.bulleted("Include " + x), node("ref", c=x)))
                    n = node(base, c=[x for _, x in its])
                w, t = [f for f, _ in its], self.named_as(base)
                if kind == "enum" and self.chance(.6):
                    x, v = self.literal("string")
                    y = node("string", c=v, attrs=FIXED)
                    w, n = [self.bulleted(x)], node(base, c=[y], enums=[y])
            else:
                v, t, w, n = self.array(1, True) if kind == "array" else self.enum(True)
                if kind == "array" and not n.get("c"):
                    self.without.add(name)
            self.line("## %s (%s)" % (self.tick(name), t))
            self.blank()
            desc = self.about()
            if w:
                block(w, "Items" if kind == "array" else "Members")
            if self.rich and kind == "array" and (w or desc):
                n = dict(n)
                for title in ["Sample"] * r.choice([0, 0, 0, 1, 2]) + ["Default"] * self.chance(.2):
                    vs = [self.literal("string") for _ in range(r.randint(1, 3))]
                    if base or "number" in t or "boolean" in t:
                        break
                    x = node("array", c=[node("string", c=v) for _, v in vs])
                    self.line("### " + self.spelled(title))
                    self.blank()
                    for u, _ in vs:
                        self.bulleted(u)(0)
                    self.blank()
                    if title == "Sample":
                        n.setdefault("samples", []).append(x)
                    else:
                        n["default"] = x
        else:
            base = self.ref(kind) if self.rich and self.chance(.3) else None
            n = node(base or kind)
            self.line("## %s (%s)" % (self.tick(name), self.named_as(base) if base else kind))
            self.blank()
            desc = self.about()
            for title in ["Sample"] * self.chance(.3) + ["Default"] * self.chance(.3):
                t, x = self.literal(kind)
                while t[0] == "`":
                    t, x = self.literal(kind)
                self.line("### " + self.spelled(title))
                self.line(t)
                self.blank()
                n = dict(n)
                if title == "Sample":
                    n["samples"] = [node(kind, c=x)]
                else:
                    n["default"] = node(kind, c=x)
        n = dict(n, id=name)
        if desc:
            n["desc"] = desc
        return n

    def tick(self, name):
        return "`%s`" % name if self.chance(.1) else name

    def about(self):
        if not self.chance(.3):
            return None
        ls = [self.words(2, 4) for _ in range(self.r.randint(1, 2))]
        for l in ls:
            self.line(l)
            self.blank()
        return "\n\n".join(ls)

    def structures(self):
        """A description of data structures: (text, [what each type is read as])."""
        r = self.r
        names = [(self.a().capitalize(), r.choice(["object", "object", "object", "string", "number", "boolean", "array", "enum"])) for _ in range(r.randint(1, 6))]
        made = []
        for name, kind in names:    # each may refer to those made before it
            mark = len(self.out)
            n = self.named(name, kind)
            made.append((self.out[mark:], n))
            del self.out[mark:]
            self.refs.append((name, kind))
        if self.chance(.5):
            r.shuffle(made)
        self.line("# " + self.words())
        self.blank()
        self.line("# " + r.choice(["Data Structures"] * 9 + ["Data Structure", "data  structures"]))
        self.blank()
        for ls, n in made:
            self.out += ls
        while not self.out[-1]:
            self.out.pop()
        return "\n".join(self.out) + "\n", [n for _, n in made]


# ------------------------------------------------------------------ what was read
def read_type(e):
    k = e["element"]
    meta, at = e.get("meta") or {}, e.get("attributes") or {}
    extra = set(meta) - {"id", "description"} | set(at) - {"typeAttributes", "default", "samples", "enumerations", "sourceMap", "variable", "path"}
    if extra:
        raise gen.Unread("%s of %s" % (sorted(extra), k))

    def inner(x):
        # a default or sample is an element of the kind, or of the literal alone
        return read_type(x)
    n = node(k, id=apie.content(meta.get("id")), desc=apie.content(meta.get("description")),
             attrs=sorted(x["content"] for x in (apie.content(at.get("typeAttributes")) or [])), var=apie.content(at.get("variable")),
             default=inner(at["default"]) if "default" in at else None,
             samples=[inner(x) for x in at["samples"]["content"]] if "samples" in at else None,
             enums=[read_type(x) for x in at["enumerations"]["content"]] if "enumerations" in at else None)
    c = e.get("content")
    if k == "member":
        n["key"], n["val"] = read_type(c["key"]), read_type(c["value"])
    elif apie.el(c):
        n["c"] = [read_type(c)]
    elif isinstance(c, list):
        if c:
            n["c"] = [read_type(x) for x in c]
    elif c is not None:
        n["c"] = float(c) if k == "number" else c.rstrip("\n") if k == "string" else c
    return n


def read_structures(doc):
    """The named types of a document, in order."""
    try:
        out = []
        for a in apie.only(doc, "category"):
            for g in apie.only(a, "category", "dataStructures"):
                for x in g["content"]:
                    if x["element"] == "copy":
                        continue
                    out.append(read_type(x["content"]))
        return out
    except (KeyError, TypeError, IndexError, ValueError, AttributeError) as e:
        raise gen.Unread("not of the expected form: %r" % e)
