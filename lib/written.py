"""Documents for the checks that take any: from every generator of the checks that know what a document says,
and unruly ones, put together from constructs right and wrong without regard to what they mean."""
import random
import corpus

KINDS = ("api", "types", "attributes", "named", "uris", "wrong", "flawed", "soup", "soup", "mutant")


def documents(n, seed):
    """n deterministic (name, bytes), valid UTF-8 but for mutants."""
    kept = []
    for i in range(n):
        r = random.Random("written/%s/%s" % (seed, i))
        kind = KINDS[i % len(KINDS)]
        if kind == "mutant":
            name, b = next(corpus.mutants(1, "written/%s/%s" % (seed, i), kept[-9:]))
            yield "%s %d" % (name, i), b
            continue
        d = ("written-%s-%d" % (kind, i), one(r, kind, "%s/%s" % (seed, i)).encode())
        kept.append(d)
        yield d


def one(r, kind, seed):
    import gen, mson
    letters = r.choice(["ascii", "ascii", "two", "three", "four"])
    if kind == "api":
        return gen.Gen(seed, letters).api()[0]
    if kind == "types":
        return mson.Mson(seed, letters).structures()[0]
    if kind == "attributes":
        import c10
        return c10.document(seed)[0]
    if kind == "named":
        import c11
        # (dozens of types that include each other take long to write out)
        return next(d for d in (c11.Types("%s.%d" % (seed, k)).document()[0] for k in range(99)) if len(d) < 2500)
    if kind == "uris":
        import c13
        return c13.Uris(seed).document()[0]
    if kind == "wrong":
        import c14
        return c14.Wrong(seed, alphabet=letters).document()
    if kind == "flawed":
        import c15
        return c15.Flawed(seed, letters).structures()[0]
    return Soup(r).document()


class Soup:
    """Any construct anywhere."""
    def __init__(self, r):
        self.r = r
        self.names = r.sample(["A", "B", "C", "D e", "\u00c9t\u00e9", "F-g", "H_i", "\U0001f600", "`J k`", "L.m", "a", "id"], r.randint(2, 6))
        self.wild = r.random() < .3     # whatever ends a document in error is then as likely as the rest
        if r.random() < .15:
            # (not those of the elements of a description, such as "asset": a type of such a name yields elements that cannot be told from them)
            self.names.append(r.choice(["ref", "select", "option", "extend", "null", "generic", "member", "Object", "String", "*", "element"]))

    def name(self):
        return self.r.choice(self.names)

    def pick(self, *x):
        return self.r.choice(x)

    def type(self, d=2):
        r = self.r
        k = r.randrange(12)
        if k < 4:
            return self.pick("string", "number", "boolean", "object", "array", "enum")
        if k < 7:
            return self.name()
        if k < 9 and d:
            return self.pick("array", "enum", "array", "object", self.name()) + "[" + ", ".join(self.type(d - 1) for _ in range(r.choice([1, 1, 2, 3]))) + self.pick("]", "]", "]", "]", " ]", "")
        if k == 9:
            n = self.name()
            return "[%s](#%s)" % (n, n.lower())
        if k == 10:
            return self.pick("*%s*" % self.name(), "_%s_" % self.name(), "`%s`" % self.name(), "")
        return self.pick("Missing", "STRING", "integer", "date", "Array", "a b") if self.wild or r.random() < .05 else self.pick("string", self.name())

    def attrs(self):
        r = self.r
        if r.random() < .3:
            return ""
        x = [self.type()] if r.random() < .8 else []
        x += r.sample(["required", "optional", "fixed", "fixed-type", "nullable", "sample", "default", "other"], r.choice([0, 0, 0, 1, 1, 2, 3]))
        if r.random() < .1:
            r.shuffle(x)
        return " (" + ", ".join(x) + self.pick(")", ")", ")", ")", ")", ")", ")", "", "))")

    def value(self):
        r = self.r
        v = lambda: self.pick("1", "-2.5", "1e3", "007", "true", "false", "null", "a", "a b", "`x, y`", "*v*", "*", "\u00e9", "\"q\"", "<b>", "&amp;", "a - b", "a: b", "(p)", "[l](u)", "\\", "`",
                              "1.0", "0", "-0", "9007199254740993", "1e400", "99999999999999999999", ".5", "True", "yes", "~", "", "\u2028", "''", "x" * r.choice([1, 40]))
        return ", ".join(v() for _ in range(r.choice([1, 1, 1, 1, 2, 3])))

    def key(self):
        r = self.r
        k = r.randrange(14)
        return ("*%s*" % self.name() if k == 0 else "*%s (%s)*" % (self.pick("k", "rel", "self"), self.type(1) if self.wild else "string") if k == 1 else "`k: l`" if k == 2 else "" if k == 3 else
                self.name() if k == 4 else self.pick("k", "l", "m", "id", "name", "x y", "k.l", "\u043a", "1", "true", "a-b", "Items", "k,l"))

    def members(self, depth, left=3):
        r, out = self.r, []
        ind = "    " * depth
        for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
            k = r.randrange(20)
            if k < 11:
                l = "+ " + self.key() + (": " + self.value() if r.random() < .5 else "") + self.attrs() + (" - " + self.pick("desc", "d (e)", "*f*", "") if r.random() < .2 else "")
            elif k < 13:
                l = "+ " + self.value() + self.attrs()
            elif k == 13:
                l = "+ Include " + self.name() + (self.attrs() if r.random() < .1 else "")
            elif k == 14:
                l = "+ One Of"
            elif k == 15 and (depth or self.wild):
                l = "+ " + self.pick("Sample", "Default", "sample") + (": " + self.value() if r.random() < .6 else "") + (self.attrs() if r.random() < .1 else "")
            elif k == 16:
                l = "+ " + (self.pick("Items", "Members", "Properties", "items") if depth or self.wild else "id")
            elif k == 17:
                l = "+" + self.attrs()
            elif k in (15, 18):
                l = self.pick("text", "+", "") if not self.wild and r.random() < .8 else self.pick("text", "", "    code", "> quote", "1. one", "- " + self.key(), "```", "### Sample", "### Default: " + self.value(), "### Properties", "### Items", "<b>", "+", "+ ", "***")
            else:
                l = "+ " + self.key() + "\n\n" + ind + "    " + self.pick("block text", "more\n" + ind + "    lines")
            out.append(ind + l)
            if left and r.random() < .4:
                if r.random() < .3:
                    out.append("")
                out += self.members(depth + 1, left - 1)
        return out

    def payload(self, depth=0):
        r = self.r
        ind = "    " * depth
        media = " (" + self.pick("application/json", "application/json", "text/plain", "application/vnd.a+json; charset=utf-8", "application/xml", "a", "application/schema+json", "multipart/form-data; boundary=\"x y\"") + ")" if r.random() < .7 else ""
        out = [ind + "+ " + self.pick("Response", "Response 200", "Response 204", "Request", "Request R s", "Model", "Response 404", "Response abc", "request", "Response 1000000000000") + media, ""]
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            k = r.randrange(9)
            d = depth + 1
            i1 = "    " * d
            if k == 0:
                out += [i1 + "+ Headers", "", i1 + "        " + self.pick("X-A: b", "X-A b", "A:", "Content-Type: application/json", "\u00e9: x", "Content-Length: 3", ": x"), i1 + "        X-B: c", ""]
            elif k == 1:
                out += [i1 + "+ Body", "", i1 + "        " + self.pick("{}", "hello", "{\"a\": 1}", "[A][]"), ""]
            elif k == 2:
                out += [i1 + "+ Schema", "", i1 + "        {\"type\": \"object\"}", ""]
            elif k < 6:
                out += [i1 + "+ Attributes" + (self.attrs() if r.random() < .6 else "")] + self.members(d + 1) + [""]
            elif k == 6:
                out += [i1 + "[" + self.name() + "][]", ""]
            elif k == 7:
                out += [i1 + self.pick("    body text", "description", "a\n" + i1 + "b"), ""]
            else:
                out += self.parameters(d)
        return out

    def parameters(self, depth=0):
        r = self.r
        ind = "    " * depth
        out = [ind + "+ " + self.pick("Parameters", "Parameters", "Parameter")]
        for _ in range(r.choice([0, 1, 2, 3])):
            out.append(ind + "    + " + self.pick("id", "a", "b", "p%20q", "x.y", "\u00e9") + (": " + self.pick("1", "`a b`", "x") if r.random() < .5 else "") + (self.attrs() if r.random() < .7 else "") + self.pick("", " - text"))
            for _ in range(r.choice([0, 0, 1, 2])):
                out += [ind + "        + " + self.pick("Default: 1", "Members", "Values", "Default", "Sample: 1", "x"), ind + "            + `v`", ind + "            + w"]
        return out + [""]

    def template(self):
        return "/" + "".join(self.pick("a", "{id}", "{?a,b}", "{+a}", "{#b}", "{&a}", "/x", "{a*}", "%20", "%zz", "\u00e9", "{a", "}", "{a-b}", "{}", "{?a}{?b}", "?q=1", " ") for _ in range(self.r.choice([0, 1, 2, 3])))

    def document(self):
        r = self.r
        out = []
        self.defined = False
        if r.random() < .6:
            out += [self.pick("FORMAT: 1A", "FORMAT: 1A9", "HOST: http://a.b/", "X: y", "a:b")] + [""]
        if r.random() < .8:
            out += ["# " + self.pick("API", "\u00c9", "*N*", "N [x]"), ""] + ([self.pick("Some text.", "+ a list", "    code", "> q"), ""] if r.random() < .5 else [])
        for _ in range(r.randint(1, 5)):
            k = r.randrange(10)
            if k < 5:
                out += ["# Data Structures", ""] if self.wild or not self.defined else []
                names = self.names[:]
                r.shuffle(names)
                if self.wild:
                    names = names[:r.randint(1, 5)]
                elif self.defined:
                    continue
                self.defined = True
                for n in names:
                    out += ["## " + n + self.attrs(), ""] + ([self.pick("Text.", "a\nb"), ""] if r.random() < .2 else [])
                    out += self.members(0) + [""]
                    if r.random() < .15:
                        out += ["### " + self.pick("Sample", "Default", "Properties", "Items", "Members", "Sample: 1", "Other"), ""] + self.members(0) + [""]
                continue
            if k == 5:
                out += ["# Group " + self.pick("G", "\u00c9", ""), "", self.pick("", "Text.\n"), ""]
            out += ["## " + self.pick(self.name() + " [" + self.template() + "]", "GET " + self.template(), "[" + self.template() + "]", self.name() + " [POST " + self.template() + "]"), ""]
            for _ in range(r.choice([0, 1, 1, 2])):
                j = r.randrange(4)
                out += self.parameters() if j == 0 else ["+ Attributes" + self.attrs()] + self.members(1) + [""] if j == 1 else self.payload() if j == 2 else ["Text.", ""]
            for _ in range(r.choice([0, 1, 1, 2])):
                out += ["### " + self.pick("GET", "Do [POST]", "Do it [PUT " + self.template() + "]", "[DELETE]", "FOO", "Do [GET]"), ""]
                for _ in range(r.choice([0, 1, 2, 3])):
                    j = r.randrange(9)
                    out += self.parameters() if j == 0 else ["+ Attributes" + self.attrs()] + self.members(1) + [""] if j == 1 else ["+ Relation: " + self.pick("self", "a b", ""), ""] if j == 2 else self.payload()
        return "\n".join(out) + self.pick("\n", "\n", "")
