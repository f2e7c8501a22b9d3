import random, re
import apie, common, gen, pipe, pipeline
from pipeline import n, bad

FORMAT, REDEFINED, IGNORING, EMPTY, LOGICAL, URI = 3, 4, 5, 6, 8, 12
UNSUPPORTED = {".": "label", "/": "path segment", ";": "path segment parameter", "=": "reserved", ",": "reserved", "!": "reserved", "@": "reserved", "|": "reserved"}
LITERAL_BAD = [' ', '"', "'", "<", ">", "\\q", "^", "`", "|", "}", "[", "]", "~", "%zz", "%2q", "%q"]
VARIABLE_BAD = ["-", "$", "(", "+", "=", "/", "~", "!", "@", "'", "ö", "ж", "\U0001f600", "{", "..", "...", "%zz", " "]


class Uris(gen.Gen):
    """Resources whose URI templates and parameters may be wrong, and what is to be said of them."""
    def text(self):
        return self.r.choice(["", "", "-", ".", "_", "%C3%A9", "!", "$", ":", "(x)", "é", "ж", "漢", "\U0001f600", ",", ";", "=", "&", "*", "@", "+", "#"]) + self.a()

    def literal(self):
        """Text between expressions; wrong with the first character that is not allowed."""
        s, first = self.text(), None
        if self.chance(self.wrong / 2):
            for _ in range(self.r.choice([1, 1, 2])):
                c = self.r.choice(LITERAL_BAD)
                first = first or c
                s += c + self.text()
        return s, first

    def variables(self, last):
        """What is within an expression: text, names, the names that are wrong."""
        out, names, broken = [], [], []
        for _ in range(self.r.choice([1, 1, 1, 2, 3])):
            v = self.variable()
            if self.chance(.15):
                v += "." + self.a()
            if self.chance(self.wrong / 2):
                c = self.r.choice(VARIABLE_BAD)
                k = self.r.randrange(3)
                v = c + v if k == 0 and c[0] not in "+=/!@." else v + c + (self.a() if k == 1 else "z")
                broken.append((v, c))
                out.append(v)
                continue
            names.append(v)
            out.append(v + self.r.choice(["", "", "", "*", ":3", ":12", ":999"]))
        return ",".join(out), names, broken

    def template(self):
        """Returns (text, names)."""
        r = self.r
        self.wrong = r.choice([0, 0, .3, .6])
        t, names, said = "/", [], []
        run, first = "", None
        for i in range(r.randint(1, 4)):
            if r.random() < .5:
                s, c = self.literal()
                t += s + "/"
                first = first or c
                continue
            if first:
                said.append(self.disallowed(first))
            first = None
            op = r.choice(["", "", "", "+", "#", "?", "&"])
            if self.chance(self.wrong / 3):
                op = r.choice(list(UNSUPPORTED))
                said.append([URI, [UNSUPPORTED[op], "not supported"], None, None])
            text, ns, broken = self.variables(False)
            t += "{" + op + text + "}"
            names += ns
            for v, c in broken:
                said.append([URI, ["variable '%s'" % v, "invalid", "brace" if c == "{" else "continuous dots" if ".." in c else c[0]], None, None])
            if self.chance(.5):
                s, first = self.literal()
                t += s
        if first:
            said.append(self.disallowed(first))
        if self.chance(self.wrong / 4) and not t.endswith(" "):
            text, ns, broken = self.variables(True)
            if not broken:
                t += "{" + text
                names += ns
                said.append([URI, ["closing bracket"], None, None])
        t = t.rstrip("#").rstrip() if t[-1] in " #" else t
        self.said += said
        self.templates += 1
        self.bad_templates += bool(said)
        return t, names

    def disallowed(self, c):
        return [URI, ["disallowed", c[0]], None, None]

    def say(self, code, says, lo=None, hi=None):
        self.said.append([code, says, lo, hi])

    def heading(self, text):
        """Writes a heading, where what has been said of its template is found."""
        at = len(self.out)
        self.line(text)
        self.blank()
        for x in self.said:
            if x[2] is None:
                x[2:] = at, at + 1
        return at, at + 1

    # -- parameters
    MALFORMED = ["(%s)", "%s %s", "%s:", "%s =", "%s (string", "%s (string) = %s", "%s (string) %s", "%s (string): %s", "/%s", "%s: `%s` %s (string"]

    def malformed(self, depth):
        """An item that defines no parameter."""
        at = len(self.out)
        t = self.r.choice(self.MALFORMED[:9])
        self.line("%s %s" % (self.bullet, t % tuple(self.a() for _ in range(t.count("%s")))), depth)
        self.say(IGNORING, ["ignoring unrecognized block"], at, at + 1)

    def parameters(self, names, depth, head):
        r, b = self.r, self.bullet
        if self.chance(.08):
            at = len(self.out)
            self.line("%s Parameters" % b, depth)
            for _ in range(r.choice([0, 1, 2])):
                self.malformed(depth + 1)
            self.blank()
            self.say(FORMAT, ["no parameters specified, expected a nested list of parameters, one parameter per list item"], at, len(self.out))
            return None
        if not self.chance(.8):
            return None
        known = list(dict.fromkeys(names))
        todo = [(x, True) for x in known if self.chance(.8)]
        for _ in range(r.choice([0, 0, 1, 2])):
            todo.append((self.a() + r.choice(["", "_", "%20", ".z"]), False))
        if known and self.chance(.2):    # near misses
            x = r.choice(known)
            todo.append((r.choice([x + "a", x[:-1], x.upper(), x + "*"[:0] + "_"]), None))
        r.shuffle(todo)
        if todo and self.chance(.25):
            todo.insert(r.randrange(len(todo) + 1), r.choice(todo))
        if not todo:
            return None
        block = len(self.out)
        self.line("%s Parameters" % b, depth)
        if self.chance(.06):
            for _ in range(r.choice([1, 1, 2])):
                self.line(self.words(), depth + 1)
            self.say(IGNORING, ["ignoring additional content after 'parameters' keyword"], block, len(self.out))
        out = []
        for name, _ in todo:
            if self.chance(.05):
                self.malformed(depth + 1)
            at = len(self.out)
            v = self.parameter(name, depth + 1)
            for x in out:
                if x["name"] == name:
                    out.remove(x)
                    self.say(REDEFINED, ["overshadowing previous parameter '%s'" % name], at, len(self.out))
                    break
            out.append(v)
        self.blank()
        for v in out:
            if v["name"] not in names:
                self.say(LOGICAL, ["parameter '%s'" % v["name"], "not found within the URI template"], *(head or (block, len(self.out))))
        return out

    def parameter(self, name, depth):
        r, b, at = self.r, self.bullet, len(self.out)
        v = {"name": name, "required": True, "title": None, "description": None, "value": None, "default": None, "members": None}
        old = self.chance(.4)
        use = r.choice([None, "required", "optional", "optional"])
        v["required"] = use != "optional"
        v["title"] = r.choice([None, "string", "number"])
        traits = [x for x in (use, v["title"]) if x]
        members = None
        if self.chance(.3):
            members = [self.a() for _ in range(r.randint(1, 4))]
        pick = lambda: r.choice(members) if members and self.chance(.6) else self.a()
        line = name
        if old:
            if self.chance(.35):
                v["default"] = pick()
                line += " = `%s`" % v["default"]
            if self.chance(.5) or not v["default"] and not members:
                v["value"] = pick()
                traits.append("`%s`" % v["value"])
            if self.chance(.12):
                traits += [["boolean", "array"], ["integer"]][bool(v["title"])] if v["title"] else ["boolean", "array"]
                self.say(FORMAT, ["parameter traits"], at)
                v.update(title=None, required=True, value=None)
                use = None
            if traits:
                line += " (%s)" % ", ".join(traits)
            if self.chance(.5):
                v["description"] = self.words()
                line += " ... " + v["description"]
            self.line("%s %s" % (b, line), depth)
            if members:
                for _ in range(2 if self.chance(.2) else 1):
                    if v["members"]:
                        self.say(REDEFINED, ["'values'", "parameter '%s'" % name], at)
                    self.line("%s Values" % b, depth + 1)
                    v["members"] = []
                    for m in members:
                        if self.chance(.1):
                            self.line("%s %s" % (b, m), depth + 2)
                            self.say(IGNORING, ["'%s'" % m], at)
                        else:
                            self.line("%s `%s`" % (b, m), depth + 2)
                            v["members"].append(m)
                    if not v["members"]:
                        self.say(EMPTY, ["no possible values", "parameter '%s'" % name], at)
        else:
            if members:
                v["title"] = v["title"] or "string"
                traits = ["enum[%s]" % v["title"]] + ([use] if use else [])
            if self.chance(.5):
                v["value"] = pick()
                line += ": " + v["value"]
            if self.chance(.12):
                traits += ["boolean", "array"]
                self.say(FORMAT, ["parameter traits"], at)
                v.update(title=None, required=True)
                use = None
            if traits:
                line += " (%s)" % ", ".join(traits)
            if self.chance(.5):
                v["description"] = self.words()
                line += " - " + v["description"]
            self.line("%s %s" % (b, line), depth)
            if self.chance(.3):
                v["default"] = pick()
                self.line("%s Default: %s" % (b, v["default"]), depth + 1)
            if members:
                v["members"] = list(members)
                self.line("%s Members" % b, depth + 1)
                for m in members:
                    self.line("%s %s" % (b, m), depth + 2)
        if v["default"] and use != "optional":
            self.say(LOGICAL, ["parameter '%s' as required" % name, "default"], at)
        if v["members"]:
            missing = ["the %s value '%s' of parameter '%s' is not in" % (k, x, name) for k, x in (("example", v["value"]), ("default", v["default"])) if x and x not in v["members"]]
            if missing:
                self.say(LOGICAL, missing, at)
        v["members"] = v["members"] or None
        for x in self.said:
            if x[3] is None:
                x[3] = len(self.out)
        self.described += 1
        return v

    def document(self):
        r = self.r
        self.said, self.templates, self.bad_templates, self.described = [], 0, 0, 0
        self.line("# " + self.words())
        self.blank()
        got = []
        for _ in range(r.randint(1, 3)):
            t, names = self.template()
            x = {"href": t, "vars": None, "transitions": []}
            got.append(x)
            if self.chance(.3):
                at = self.heading("## GET " + t)
                x["transitions"].append({"href": None, "vars": self.parameters(names, 0, at)})
                self.response(at)
                continue
            self.heading("## %s [%s]" % (self.words(), t) if self.chance(.6) else "## " + t)
            x["vars"] = self.parameters(names, 0, None)
            for m in r.sample(gen.METHODS, r.choice([0, 1, 2])):
                a = {"href": None, "vars": None}
                ns = names
                if self.chance(.3):
                    at = self.heading("### %s [%s %s]" % (self.words(), m, self.own(a)))
                    ns = a.pop("names")
                else:
                    at = self.heading("### " + m)
                a["vars"] = self.parameters(ns, 0, at)
                self.response(at)
                x["transitions"].append(a)
        return "\n".join(self.out) + "\n", got

    def response(self, at):
        if self.chance(.12):
            self.say(EMPTY, ["action is missing a response"], *at)
        else:
            self.line("+ Response 204")
            self.blank()

    def own(self, a):
        """An action's own template, which is not itself examined."""
        wrong, said = self.wrong, self.said
        a["href"], a["names"] = gen.Gen.template(self)
        return a["href"]


def read(doc):
    api = apie.only(doc, "category")
    out = []
    for e in api[0]["content"] if api else []:
        if e["element"] != "resource":
            continue
        x = {"href": gen._val(apie.attr(e, "href")), "vars": gen.read_vars(e), "transitions": []}
        for t in apie.only(e, "transition"):
            x["transitions"].append({"href": gen._val(apie.attr(t, "href")), "vars": gen.read_vars(t)})
        out.append(x)
    return out


def judge(ck, case, r, doc):
    want, said = case[2][:2]
    got = read(doc)
    m = pipeline.diff(got, want)
    if m:
        bad(ck, "differs:" + re.sub(r"\d+", "N", m.split(":")[0]), case, m)
    src = case[1].decode()
    at = [0]
    for l in src.split("\n"):
        at.append(at[-1] + len(l) + 1)
    blank = [not l for l in src.split("\n")]
    left = []
    todo = list(said)
    for a in apie.annotations(doc):
        code, text = apie.content(apie.attr(a, "code")), a["content"]
        places = [tuple(y["content"] for y in x["content"]) for s in apie.attr(a, "sourceMap")["content"] for x in s["content"]]
        some = [x for x in todo if x[0] == code and "warning" in apie.classes(a) and all(s in text for s in x[1])]
        if not some:
            left.append((code, text))
            continue

        def inside(x):
            lo, hi = x[2:]
            while hi < len(blank) and blank[hi]:     # places take the blank lines after them in
                hi += 1
            return places and all(at[lo] <= p and l > 0 and p + l <= at[min(hi, len(at) - 1)] for p, l in places)
        here = [x for x in some if inside(x)]
        if not here:
            bad(ck, "place:%s" % code, case, "%r is at %s, %r, instead of lines %s" % (text, places, [src[p:p + l] for p, l in places], [x[2:] for x in some]))
        todo.remove((here or some)[0])
        ck.saw("annotations_%d" % code)
    for x in left:
        bad(ck, "said:%s" % x[0], case, "%s (not said: %s)" % (x, todo))
    if not left:
        for x in todo:
            bad(ck, "not-said:%s" % x[0], case, "nothing about %s" % x[1])
    if r.rc:
        bad(ck, "code", case, "code %d" % r.rc)


def main():
    ck = common.Check("C13")
    ck.rule = ("resources are generated whose URI templates and parameters are right or wrong in known ways; every template and parameter must be read as written, and the "
               "annotations must be those that the faults call for, no more and no fewer; distinct: outputs")
    ck.assumptions = pipeline.ASSUMED + ["an action's own template is read but not examined by the parser, and only right ones are generated there"]

    def cases():
        for i in range(n(1500, 60000)):
            g = Uris("c13-%d/%d" % (common.SEED, i))
            t, want = g.document()
            yield "uris-%d" % i, t.encode(), (want, g.said, g.templates, g.bad_templates, g.described)

    def oracle(case, r):
        ck.mark(hash(r.jsonsm))
        ck.saw("templates", case[2][2])
        ck.saw("wrong_templates", case[2][3])
        ck.saw("parameters", case[2][4])
        try:
            judge(ck, case, r, apie.read(r.jsonsm))
        except (gen.Unread, apie.Malformed) as e:
            bad(ck, "unread", case, str(e))
    pipe.Pool(ck).run(cases(), pipe.JSON_SM, oracle)
    ck.require(templates=1500, wrong_templates=300, parameters=2000, annotations_12=300, annotations_8=300, annotations_4=100, annotations_5=10, annotations_3=50)
    ck.finish()
