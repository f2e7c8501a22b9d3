"""API descriptions made together with what they must be read as."""
import random, re

ALPHA = {"ascii": [chr(97 + i) for i in range(16)],
         "two": [chr(0x430 + i) for i in range(16)],
         "three": [chr(0x1208 + 8 * i) for i in range(16)],
         "four": [chr(0x10428 + i) for i in range(16)]}
METHODS = ["GET", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "LINK", "UNLINK", "PROPPATCH", "LOCK", "UNLOCK", "COPY", "MOVE", "MKCOL"]
PLACES = ["name", "copy", "text", "value"]


class Gen:
    def __init__(self, seed, alphabet="ascii", stretch=0):
        """stretch: by how much the very first word of the description is longer."""
        self.r = random.Random(seed)
        self.letters = ALPHA[alphabet]
        self.count = self.r.randrange(256)
        self.stretch = stretch
        self.indent = self.r.choice(["    ", "    ", "    ", "\t"]) if False else "    "
        self.bullet = self.r.choice(["+", "+", "+", "-", "*"])
        self.out = []

    # -- words: unique, one meaning each
    def digits(self):
        self.count += 1
        n, d = self.count, []
        for _ in range(4):
            d.append(n % 16)
            n //= 16
        return [self.r.randrange(16)] + d

    def w(self):
        return "".join(self.letters[i] for i in self.digits()) + "x"

    def a(self):
        return "".join(chr(97 + i) for i in self.digits()) + "y"

    def words(self, lo=1, hi=3):
        return " ".join(self.w() for _ in range(self.r.randint(lo, hi)))

    def line(self, s="", depth=0):
        self.out.append(self.indent * depth + s if s else "")

    def blank(self):
        self.out.append("")

    def chance(self, p):
        return self.r.random() < p

    def kw(self, s):
        """A word of the language in one of the ways to write it."""
        if s in ("Parameters", "Headers", "Attributes") and self.chance(.1):
            s = s[:-1]
        return s[0].lower() + s[1:] if self.chance(.1) else s

    def heading(self, level, text):
        if level < 3 and self.chance(.08):
            self.line(text)
            self.line("=-"[level - 1] * self.r.randint(3, 9))
        else:
            self.line("#" * level + self.r.choice([" "] * 9 + ["  "]) + text + self.r.choice([""] * 9 + [" " + "#" * level]))

    # -- pieces
    def paragraph(self):
        ws = []
        for _ in range(self.r.randint(1, 5)):
            w = self.w()
            k = self.r.randrange(9)
            ws.append("*%s*" % w if k == 0 else "`%s`" % w if k == 1 else "**%s**" % w if k == 2 else "[%s](http://a/)" % w if k == 3 else w)
        return " ".join(ws)

    def copy(self, p=.5, depth=0):
        """A description; returns its text."""
        if not self.chance(p):
            return None
        ps = []
        for _ in range(self.r.choice([1, 1, 2, 3])):
            k = self.r.randrange(18) if depth == 0 else 99
            if k < 6:
                if k == 0:      # a quotation
                    ls = ["> " + self.paragraph() for _ in range(self.r.choice([1, 2]))]
                elif k == 1:    # a list, which is kept with its items apart
                    b = self.r.choice(["- ", "+ ", "* ", "1. "])
                    ls = []
                    for _ in range(self.r.randint(1, 3)):
                        ls += [b + self.words(2, 4), ""]
                    ls.pop()
                elif k == 2:
                    ls = ["***"]
                elif k == 3:    # a heading that means nothing
                    ls = ["#" * self.r.randint(3, 6) + " " + self.words()]
                elif k == 4:
                    ls = ["<div>%s &amp; %s</div>" % (self.w(), self.w())]
                else:           # code
                    ls = ["```" + self.r.choice(["", "js"])] + [self.r.choice(["", "  ", "+ ", "# "]) + self.words() for _ in range(self.r.randint(1, 3))] + ["```"]
                for l in ls:
                    self.line(l)
                self.blank()
                ps.append("\n".join(ls))
                if k == 1:      # so that what follows is not part of the list
                    ls = [self.paragraph()]
                    self.line(ls[0])
                    self.blank()
                    ps.append(ls[0])
                continue
            ls = [self.paragraph() for _ in range(self.r.choice([1, 1, 2]))]
            ps.append("\n".join(ls))
            for l in ls:
                self.line(l, depth)
            self.blank()
        return "\n\n".join(ps)

    def body(self, depth):
        """A block of code; returns its text."""
        ls = []
        for _ in range(self.r.choice([1, 1, 2, 4])):
            k = self.r.randrange(8)
            ls.append('{"%s": %d}' % (self.w(), self.r.randrange(99)) if k == 0 else "  " + self.w() if k == 1 else "<%s/>" % self.w() if k == 2 else
                      "# " + self.w() if k == 3 else "+ " + self.w() if k == 4 else self.words())
        if len(ls) > 2 and self.chance(.4):
            ls[1] = ""
        ls[0] = ls[0].lstrip()
        if self.chance(.3):
            fence = self.r.choice(["```", "```", "~~~", "````"])
            self.line(fence + self.r.choice(["", "", "", "json", " xml"]), depth)
            for l in ls:
                self.line(l, depth)
            self.line(fence, depth)
        else:
            for l in ls:
                self.line(l, depth + 1)
        self.blank()
        return "\n".join(ls) + "\n"

    # -- URI templates and their parameters
    def template(self):
        """Returns (text, names of variables)."""
        r = self.r
        t, names = "", []
        if not getattr(self, "rooted", False) and self.chance(.02):
            self.rooted = True
            t = "/"
        for _ in range(r.randint(1, 3) if not t else 0):
            k = r.randrange(5)
            if k < 3 or (not t and k == 4):
                t += "/" + self.a()
            else:
                n = self.variable()
                names.append(n)
                t += r.choice(["/{%s}", "/{+%s}", "/{%s}", "/{#%s}"]) % n
        if self.chance(.4):
            ns = [self.variable() for _ in range(r.randint(1, 3))]
            names += ns
            t += "{?" + ",".join(n + ("*" if self.chance(.2) else "") for n in ns) + "}"
        return t, names

    def variable(self):
        n = self.a()
        k = self.r.randrange(8)
        return n + "_" + self.a() if k == 0 else n + "%20z" if k == 1 else n + "7" if k == 2 else n

    def parameters(self, names, depth):
        """Some of the variables described; returns what they are read as."""
        r = self.r
        use = [n for n in names if self.chance(.8)]
        if not use or not self.chance(.7):
            return None
        self.line("%s %s" % (self.bullet, self.kw("Parameters")), depth)
        if self.chance(.3):
            self.blank()
        out = []
        for n in use:
            v = {"name": n, "required": True, "title": None, "description": None, "value": None, "default": None, "members": None}
            traits = []
            if self.chance(.6):
                v["title"] = r.choice(["string", "number", "boolean", "array[string]", self.a()])
            members = self.chance(.25)
            if members:
                v["title"] = r.choice(["string", "number"])
                traits.append("enum[%s]" % v["title"])
            elif v["title"]:
                traits.append(v["title"])
            k = r.randrange(4)
            if k == 0:
                traits.append(self.kw("Required") if self.chance(.1) else "required")
            elif k < 3:
                traits.append(self.kw("Optional") if self.chance(.1) else "optional")
                v["required"] = False
            if self.chance(.3):
                traits.reverse()
            sep = r.choice([":", ":", ":"])
            text = n
            if members:
                v["members"] = [self.w() for _ in range(r.randint(1, 4))]
            if self.chance(.5):
                v["value"] = r.choice(v["members"]) if members else self.w() if self.chance(.7) else "%s,%s" % (self.w(), self.w())
                text += "%s %s" % (sep, "`%s`" % v["value"] if self.chance(.4) else v["value"])
            if traits:
                text += " (%s)" % ", ".join(traits)
            d = []
            if self.chance(.5):
                d.append(self.words())
                text += " - " + d[0]
            self.line("%s %s" % (self.bullet, text), depth + 1)
            if d and self.chance(.12):
                more = self.words()
                self.line(more, depth + 2)
                d[0] += "\n" + more
            if d and self.chance(.25):
                more = self.words()
                self.blank()
                self.line(more, depth + 2)
                d.append(more)
            subs = []
            if not v["required"] and self.chance(.3):
                subs.append("default")
            if v["value"] is None and self.chance(.3):
                subs.append("sample")
            if members:
                subs.append("members")
            if subs:
                if len(d) > 1:
                    self.blank()
                r.shuffle(subs)
            for s in subs:
                if s == "default":
                    v["default"] = r.choice(v["members"]) if members else self.w()
                    self.line("%s %s: %s" % (self.bullet, self.kw("Default"), "`%s`" % v["default"] if self.chance(.4) else v["default"]), depth + 2)
                    v["default"] += self.going_on(depth + 3) if not members else ""
                elif s == "sample":
                    v["value"] = r.choice(v["members"]) if members else self.w()
                    self.line("%s %s: %s" % (self.bullet, self.kw("Sample"), v["value"]), depth + 2)
                    v["value"] += self.going_on(depth + 3) if not members else ""
                else:
                    self.line("%s %s" % (self.bullet, self.kw("Members")), depth + 2)
                    for m in v["members"]:
                        self.line("%s %s%s" % (self.bullet, "`%s`" % m if self.chance(.5) else m, " - " + self.words() if self.chance(.1) else ""), depth + 3)
            if d:
                v["description"] = "\n\n".join(d)
            out.append(v)
        self.blank()
        return out

    # -- payloads
    def going_on(self, depth):
        """Further lines of a text."""
        ls = [self.words() for _ in range(self.r.choice([1, 1, 2]))] if self.chance(.15) else []
        for l in ls:
            self.line(l, depth)
        return "".join("\n" + l for l in ls)

    def media(self):
        r = self.r
        t = r.choice(["application/json", "text/plain", "application/hal+json", "image/svg+xml", "application/%s" % self.a(), "application/xml; charset=utf-8",
                      "multipart/form-data; boundary=---B"])
        return t

    def attributes(self, depth):
        """Returns what the data structure is read as."""
        r = self.r
        if self.chance(.25):
            t = r.choice(["string", "number"])
            vs = [self.w() if t == "string" else r.randrange(1000) for _ in range(r.randint(1, 3))]
            self.line("%s %s (array[%s])" % (self.bullet, self.kw("Attributes"), t), depth)
            for v in vs:
                self.line("%s %s" % (self.bullet, v), depth + 1)
            self.blank()
            return ["array", [[t, None]] + [[t, v] for v in vs]]  # what it holds comes first
        self.line("%s %s%s" % (self.bullet, self.kw("Attributes"), r.choice(["", " (object)"])), depth)
        ms = []
        for _ in range(r.randint(1, 4)):
            t = r.choice(["string", "number", "boolean", None])
            v = None if self.chance(.3) else r.randrange(1000) if t == "number" else self.chance(.5) if t == "boolean" else self.w()
            k = self.w()
            txt = k
            if v is not None:
                txt += ": " + ("true" if v is True else "false" if v is False else str(v))
            req = self.chance(.3)
            tr = ([t] if t else []) + (["required"] if req else [])
            if tr:
                txt += " (%s)" % ", ".join(tr)
            desc = self.words() if self.chance(.3) else None
            if desc:
                txt += " - " + desc
            self.line("%s %s" % (self.bullet, txt), depth + 1)
            ms.append([k, t or "string", v, req, desc])
        self.blank()
        return ["object", ms]

    def payload(self, kind, title, depth=0, models=(), statuses=None, named=False):
        """kind: Request, Response or Model. Returns what it is read as."""
        r = self.r
        p = {"title": None, "status": None, "headers": [], "copy": None, "body": None, "schema": None, "attributes": None, "vars": None}
        text = self.kw(kind)
        if isinstance(title, str):
            text = title + " " + text
        if kind == "Request" and (named or self.chance(.5)):
            p["title"] = self.words(1, 2)
            text += " " + p["title"]
        if kind == "Response":
            p["status"] = str(statuses.pop())
            text += " " + p["status"]
        bodiless = p["status"] in ("204", "304")
        mt = None
        if self.chance(.6) and not bodiless:
            mt = self.media()
            text += " (%s)" % mt
            p["headers"].append(["Content-Type", mt])
        self.line("%s %s" % (self.bullet, text), depth)
        if models and not bodiless and self.chance(.4):
            name, m = r.choice(models)
            if mt and "Content-Type" in [h[0] for h in m["headers"]]:
                mt = None  # the model's own has precedence, which is warned about
                p["headers"] = []
                self.line(self.out.pop().rsplit(" (", 1)[0])
            self.blank()
            self.line(r.choice(["[%s][]"] * 9 + ["[ %s ][]"]) % name, depth + 1)
            self.blank()
            for k in ("headers", "attributes", "body", "schema", "copy"):
                p[k] = p[k] + m[k] if k == "headers" else m[k]
            return p
        style = r.randrange(4)
        if style == 0 and not bodiless:                      # the body alone
            self.blank()
            p["body"] = self.body(depth + 1)
            return p
        if style == 1 and kind == "Response":                # nothing
            if self.chance(.5):
                self.blank()
            return p
        parts = []
        if self.chance(.4):
            parts.append("headers")
        if self.chance(.3):
            parts.append("attributes")
        if self.chance(.6) and not bodiless or kind == "Model" and (parts != ["attributes"] or self.chance(.5)):
            parts.append("body")
        if self.chance(.3):
            parts.append("schema")
        if not parts or (kind == "Request" and parts == ["schema"]):
            parts.append("body" if not bodiless else "headers")
        if self.chance(.4):
            self.blank()
            p["copy"] = self.copy(1, depth + 1)
        if kind == "Request" and self.chance(.1):
            parts.insert(r.randint(0, len(parts)), "parameters")
        for x in parts:
            if x == "parameters":
                p["vars"] = self.parameters([self.a() for _ in range(r.randint(1, 3))], depth + 1)
            elif x == "headers":
                self.line("%s %s" % (self.bullet, self.kw("Headers")), depth + 1)
                self.blank()
                own = not mt and not bodiless and self.chance(.15)
                twice = r.choice(["Set-Cookie", "Link"]) if self.chance(.1) else None
                hs = ["Content-Type"] * own + [twice] * 2 * bool(twice) + [None] * r.randint(not own, 3)
                r.shuffle(hs)
                for name in hs:
                    h = [r.choice(["X-", "Accept", "If-", ""]) + self.a().capitalize(), r.choice([self.w(), self.words(), "a=%s; b" % self.w(), '"%s"' % self.w(), "http://x:80/%s" % self.w()])]
                    if name:
                        h = [name, self.media() if name == "Content-Type" else h[1]]
                    p["headers"].append(h)
                    self.line("%s:%s%s" % (h[0], r.choice([" ", "", "  "]), h[1]), depth + 3)
                self.blank()
            elif x == "attributes":
                p["attributes"] = self.attributes(depth + 1)
            else:
                self.line("%s %s" % (self.bullet, self.kw(x.capitalize())), depth + 1)
                self.blank()
                p[x] = self.body(depth + 2)
        self.blank()
        return p

    def transactions(self, method, models):
        r = self.r
        out = []
        examples = r.choice([1, 1, 1, 2, 3])
        statuses = [200, 201, 202, 204, 301, 304, 400, 404, 418, 500, 599, 299, 307, 410]
        r.shuffle(statuses)
        unnamed = [True]

        def request():
            q = self.payload("Request", True, models=models, named=not unnamed)
            if not q["title"]:
                unnamed.clear()
            return q
        for i in range(examples):
            reqs = [request() for _ in range(r.choice([0, 1, 1, 2]) if i == 0 else r.choice([1, 1, 2]))]
            ress = [self.payload("Response", False, models=models, statuses=statuses) for _ in range(r.choice([1, 1, 2, 3]))]
            for q in reqs or [None]:
                for s in ress:
                    out.append([q, s])
        self.blank()
        return out

    def action(self, level, names, models, used):
        r = self.r
        t = {"title": None, "href": None, "vars": None, "relation": None, "copy": None, "attributes": None}
        free = [m for m in METHODS if m not in used] or [None]
        m = r.choice(free)
        own = m is None or self.chance(.2)
        m = m or r.choice(METHODS)
        vars_ = names
        if own:
            t["href"], vars_ = self.template()
        else:
            used.add(m)
        t["method"] = m
        if own or self.chance(.6):
            t["title"] = self.words(1, 2)
            self.heading(level, "%s [%s%s]" % (t["title"], m, " " + t["href"] if own else ""))
        else:
            self.heading(level, m)
        self.blank()
        t["copy"] = self.copy(.4)
        parts = [x for x in ("relation", "parameters", "attributes") if self.chance(.25 if x != "parameters" else .5)]
        for x in parts:
            if x == "relation":
                t["relation"] = self.a()
                self.line("%s Relation: %s" % (self.bullet, t["relation"]))
                self.blank()
            elif x == "attributes":
                t["attributes"] = self.attributes(0)
            else:
                t["vars"] = self.parameters(vars_, 0)
        t["transactions"] = self.transactions(m, models)
        return t

    def resource(self, level, models, first):
        r = self.r
        x = {"title": None, "copy": None, "vars": None, "attributes": None, "transitions": []}
        x["href"], names = self.template()
        k = r.randrange(5)
        if k == 0:     # a method and a URI
            m = r.choice(METHODS)
            self.heading(level, "%s %s" % (m, x["href"]))
            self.blank()
            t = {"title": None, "href": None, "vars": None, "relation": None, "copy": None, "attributes": None, "method": m}
            x["copy"] = None
            c = self.copy(.4)
            v = self.parameters(names, 0)
            # both belong to the action
            t["copy"], t["vars"] = c, v
            t["transactions"] = self.transactions(m, models)
            x["transitions"].append(t)
            return x
        if k == 2 and first:     # the same with a name, unless it would be an action of a resource before
            m = r.choice(METHODS)
            x["title"] = self.words(1, 2)
            self.heading(level, "%s [%s %s]" % (x["title"], m, x["href"]))
            self.blank()
            t = {"title": x["title"], "href": x["href"], "vars": None, "relation": None, "copy": None, "attributes": None, "method": m}
            t["copy"] = self.copy(.4)
            t["vars"] = self.parameters(names, 0)
            t["transactions"] = self.transactions(m, models)
            x["transitions"].append(t)
            return x
        if k == 1:     # a URI alone
            self.heading(level, x["href"])
        else:
            x["title"] = self.words(1, 2)
            self.heading(level, "%s%s[%s]" % (x["title"], r.choice([" "] * 9 + ["  "]), x["href"]))
        self.blank()
        x["copy"] = self.copy(.4)
        if self.chance(.5):
            x["vars"] = self.parameters(names, 0)
        if self.chance(.25):
            x["attributes"] = self.attributes(0)
        if x["title"] and self.chance(.25):
            own = self.words(1, 2) if self.chance(.3) else None
            m = self.payload("Model", own)
            models.append((own or x["title"], m))
        used = set()
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            x["transitions"].append(self.action(level + 1, names, models, used))
        return x

    def api(self):
        r = self.r
        d = {"metadata": [], "title": None, "copy": None, "resources": [], "groups": []}
        if self.chance(.6):
            for k in [["FORMAT", "1A"]] + [[r.choice(["HOST", "X-" + self.a(), self.a().upper()]), r.choice(["http://%s/" % self.a(), self.words()])] for _ in range(r.randrange(3))]:
                if k[0] not in [x[0] for x in d["metadata"]]:
                    d["metadata"].append(k)
                    self.line("%s:%s%s" % (k[0], r.choice([" ", "", "  "]), k[1]))
            self.blank()
        d["title"] = self.words()
        if self.chance(.2):
            self.line(d["title"])
            self.line("=" * r.randint(3, 9))
        else:
            self.line("# " + d["title"] + r.choice(["", "", " #"]))
        self.blank()
        first = self.w() + self.letters[3] * self.stretch
        self.line(first)
        self.blank()
        more = self.copy(.5)
        d["copy"] = first + ("\n\n" + more if more else "")
        models = []
        later = []
        for _ in range(r.choice([1, 2]) if self.chance(.3) else 0):     # models that are referred to before they come
            name, mark = self.words(1, 2), len(self.out)
            models.append((name, self.payload("Model", name)))
            later.append(self.out[mark:])
            del self.out[mark:]
        top = r.choice([1, 2])
        for _ in range(r.choice([0, 0, 1, 2])):
            d["resources"].append(self.resource(top, models, not d["resources"]))
        for _ in range(r.choice([0, 1, 1, 2])):
            g = {"title": self.words(), "copy": None, "resources": []}
            self.heading(1, self.kw("Group") + r.choice([" "] * 9 + ["  "]) + g["title"])
            self.blank()
            g["copy"] = self.copy(.4)
            for _ in range(r.choice([0, 1, 2])):
                g["resources"].append(self.resource(2, models, not g["resources"]))
            d["groups"].append(g)
        for ls in later:
            x = {"title": self.words(1, 2), "copy": None, "vars": None, "attributes": None, "transitions": []}
            x["href"], names = self.template()
            level = 2 if d["groups"] else top
            self.heading(level, "%s [%s]" % (x["title"], x["href"]))
            self.blank()
            x["copy"] = self.copy(.4)
            self.out += ls
            if self.chance(.4):
                x["transitions"].append(self.action(level + 1, names, models, set()))
            (d["groups"][-1] if d["groups"] else d)["resources"].append(x)
        self.expected = d
        while len(self.out) > 1 and not self.out[-1]:
            self.out.pop()
        text = "\n".join(self.out) + "\n" * r.choice([0, 1, 1, 1, 2])
        return text, d


# ------------------------------------------------------------------ what was read
import apie


class Unread(Exception):
    pass


def _kids(e, *allowed):
    out = {k: [] for k in allowed}
    for x in e.get("content") or []:
        if x["element"] not in out:
            raise Unread("%s in %s" % (x["element"], e["element"]))
        out[x["element"]].append(x)
    return out


def _copy(e, ks):
    if len(ks["copy"]) > 1:
        raise Unread("%d descriptions in %s" % (len(ks["copy"]), e["element"]))
    if ks["copy"] and e["content"][0] is not ks["copy"][0]:
        raise Unread("description is not the first in %s" % e["element"])
    return ks["copy"][0]["content"] if ks["copy"] else None


def _val(e):
    return e.get("content") if e else None


def read_vars(e):
    hv = apie.attr(e, "hrefVariables")
    if not hv:
        return None
    out = []
    for m in hv["content"]:
        c = m["content"]
        ta = [x["content"] for x in (_val(apie.attr(m, "typeAttributes")) or [])]
        if sorted(ta) not in (["required"], ["optional"]):
            raise Unread("type attributes %s" % ta)
        v = c["value"]
        val, dflt, members = v.get("content"), apie.attr(v, "default"), apie.attr(v, "enumerations")
        if isinstance(val, dict):
            val = val.get("content")
        if dflt:
            dflt = dflt["content"]
            if isinstance(dflt, dict):
                dflt = dflt.get("content")
        if v["element"] != ("enum" if members else "string"):
            raise Unread("value %s" % v["element"])
        out.append({"name": c["key"]["content"], "required": ta == ["required"], "title": apie.title(m),
                    "description": (_val((m.get("meta") or {}).get("description")) or "").rstrip("\n") or None, "value": val, "default": dflt,
                    "members": [x["content"] for x in members["content"]] if members else None})
    return out


def read_ds(e):
    d = e["content"] if e["element"] == "dataStructure" else e
    if d["element"] == "array":
        return ["array", [[x["element"], x.get("content")] for x in d.get("content") or []]]
    out = []
    for m in d.get("content") or []:
        c = m["content"]
        ta = [x["content"] for x in (_val(apie.attr(m, "typeAttributes")) or [])]
        out.append([c["key"]["content"], c["value"]["element"], c["value"].get("content"), ta == ["required"], _val((m.get("meta") or {}).get("description"))])
    return [d["element"], out]


def read_payload(e):
    p = {"title": apie.title(e), "status": None, "headers": [], "copy": None, "body": None, "schema": None, "attributes": None, "vars": read_vars(e)}
    s = apie.attr(e, "statusCode")
    if s:
        p["status"] = str(s["content"])
    h = apie.attr(e, "headers")
    if h:
        p["headers"] = [[m["content"]["key"]["content"], m["content"]["value"]["content"]] for m in h["content"]]
    ks = _kids(e, "copy", "dataStructure", "asset")
    p["copy"] = _copy(e, ks)
    if ks["dataStructure"]:
        p["attributes"] = read_ds(ks["dataStructure"][0])
    for a in ks["asset"]:
        if not apie.attr(a, "sourceMap"):
            continue  # generated
        k = "body" if "messageBody" in apie.classes(a) else "schema"
        p[k] = a["content"]
        kinds = [v for h, v in p["headers"] if h.lower() == "content-type"]
        got = _val(apie.attr(a, "contentType"))
        json = kinds and re.match(r"application/([^;+]*\+)?json *(;|$)", kinds[0])
        if k == "schema" and got != ("application/schema+json" if json else "text/plain"):
            raise Unread("a schema of %s in a payload of %s" % (got, kinds))
        if k == "body" and (got or None) != (kinds[0] if kinds else None):
            raise Unread("a body of %s in a payload of %s" % (got, kinds))
    return p


def read_transition(e):
    t = {"title": apie.title(e) or None, "href": _val(apie.attr(e, "href")), "vars": read_vars(e), "relation": _val(apie.attr(e, "relation")), "attributes": None}
    d = apie.attr(e, "data")
    if d:
        t["attributes"] = read_ds(d)
    ks = _kids(e, "copy", "httpTransaction")
    t["copy"] = _copy(e, ks)
    t["transactions"] = []
    ms = set()
    for x in ks["httpTransaction"]:
        q, s = [y for y in x["content"] if y["element"] != "copy"]
        ms.add(_val(apie.attr(q, "method")))
        if [y for y in x["content"] if y["element"] == "copy"]:
            raise Unread("description in a transaction")
        t["transactions"].append([read_payload(q), read_payload(s)])
    if len(ms) != 1:
        raise Unread("methods %s" % ms)
    t["method"] = ms.pop()
    return t


def read_resource(e):
    x = {"title": apie.title(e) or None, "href": _val(apie.attr(e, "href")), "vars": read_vars(e), "attributes": None}
    ks = _kids(e, "copy", "dataStructure", "transition")
    x["copy"] = _copy(e, ks)
    if ks["dataStructure"]:
        x["attributes"] = read_ds(ks["dataStructure"][0])
    x["transitions"] = [read_transition(y) for y in ks["transition"]]
    return x


def read_api(doc):
    cs = apie.only(doc, "category")
    if not cs:
        raise Unread("no API description: %s" % [apie.content(x) for x in apie.annotations(doc)])
    a = cs[0]
    d = {"metadata": [], "title": apie.title(a)}
    md = apie.attr(a, "metadata")
    if md:
        d["metadata"] = [[m["content"]["key"]["content"], m["content"]["value"]["content"]] for m in md["content"]]
    ks = _kids(a, "copy", "resource", "category")
    d["copy"] = _copy(a, ks)
    d["resources"] = [read_resource(x) for x in ks["resource"]]
    d["groups"] = []
    for g in ks["category"]:
        if "resourceGroup" not in apie.classes(g):
            raise Unread("category %s" % apie.classes(g))
        k = _kids(g, "copy", "resource")
        d["groups"].append({"title": apie.title(g), "copy": _copy(g, k), "resources": [read_resource(x) for x in k["resource"]]})
    return d


EMPTY = {"title": None, "status": None, "headers": [], "copy": None, "body": None, "schema": None, "attributes": None, "vars": None}


def normal(d):
    """The expectation in the form of what is read."""
    for rs in [d["resources"]] + [g["resources"] for g in d["groups"]]:
        for x in rs:
            for t in x["transitions"]:
                t["transactions"] = [[q or dict(EMPTY), s] for q, s in t["transactions"]]
    return d


def read(doc):
    """read_api, where whatever is missing or of another kind is an answer too."""
    try:
        return read_api(doc)
    except (KeyError, TypeError, IndexError, ValueError, AttributeError) as e:
        raise Unread("not of the expected form: %r" % e)
