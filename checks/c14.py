import random, re
from collections import Counter
import apie, common, gen, pipe, pipeline
from pipeline import n, bad

NOTE = {"name": 1, "duplicate": 2, "formatting": 3, "redefinition": 4, "ignoring": 5, "empty": 6, "deprecated": 9, "indentation": 10, "uri": 12, "http": 13, "model": 3, "business": 2}


class Wrong(gen.Gen):
    """Descriptions in which known things are wrong at known places."""

    def __init__(self, seed, **k):
        super().__init__(seed, **k)
        self.notes = []         # [class, code, what it says, first line, line after the last, exact text or None]
        self.kept = []          # what the resources must still be read as, in order
        self.models, self.bodies, self.examples = [], {}, []
        self.left_open = set()

    def note(self, kind, says, lo, hi=None, exact=None, cls="warning", open_place=False):
        self.notes.append([cls, NOTE[kind], [says] if isinstance(says, str) else says, lo, len(self.out) if hi is None else hi, exact, open_place])
        self.left_open.add(kind)

    # -- payloads; each returns nothing and is followed by a blank line
    def start(self, kind, name=None, mt=None):
        self.line(self.bullet + " %s%s%s" % (kind, " %s" % name if name else "", " (%s)" % mt if mt else ""))
        self.blank()
        self.rec = dict(kind=kind, name=str(name) if name else None, body=None, headers=[["Content-Type", mt]] if mt else [])
        if kind == "Request" and (not self.examples or self.examples[-1][1]):
            self.examples.append([[], []])
        elif kind == "Response" and not self.examples:
            self.examples.append([[], []])
        if kind != "Model":
            self.examples[-1][kind == "Response"].append(self.rec)
        return len(self.out) - 2

    def text(self, depth):
        ls = [self.words() for _ in range(self.r.choice([1, 1, 2]))]
        for l in ls:
            self.line(l, depth)
        self.blank()
        return "\n".join(ls) + "\n"

    def code(self, depth):
        self.rec["body"] = self.text(depth)

    def section(self, name, depth=1):
        self.line(self.bullet + " " + name, depth)
        self.blank()
        return len(self.out) - 2

    def sound(self, kind, statuses):
        """A payload without anything wrong."""
        if kind == "Response":
            self.start(kind, statuses.pop(), self.r.choice([None, "text/plain"]))
        else:
            self.start(kind, self.w(), "text/plain")
        if self.chance(.5):
            self.section("Headers")
            h = ["X-" + self.a(), self.words()]
            self.line("%s: %s" % tuple(h), 3)
            self.rec["headers"].append(h)
            self.blank()
            self.section("Body")
            self.code(3)
        else:
            self.code(2)

    def p_no_status(self, statuses):
        if 200 not in statuses:
            return self.sound("Response", statuses)
        statuses.remove(200)
        lo = self.start("Response", None, self.r.choice([None, "text/plain"]))
        self.rec["name"] = "200"
        if self.chance(.7):
            self.code(2)
        self.note("empty", "missing response HTTP status code, assuming 'Response 200'", lo)

    def p_body_not_allowed(self, statuses):
        s = self.r.choice([100, 101, 199, 204, 304])
        if s in self.bodiless:
            return self.sound("Response", statuses)
        self.bodiless.add(s)
        lo = self.start("Response", s)
        if self.chance(.5):
            if self.chance(.3):
                self.section("Schema")
                self.text(3)
            self.section("Body")
            self.code(3)
        else:
            self.code(2)
        self.note("empty", "the %d response MUST NOT include a message-body" % s, lo)

    def p_headers(self, statuses):
        typed = self.chance(.6)
        lo = self.start(*(("Response", statuses.pop()) if self.chance(.6) else ("Request", self.w())), mt="text/plain" if typed else None)
        at = self.section("Headers")
        fence, deep = self.r.choice([None, None, None, "```", "~~~"]), self.r.choice([2, 3])
        if fence:
            self.line(fence, deep)
        else:
            deep = 3
        names = ["content-type"] if typed else []
        good = 0
        for _ in range(self.r.randint(1, 6)):
            k = self.r.randrange(9)
            name = self.r.choice(["X-", "x_", "a!", "If-", "#"]) + self.a()
            i = len(self.out)
            value = self.words()
            keep = [name, value]
            if k < 3:
                line = "%s: %s" % (name, value)
                good += 1
                names.append(name.lower())
            elif k == 3 and names:
                name = self.r.choice(names)
                name = name.upper() if self.chance(.5) else name
                line = "%s: %s" % (name, value)
                keep = [name, value]
                good += 1
                self.note("http", "duplicate definition of '%s' header" % name, i, i + 1, line)
            elif k == 4:
                line = name + self.r.choice([":", " :"])
                good += 1
                keep = [name, ""]
                names.append(name.lower())
                self.note("http", "HTTP header '%s' has no value" % name, i, i + 1, line)
            elif k == 5:
                line = "%s %s" % (name, value)
                good += 1
                names.append(name.lower())
                self.note("http", "missing colon after header name '%s'" % name, i, i + 1, line)
            elif k == 6:
                c = self.r.choice(["(", "@", "/", ",", "é", "漢", "\U0001f600", '"', "=", "?", "{", "\\", "]"])
                line = "%s%s%s: %s" % (name, c, self.a(), value)
                keep = None
                self.note("http", ["HTTP header name '", "contains illegal character '%s'" % c, "skipping the header"], i, i + 1, line)
            elif k == 7:
                line = ": " + value
                keep = None
                self.note("formatting", "unable to parse HTTP header, expected '<header name> : <header value>'", i, i + 1, line)
            else:
                name = self.r.choice(["Set-Cookie", "Link", "set-cookie", "LINK"])
                line = "%s: %s" % (name, value)
                keep = [name, value]
                good += 1
            if keep:
                self.rec["headers"].append(keep)
            self.line(line, deep)
            if self.chance(.15):
                self.blank()
        if not good and typed:      # whether that is worth a note when there is a media type is open
            h = ["X-" + self.a(), self.words()]
            self.line("%s: %s" % tuple(h), deep)
            self.rec["headers"].append(h)
            good = 1
        if fence:
            self.line(fence, deep)
        self.blank()
        if not good:
            self.note("formatting", "no valid headers specified", lo)
        self.section("Body")
        self.code(3)

    def p_empty_request(self, statuses):
        lo = self.start("Request", self.w())
        h = [x for x in ("Content-Length", "Transfer-Encoding") if self.chance(.4)]
        v = str(self.r.randint(1, 999))
        if h:
            self.section("Headers")
            for x in h:
                self.line("%s: %s" % (x, v if x == "Content-Length" else "chunked"), 3)
                self.rec["headers"].append([x, v if x == "Content-Length" else "chunked"])
            self.blank()
        if self.chance(.3):
            self.section("Schema")
            self.text(3)
        self.note("empty", "empty request message-body" + (", expected message-body for '%s' %s" % (v if h[0] == "Content-Length" else "chunked", h[0]) if h else ""), lo)

    def p_twice(self, statuses):
        self.start("Response", statuses.pop())
        what = self.r.choice(["Body", "Schema"])
        self.section(what)
        if what == "Body":
            self.code(3)
        else:
            self.text(3)
        other = "Schema" if what == "Body" else "Body"
        if self.chance(.3):
            self.section(other)
            if other == "Body":
                self.code(3)
            else:
                self.text(3)
        for _ in range(self.r.choice([1, 1, 2])):
            lo = self.section(what)
            self.text(3)
            self.note("redefinition", "ignoring additional '%s' content, it is already defined" % what.lower(), lo)

    def p_parameters(self, statuses):
        self.start("Response", statuses.pop(), "text/plain")
        lo = self.section("Parameters")
        self.out.pop()
        self.line(self.bullet + " %s: %s" % (self.a(), self.w()), 2)
        self.blank()
        self.note("ignoring", "ignoring parameters section in a non request payload section", lo)
        self.section("Body")
        self.code(3)

    def p_signature(self, statuses):
        if 200 not in statuses:
            return self.sound("Response", statuses)
        statuses.remove(200)
        lo = self.start("Response", "%d (text/plain) %s" % (statuses.pop(), self.w()) if self.chance(.5) else "%d %s" % (statuses.pop(), self.w()))
        self.rec["name"] = "200"
        self.code(2)
        self.note("formatting", "unable to parse response signature, expected 'response [<HTTP status code>] [(<media type>)]'", lo)
        self.note("empty", "missing response HTTP status code, assuming 'Response 200'", lo)

    def p_request_signature(self, statuses):
        if self.unnamed:
            return self.sound("Request", statuses)
        self.unnamed = True
        lo = self.start("Request", "%s (text/plain) %s" % (self.w(), self.w()))
        self.rec["name"] = None
        self.code(2)
        self.note("formatting", "unable to parse request signature, expected 'request [<identifier>] [(<media type>)]'", lo)

    def p_after_reference(self, statuses):
        m = self.model()
        if not m:
            return self.sound("Response", statuses)
        self.start("Response", statuses.pop())
        self.rec["body"], self.rec["headers"] = self.bodies[m]
        self.line("[%s][]" % m, 1)
        self.blank()
        lo = len(self.out)
        self.text(self.r.choice([1, 2]))
        self.note("ignoring", ["ignoring extraneous content after model reference", "[%s][]" % m], lo)

    def p_not_code(self, statuses):
        lo = self.start("Response", statuses.pop())
        if self.chance(.5):
            self.section("Body")
            lo = len(self.out)
            self.text(2)
            self.rec["body"] = "?"
            self.note("indentation", "message-body asset is expected to be a pre-formatted code block, every of its line indented by exactly 12 spaces or 3 tabs", lo, open_place=True)
        else:
            lo = len(self.out)
            self.text(1)
            self.rec["body"] = "?"
            self.note("indentation", "message-body asset is expected to be a pre-formatted code block, every of its line indented by exactly 8 spaces or 2 tabs", lo, open_place=True)

    def p_runs_on(self, statuses):
        lo = self.start("Response", statuses.pop())
        self.rec["body"] = "?"
        self.out.pop()
        for _ in range(self.r.choice([1, 2])):
            self.line(self.words(), self.r.choice([1, 2]))
        self.blank()
        self.note("indentation", "message-body asset is expected to be a pre-formatted code block, separate it by a newline and indent every of its line by 8 spaces or 2 tabs", lo)

    def p_too_deep(self, statuses):
        self.start("Response", statuses.pop())
        lo = len(self.out)
        what, name = self.r.choice([("Body", "message-body"), ("Schema", "message-schema"), ("Headers", "headers")])
        self.line(self.bullet + " " + what, 2)
        self.blank()
        self.text(4)
        self.rec["body"] = "?"
        self.note("indentation", ["excessive indentation, %s section is expected to be indented by just" % name, "~4 spaces or 1 tab"], lo)

    def p_dangling(self, statuses):
        self.sound("Response", statuses)
        self.rec["body"] = "?"
        for fence in self.r.choice([[0], [0], [0, 0], [0, 1], [0, 1, 0], [1, 0]]):
            lo = len(self.out)
            if fence:
                self.line("```")
                self.text(0)
                self.out.pop()
                self.line("```")
                self.blank()
            else:
                self.text(0)
            self.note("indentation", "dangling message-body asset, expected a pre-formatted code block, indent every of it's line by", lo)

    def p_unrecognized(self, statuses):
        self.start("Response", statuses.pop())
        what = self.r.choice(["Headers", "Schema"])
        self.section(what)
        if what == "Headers":
            h = ["X-" + self.a(), self.words()]
            self.line("%s: %s" % tuple(h), 3)
            self.rec["headers"].append(h)
            self.blank()
        else:
            self.text(3)
        lo = len(self.out)
        self.text(1)
        self.note("ignoring", "ignoring unrecognized block", lo)
        if self.chance(.5):
            self.section("Body")
            self.code(3)

    def p_body_aside(self, statuses):
        self.start("Response", statuses.pop(), "text/plain")
        self.out.pop()
        lo = len(self.out)
        what = self.r.choice(["Body", "Schema"])
        self.line(self.bullet + " " + what)
        self.blank()
        self.text(2)
        self.note("ignoring", "Ignoring message-%s list item, message-%s list item is expected to be indented by 4 spaces or 1 tab" % (what.lower(), what.lower()), lo)

    def p_reference_in_body(self, statuses):
        m = self.model()
        if not m:
            return self.sound("Response", statuses)
        self.start("Response", statuses.pop())
        self.section("Body")
        lo = len(self.out)
        self.line("[%s][]" % m, 3)
        self.rec["body"] = "[%s][]\n" % m
        self.blank()
        self.note("ignoring", ["found a possible '%s' model reference" % m, "must be directly in the"], lo)

    def p_response_twice(self, statuses):
        s = statuses.pop()
        mt = self.r.choice([None, "text/plain"])
        for i in range(self.r.choice([2, 2, 3])):
            lo = self.start("Response", s, mt)
            self.section("Body")
            self.code(3)
            if i:
                self.note("duplicate", "response payload `%d` already defined for `%s` method" % (s, self.method), lo)
        self.start("Response", s, "application/x-" + self.a())      # another media type: no duplicate
        self.section("Body")
        self.code(3)

    def p_request_twice(self, statuses):
        s = self.w()
        for i in range(2):
            lo = self.start("Request", s, "text/plain")
            self.section("Body")
            self.code(3)
            if i:
                self.note("duplicate", "request payload `%s` already defined for `%s` method" % (s, self.method), lo)

    def p_model_header(self, statuses):
        m = self.model(True)
        if not m:
            return self.sound("Response", statuses)
        self.start("Response", statuses.pop(), "text/plain")
        self.rec["body"], self.rec["headers"] = self.bodies[m]
        lo = len(self.out)
        self.line("[%s][]" % m, 1)
        self.blank()
        self.note("ignoring", "ignoring additional response header(s), specify this header(s) in the referenced model definition instead", lo)

    def p_refers(self, statuses):
        """A payload that a model, met already or yet to come, makes wrong."""
        k = self.r.randrange(3)
        later = self.to_come and not self.common_ and not self.transitions[-1][3] and self.chance(.6)   # with those, left open
        m = None if later else self.model(None if k != 1 else "schema")
        if later:
            m = self.words(1, 2)
        s = self.r.choice([100, 101, 199, 204, 304])
        if not m or k == 0 and s in self.bodiless:
            return self.sound("Response", statuses)
        if k == 0:
            self.bodiless.add(s)
            lo = self.start("Response", s)
            kind = self.r.choice([None, "text"])
        elif k == 1:
            lo = self.start("Request", self.w())
            kind = "schema"
        else:
            lo = self.start("Response", statuses.pop(), "text/plain")
            kind = "text"
            if not later and not any(x == (m, True) for x in self.models):
                kind = None
        if k == 0 and not later and self.bodies[m][0] is None:
            kind = "schema"
        self.line("[%s][]" % m, 1)
        self.blank()
        if later:
            self.promised.append((m, kind, self.rec))
        else:
            own = [h for h in self.rec["headers"] if not (k == 2 and kind)]
            self.rec["body"], self.rec["headers"] = self.bodies[m][0], own + self.bodies[m][1]
        if k == 0 and kind != "schema":
            self.note("empty", "the %d response MUST NOT include a message-body" % s, lo)
        elif k == 1 and kind == "schema":
            self.note("empty", ["empty request message-body", "!, expected"], lo)
        elif k == 2 and kind:
            self.note("ignoring", ["ignoring additional ", " header(s), specify this header(s) in the referenced model definition instead"], lo)

    def keep(self, level):
        """The models that were to come."""
        self.r.shuffle(self.promised)
        for m, kind, rec in self.promised:
            self.href = "/" + self.a()
            self.line("#" * level + " %s [%s]" % (m, self.href))
            self.blank()
            self.start("Model", None, "text/x" if kind == "text" else None)
            if kind == "schema":
                self.section("Schema")
                self.text(3)
            else:
                self.code(2)
            rec["body"] = self.rec["body"]
            rec["headers"] = self.rec["headers"] if kind == "text" else rec["headers"]
            self.kept.append({"href": self.href, "title": m, "flawed": [], "headers": []})

    def model(self, typed=None):
        ms = [m for m, t in self.models if t == typed or typed is None and t != "schema"]
        return self.r.choice(ms) if ms else None

    # -- actions
    def action_(self, level, used):
        r = self.r
        self.unnamed = False
        self.examples = []
        self.transitions.append([None, None, self.examples, []])
        self.bodiless = set()
        statuses = [200, 201, 202, 301, 400, 404, 418, 500, 599, 299, 307, 410, 422, 451, 503, 502, 501, 401, 403, 409]
        r.shuffle(statuses)
        kind = r.randrange(12)
        free = [m for m in gen.METHODS if m not in used]
        self.method = m = r.choice(free)
        if kind == 0 and "HEAD" not in used:
            m = "HEAD"
        if kind == 1 and "CONNECT" not in used:
            m = "CONNECT"
        if kind == 2 and used:      # again
            m = r.choice(sorted(used))
        self.method = m
        lo = len(self.out)
        title = self.words(1, 2) if self.chance(.5) else None
        self.transitions[-1][:2] = [m, title]
        self.line("#" * level + (" %s [%s]" % (title, m) if title else " " + m))
        self.blank()
        if kind == 2 and m in used:
            self.note("duplicate", "action with method '%s' already defined for resource '%s'" % (m, self.href), lo, lo + 1)
        used.add(m)
        self.copy(.3)
        if self.chance(.12):
            at = len(self.out)
            self.line(self.bullet + " Relation: " + r.choice(["A" + self.a(), "1" + self.a(), self.a() + "_b", self.a() + " b", "é"]))
            self.blank()
            self.note("formatting", "relation identifier contains illegal characters", at)
        elif self.chance(.2):
            at = len(self.out)
            again = self.relations and self.chance(.5)
            rel = r.choice(self.relations) if again else self.a()
            self.line(self.bullet + " Relation: " + rel)
            self.blank()
            if again:
                self.note("duplicate", "relation identifier '%s' already defined for resource '%s'" % (rel, self.href), lo, lo + 1)
            self.relations.append(rel)
        deprecated = self.chance(.08)
        if deprecated:
            at = len(self.out)
            self.line(self.bullet + " Headers")
            self.blank()
            h = ["X-" + self.a(), self.w()]
            self.line("%s: %s" % tuple(h), 2 if self.chance(.5) else 3)
            self.transitions[-1][3].append(h)
            self.blank()
            self.note("deprecated", "the 'headers' section at this level is deprecated", at)
        if m in ("HEAD", "CONNECT"):
            for _ in range(r.randint(1, 3)):
                s = statuses.pop()
                at = self.start("Response", s)
                if self.chance(.7):
                    self.code(2)
                    if m == "HEAD" or 200 <= s < 300:
                        self.note("empty", "the response for %sHEAD request MUST NOT include a message-body" % "" if m == "HEAD" else "the response for %d CONNECT request MUST NOT include a message-body" % s, at)
            return
        if kind == 3:
            self.note("empty", "action is missing a response", lo, lo + 1)
            self.notes[-1][2] = ["action is missing a response", "!for"]
            return
        for _ in range(r.randint(0, 3)):
            if self.chance(.5):
                self.sound("Response", statuses)
            else:
                self.flaw(statuses)
        if kind == 4:
            for _ in range(r.choice([0, 0, 1, 2])):
                self.sound("Request", statuses)
            q = self.w()
            self.start("Request", q, "text/plain")
            self.code(2)
            self.note("empty", "action is missing a response for the '%s' request" % q, lo, lo + 1)
            return
        self.sound("Response", statuses)
        if kind == 5 and not self.unnamed:
            self.start("Request", None, "text/plain")
            self.code(2)
            self.note("empty", "action is missing a response for a request", lo, lo + 1)

    def flaw(self, statuses):
        fs = [getattr(self, x) for x in dir(self) if x.startswith("p_")]
        f = self.r.choice(fs)
        self.seen[f.__name__] += 1
        f(statuses)

    # -- resources
    def resource_(self, level):
        r = self.r
        if self.chance(.3):
            x = self.resource(level, [], False)
            self.hrefs.append(x["href"])
            for t in x["transitions"]:
                t["transactions"] = [[q or dict(gen.EMPTY), s] for q, s in t["transactions"]]
            self.kept.append(x)
            return
        lo = len(self.out)
        again = self.hrefs and self.chance(.08)
        self.href = r.choice([h for h in self.hrefs]) if again else "/" + self.a()
        if again and "{" in self.href:
            again, self.href = False, "/" + self.a()
        name = self.words(1, 2) if self.chance(.6) else None
        self.line("#" * level + (" %s [%s]" % (name, self.href) if name else " " + self.href))
        self.blank()
        if again:
            self.note("duplicate", "the resource '%s' is already defined" % self.href, lo, lo + 1)
        self.hrefs.append(self.href)
        self.copy(.3)
        self.examples, self.transitions, self.common_ = [], [], []
        common_ = self.common_
        if self.chance(.06):
            at = len(self.out)
            self.line(self.bullet + " Headers")
            self.blank()
            h = ["X-" + self.a(), self.w()]
            self.line("%s: %s" % tuple(h), 2 if self.chance(.5) else 3)
            common_.append(h)
            self.blank()
            self.note("deprecated", "the 'headers' section at this level is deprecated", at)
        if name and self.chance(.4):
            typed = self.chance(.5)
            self.start("Model", None, "text/x" if typed else None)
            bare = not typed and self.chance(.3)
            if bare:
                self.section("Schema")
                self.text(3)
                typed = "schema"
            elif self.chance(.2):
                at = self.section("Parameters")
                self.out.pop()
                self.line(self.bullet + " %s: %s" % (self.a(), self.w()), 2)
                self.blank()
                self.note("ignoring", "ignoring parameters section in a non request payload section", at)
                self.section("Body")
                self.code(3)
            else:
                self.code(2)
            self.bodies[name] = self.rec["body"], self.rec["headers"]
            if not self.out[-2].startswith(" " * 12) and not bare and self.chance(.2):
                at = len(self.out)
                self.text(0)
                self.bodies[name] = "?", self.rec["headers"]
                self.note("indentation", "dangling message-body asset, expected a pre-formatted code block, indent every of it's line by 8 spaces or 2 tabs", at)
            self.models.append((name, typed))
        used, self.relations = set(), []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            self.action_(level + 1, used)
        self.kept.append({"href": self.href, "title": name, "flawed": self.transitions, "headers": common_})

    def fatal(self, level):
        """Something that ends the reading, to be the last of the description."""
        r = self.r
        k = r.randrange(4)
        lo = len(self.out)
        name = self.words(1, 2)
        self.href = "/" + self.a()
        if k == 0:
            self.line("#" * level + " %s [%s]" % (name, self.href))
            self.blank()
            self.line("#" * level + "# GET")
            self.blank()
            self.start("Response", 200)
            at = len(self.out)
            m = self.a()
            self.line("[%s][]" % m, 1)
            self.blank()
            self.note("model", "Undefined resource model %s" % m, at, cls="error")
        elif k == 1:
            self.line("#" * level + " " + self.href)
            self.blank()
            at = self.start("Model")
            self.text(2)
            self.note("model", ["resource model can be specified only for a named resource", "[%s]" % self.href], at, cls="error")
        elif k == 2 and self.models:
            name = r.choice(self.models)[0]
            self.line("#" * level + " %s [%s]" % (name, self.href))
            self.blank()
            at = self.start("Model")
            self.text(2)
            self.note("model", "symbol '%s' already defined" % name, at, cls="error")
        else:
            self.line("#" * level + " %s [%s]" % (name, self.href))
            self.blank()
            self.start("Model", None, None)
            self.text(2)
            at = self.start("Model", None, "text/plain")
            self.text(2)
            self.note("duplicate", ["overshadowing previous model definition for '%s(%s)' resource" % (name, self.href)], at)
            self.note("model", "symbol '%s' already defined" % name, at, cls="error")

    def odd(self, level):
        """A heading that is none of those known, after a resource."""
        lo = len(self.out)
        self.line("#" * level + " " + self.words())
        self.blank()
        self.note("ignoring", "unexpected header block, expected a group, resource or an action definition", lo, lo + 1)

    def not_absolute(self, level):
        """What would be an action, were its path absolute."""
        lo = len(self.out)
        t = "%s [%s %s]" % (self.words(1, 2), self.r.choice(gen.METHODS), self.r.choice(["%s", "{%s}", "{?%s}", "%s?%s={%s}", "#{%s}"]).replace("%s", self.a()))
        self.line("#" * level + " " + t)
        self.blank()
        self.note("uri", "URI path in '%s' is not absolute, it should have a leading forward slash" % t, lo, lo + 1)
        if [l for l in self.out[:lo] if l][-1][0] in " +\t":
            self.note("ignoring", "unexpected header block, expected a group, resource or an action definition", lo, lo + 1)

    def document(self):
        r = self.r
        self.hrefs, self.seen = [], Counter()
        self.rc = 0
        if self.chance(.4):
            ks = ["FORMAT", "HOST"] + [self.a().upper() for _ in range(2)]
            ls = ["%s: %s" % (k, self.w()) for k in ks[:r.randint(1, 4)]]
            k = r.randrange(4)
            if k == 0:
                x = [r.choice(ls).split(":")[0] for _ in range(r.choice([1, 1, 2]))]
                ls += ["%s: %s" % (y, self.w()) for y in x]
                r.shuffle(ls)
                for y in sorted(set(x)):
                    self.note("duplicate", "duplicate definition of '%s'" % y, 0, len(ls))
            elif k == 1:
                ls.insert(r.randrange(len(ls)) + 1, r.choice([self.words(), ":" + self.a(), self.a() + ":"]))
                self.note("formatting", "ignoring possible metadata, expected '<key> : <value>'", 0, len(ls))
            for l in ls:
                self.line(l)
            self.blank()
        named = self.chance(.85)
        lo = len(self.out)
        if named:
            self.line("# " + self.words())
            self.blank()
        if not named or self.chance(.5):
            self.line(self.paragraph() if named else self.words(3, 5))
            self.blank()
        if not named:
            self.note("name", "expected API name, e.g. '# <API Name>'", 0, None)
            self.notes[-1][4] = None      # anywhere
        groups = self.chance(.5)
        fatal = self.chance(.12)
        self.to_come, self.promised, self.common_ = not fatal, [], []
        names = []
        for _ in range(r.randint(1, 3)):
            level = 2 if groups else r.choice([1, 2])
            if groups:
                lo = len(self.out)
                again = names and self.chance(.3)
                name = r.choice(names) if again else self.words(1, 2)
                self.line("# Group " + name)
                self.blank()
                if again:
                    self.note("duplicate", "group '%s' is already defined" % name, lo, lo + 1)
                names.append(name)
            for _ in range(r.choice([0, 1, 1, 2])):
                self.resource_(level)
                if self.chance(.13) and [l for l in self.out if l][-1][0] in " +\t":
                    if self.chance(.6):
                        self.odd(r.randint(1, 5))
                    else:
                        self.not_absolute(level + 1)
        self.keep(2 if groups else 1)
        if fatal:
            self.fatal(2 if groups else 1)
        while not self.out[-1]:
            self.out.pop()
        if self.chance(.03):        # refused before anything else is looked at
            c, said = r.choice([("\t", "the use of tab(s) '\\t' in source data isn't currently supported"), ("\r", "the use of carriage return(s) '\\r' in source data isn't currently supported")])
            for _ in range(r.choice([1, 1, 2, 3])):
                i = r.randrange(len(self.out))
                at = r.randint(0, len(self.out[i]))
                self.out[i] = self.out[i][:at] + c + self.out[i][at:]
            i = [x for x, l in enumerate(self.out) if c in l][0]
            self.notes = []
            self.note("business", said, i, i + 1, exact=c, cls="error")
        for x in self.notes:
            if x[0] == "error":
                self.rc = x[1]
        return "\n".join(self.out) + r.choice(["", "\n", "\n\n"])


def recovered(e, want):
    """Pairs of what the actions were read as, and should be."""
    ts = apie.only(e, "transition")
    if len(ts) != len(want["flawed"]):
        yield len(ts), len(want["flawed"])
        return
    for t, (method, title, examples, headers) in zip(ts, want["flawed"]):
        out = []
        for reqs, ress in examples:
            for q in reqs or [None]:
                for s in ress or [None]:
                    out.append([[q["name"], q["body"], want["headers"] + headers + q["headers"]] if q else [None, None, []],
                                [s["name"], s["body"], want["headers"] + headers + s["headers"]] if s else [None, None, []]])
        got, methods = [], set()
        for x in apie.only(t, "httpTransaction"):
            q, s = [y for y in x["content"] if y["element"] != "copy"]
            methods.add(apie.content(apie.attr(q, "method")))
            q, s = gen.read_payload(q), gen.read_payload(s)
            got.append([[q["title"], q["body"], q["headers"]], [s["status"], s["body"], s["headers"]]])
        for x, y in zip(got, out):
            for a, b in zip(x, y):
                if b[1] == "?":
                    a[1] = "?"
        yield [apie.title(t) or None, got], [title, out]
        if methods - {method}:
            yield sorted(methods), [method]


def brief(s):
    return re.sub(r"^excessive indentation,.*", "excessive indentation", re.sub(r"['`(/].*?['`)]|\d+", "", s).replace("  ", " "))[:48].strip()


def place(ck, case, doc, notes):
    """Every note must be there once, at its place, and nothing else."""
    src = case[1].decode()
    at = [0]
    blank = [not l for l in src.split("\n")]
    for l in src.split("\n"):
        at.append(at[-1] + len(l) + 1)
    got = []
    for a in apie.annotations(doc):
        places = []
        for s in apie.attr(a, "sourceMap")["content"]:
            for x in s["content"]:
                places.append(tuple(y["content"] for y in x["content"]))
        got.append((apie.classes(a)[0], apie.content(apie.attr(a, "code")), a["content"], places))
    free = list(got)
    for cls, code, says, lo, hi, exact, open_place in notes:
        yes = [s for s in says if s[0] not in "!~"]
        no = [s[1:] for s in says if s[0] == "!"]
        ms = [x for x in free if x[0] == cls and x[1] == code and all(s in x[2] for s in yes) and not any(s in x[2] for s in no)]
        if not ms:
            bad(ck, "missing:" + brief(says[0]), case, "no %s %d saying %s; there are %s" % (cls, code, says, [x[:3] for x in free][:8]))
            continue
        if any(s[0] == "~" and s[1:] not in ms[0][2] for s in says):
            bad(ck, "advice:" + brief(says[0]), case, "%s does not say %s" % (ms[0][2], says))
        if open_place or hi is None:
            free.remove(ms[0])
            ck.saw("annotations_unplaced")
            continue

        while hi < len(blank) and blank[hi]:     # places take the blank lines after them in
            hi += 1

        def inside(x):
            return x[3] and all(p + l <= at[min(hi, len(at) - 1)] and p >= at[lo] and l > 0 for p, l in x[3])
        fit = [x for x in ms if inside(x) and (exact is None or "".join(src[p:p + l] for p, l in x[3]).strip() == exact.strip())]
        if not fit:
            bad(ck, "place:" + brief(says[0]), case, "%s is not at lines %d to %d (characters %d to %d) but at %s: %r" % (
                ms[0][:3], lo + 1, hi, at[lo], at[min(hi, len(at) - 1)], ms[0][3], [src[p:p + l] for p, l in ms[0][3]]))
            free.remove(ms[0])
            continue
        free.remove(fit[0])
        ck.saw("annotations_%s_%d" % (cls, code))
    for x in free:
        bad(ck, "unexpected:" + brief(x[2]), case, "%s" % (x,))


def judge(ck, case, r, doc, g):
    place(ck, case, doc, g.notes)
    if r.rc != g.rc:
        bad(ck, "code", case, "code %d instead of %d" % (r.rc, g.rc))
    if g.rc:
        return
    xs = [e for e, _, _ in apie.walk(doc) if e["element"] == "resource"]
    if len(xs) != len(g.kept):
        return bad(ck, "resources", case, "%d instead of %d" % (len(xs), len(g.kept)))
    for e, want in zip(xs, g.kept):
        if "transitions" in want:
            got = gen.read_resource(e)
            ck.saw("sound_resources")
            m = pipeline.diff(got, want)
            if m:
                bad(ck, "sound-resource", case, m)
        else:
            ck.saw("flawed_resources")
            m = (apie.content(apie.attr(e, "href")), apie.title(e) or None)
            if m != (want["href"], want["title"]):
                bad(ck, "resource", case, "%s instead of %s" % (m, want))
            for x, y in recovered(e, want):
                m = pipeline.diff(x, y)
                ck.saw("transitions")
                if m:
                    bad(ck, "recovered", case, m)


def main():
    ck = common.Check("C14")
    ck.rule = ("descriptions are generated in which known things are wrong at known places; each must be annotated once, with its code, its text and its place, and nothing else; "
               "what is not wrong must be read as written; distinct: outputs")
    ck.assumptions = pipeline.ASSUMED

    def cases():
        for i in range(n(2000, 60000)):
            g = Wrong("c14-%d/%d" % (common.SEED, i), alphabet=random.Random(i).choice(["ascii", "ascii", "two", "three", "four"]))
            t = g.document()
            yield "wrong-%d" % i, t.encode(), g

    def oracle(case, r):
        ck.saw("documents")
        ck.mark(hash(r.jsonsm))
        try:
            judge(ck, case, r, apie.read(r.jsonsm), case[2])
        except (gen.Unread, KeyError, TypeError, IndexError, AttributeError) as e:
            bad(ck, "unread", case, repr(e))
    pipe.Pool(ck).run(cases(), pipe.JSON_SM, oracle)
    ck.require(documents=2000, annotations_error_2=20, annotations_warning_12=80, annotations_error_3=120, annotations_warning_2=600, annotations_warning_3=500, annotations_warning_4=70, annotations_warning_5=150, annotations_warning_6=1000,
               annotations_warning_9=200, annotations_warning_10=200, annotations_warning_13=90, flawed_resources=1200, sound_resources=500, transitions=1700)
    ck.finish()
