import random
import apie, common, gen, mson, pipe, pipeline, render, schema
import c10
from mson import node
from pipeline import n, bad


class Types(mson.Mson):
    """Named types that inherit from, include and refer to each other."""
    def graph(self):
        r = self.r
        self.mode = r.choice(["sound"] * 6 + ["sound-large"] + ["cycle", "undefined", "twice"])
        size = r.randint(15, 40) if self.mode == "sound-large" else r.randint(2, 9)
        names = [self.a().capitalize() for _ in range(size)]
        self.keys = [self.w() for _ in range(r.randint(2, 6))]
        self.kinds, self.made, self.edges = {}, {}, {}
        self.recursive = r.choice([0, 0, .2, .5])
        for i, name in enumerate(names):
            self.kinds[name] = r.choice(["object"] * 6 + ["string", "number", "boolean", "array", "enum"])
        self.names = names
        defs = []
        for i, name in enumerate(names):
            defs.append(self.define(name, names[:i]))
        wrong = None
        if self.mode == "cycle":
            wrong = self.cycle(defs)
        if self.mode == "twice":
            x = r.choice(names)
            defs.append((x, [(0, "## " + x), (0, ""), (0, "+ a"), (0, "")], None))
        if self.mode == "undefined":
            x = self.a().capitalize()
            k = r.randrange(4)
            new = self.a().capitalize()
            defs.append((new, [(0, "## %s%s" % (new, " (%s)" % x if k == 0 else "")), (0, ""), (0, ["+ a", "+ a (%s)" % x, "+ Include %s" % x, "+ a (array[%s])" % x][k]), (0, "")], None))
        order = list(defs)
        r.shuffle(order)
        return order

    def find(self, before, *kinds):
        c = [x for x in before if self.kinds[x] in kinds]
        return self.r.choice(c) if c else None

    def any(self, before):
        return self.r.choice(self.names if self.chance(self.recursive) else before or self.names[:1]) if before or self.recursive else None

    def prop(self, before, d, keys=None):
        r = self.r
        key = r.choice(keys or self.keys) if self.chance(.7) else self.w()
        attrs = [x for x in (r.choice(["required", "optional"] + [None] * 4), r.choice(["nullable"] + [None] * 6)) if x]
        lines, text = [], ""
        k = r.randrange(9)
        ref = self.any(before)
        if k < 4 and ref:
            kind = self.kinds[ref]
            val, t = node(ref), ref
            if kind == "object" and d > 0 and self.chance(.3):
                own = [self.prop(before, d - 1) for _ in range(r.randint(1, 2))]
                own = self.single(own)
                lines = [(1 + a, b) for x in own for a, b in x[0]]
                val = node(ref, c=[x[1] for x in own])
            elif kind in render.PRIMS and self.chance(.3):
                text, v = self.literal(kind)
                val = node(ref, c=v)
            elif kind == "array" and self.chance(.3) and self.made.get(ref, {}).get("full"):
                text, v = self.literal("string")
                lines, text = [(1, "+ " + text)], ""
                val = node(ref, c=[node("string", c=v)])
        elif k == 4 and ref:
            t, val = "array[%s]" % ref, node("array", c=[node(ref)])
        elif k == 5 and d > 0:
            own = self.single([self.prop(before, d - 1) for _ in range(r.randint(1, 3))])
            t = "object"
            lines = [(1 + a, b) for x in own for a, b in x[0]]
            val = node("object", c=[x[1] for x in own])
        else:
            t = r.choice(render.PRIMS)
            text, v = self.literal(t) if self.chance(.7) else ("", None)
            val = node(t, c=v)
        line = "+ " + key + (": " + text if text else "") + " (%s)" % ", ".join([t] + attrs)
        return [(0, line)] + lines, node("member", key=node("string", c=key), val=val, attrs=sorted(attrs))

    def single(self, props):
        """Without properties whose name was used."""
        seen, out = set(), []
        for x in props:
            k = x[1]["key"]["c"]
            if k not in seen:
                seen.add(k)
                out.append(x)
        return out

    def define(self, name, before):
        r, kind = self.r, self.kinds[name]
        base = self.find(before, kind) if self.chance(.6) else None
        out = [(0, "## %s%s" % (name, " (%s)" % (base or kind) if base or kind != "object" else "")), (0, "")]
        me = node(base or kind, id=name)
        if kind == "object":
            props = self.single([self.prop(before, 1) for _ in range(r.choice([0, 1, 2, 3, 4]) if base else r.randint(1, 4))])
            items = list(props)
            mixed = set()
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                x = self.find(before, "object")
                if x and x not in mixed:
                    mixed.add(x)
                    items.insert(r.randint(0, len(items)), ([(0, "+ Include " + x)], node("ref", c=x)))
            for ls, x in items:
                out += ls
            me = node(base or kind, id=name, c=[x for _, x in items])
        elif kind in render.PRIMS:
            for title in ["Sample"] * self.chance(.5) + ["Default"] * self.chance(.3):
                t, x = self.literal(kind)
                while t[0] == "`":
                    t, x = self.literal(kind)
                out += [(0, "### " + title), (0, t), (0, "")]
                me = dict(me, **({"samples": [node(kind, c=x)]} if title == "Sample" else {"default": node(kind, c=x)}))
        elif kind == "array":
            vs = [self.literal("string") for _ in range(r.randint(1, 3))]   # items are lost without items in the base: a known finding of C36
            out += [(0, "+ " + t) for t, _ in vs]
            me = node(base or kind, id=name, c=[node("string", c=v) for _, v in vs])
        else:
            vs = [self.literal("string") for _ in range(r.randint(2, 4))]
            out += [(0, "+ " + t) for t, _ in vs]
            me = node(base or kind, id=name, enums=[node("string", c=v, attrs=mson.FIXED) for _, v in vs])
        out.append((0, ""))
        self.made[name] = {"full": kind != "array" or "c" in me}
        return name, out, me

    def cycle(self, defs):
        """Makes types inherit from or include each other in a circle."""
        r = self.r
        k = r.randint(1, 4)
        names = [self.a().capitalize() for _ in range(k)]
        for i, x in enumerate(names):
            y = names[(i + 1) % k]
            how = r.randrange(2)
            defs.append((x, [(0, "## %s%s" % (x, " (%s)" % y if how else "")), (0, ""), (0, "+ %s: 1" % self.w() if how else "+ Include %s" % y), (0, "")], None))

    def document(self):
        order = self.graph()
        self.line("# " + self.words())
        self.blank()
        self.line("# Data Structures")
        self.blank()
        for _, ls, _ in order:
            for d, l in ls:
                self.line(l, d)
        self.line("# POST /" + self.a())
        self.blank()
        for i, name in enumerate(self.names):
            self.line("+ Response %d (application/json)" % (206 + i))
            self.blank()
            self.line("+ Attributes (%s)" % name, 1)
            self.blank()
        while not self.out[-1]:
            self.out.pop()
        return "\n".join(self.out) + "\n", [m for _, _, m in order if m]


def mentions(x, how, out):
    """The types an element names: as what it is, as a part, or as what it includes."""
    for k in ("key", "val", "c", "samples", "default", "enums"):
        for y in x[k] if isinstance(x.get(k), list) else [x[k]] if isinstance(x.get(k), dict) else []:
            if y["e"] == "ref":
                out.append((y["c"], "include"))
            elif y["e"] not in render.KINDS + ("member", "select", "option"):
                out.append((y["e"], how))
            mentions(y, how, out)
    return out


def circles(types):
    """Whether some type is its own ancestor or part of itself by inclusion alone; and whether one that is
    included refers back by a member, which is refused or not depending on what else is known by then."""
    g = {t["id"]: mentions(t, "member", []) + ([] if t["e"] in render.KINDS else [(t["e"], "base")]) for t in types}

    def reach(x, hows):
        seen, todo = set(), [x]
        while todo:
            for y, how in g.get(todo.pop(), []):
                if how in hows and y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen
    hard = any(x in reach(x, ("include", "base")) for x in g)
    soft = any(how == "include" and x in reach(y, ("include", "base", "member")) for x in g for y, how in g[x])
    return hard, soft


MIXED = ["# API\n\n# Data Structures\n\n## Q\n\n+ Include P\n\n## P\n\n+ %s\n\n# GET /a\n\n+ Response 200\n    + Attributes (Q)\n",
         "# API\n\n# Data Structures\n\n## P\n\n+ %s\n\n## Q\n\n+ Include P\n\n# GET /a\n\n+ Response 200\n    + Attributes (Q)\n"]

# errors that are followed by a warning about a URI template
DROPPED = ["# API\n\n# Data Structures\n\n## P (Q)\n\n+ a\n\n## Q (P)\n\n+ b\n\n# GET /{c-d}\n\n+ Response 200\n",
           "# API\n\n# Data Structures\n\n## P\n\n+ a (Missing)\n\n# GET /{c-d}\n\n+ Response 200\n"]


def judge(ck, case, r, doc):
    if case[2] == "mixed":      # a circle of inclusion and membership, which is refused (fixture circular/mixed) in whatever order
        ck.saw("orders")
        if r.rc != 4 or not any("circular" in a["content"] for a in apie.annotations(doc)):
            bad(ck, "accepted:mixed", case, "code %d, annotations %s" % (r.rc, [a["content"] for a in apie.annotations(doc)]))
        return
    if case[2] == "dropped":
        if r.rc != 4 or sum("error" in apie.classes(a) for a in apie.annotations(doc)) != 1:
            bad(ck, "accepted:dropped", case, "code %d, annotations %s" % (r.rc, [a["content"] for a in apie.annotations(doc)]))
        return
    mode, types, names = case[2]
    ck.saw("documents_" + mode)
    notes = [(apie.classes(a)[0], apie.content(apie.attr(a, "code")), a["content"]) for a in apie.annotations(doc)]
    errors = [x for x in notes if x[0] == "error"]
    hard, soft = circles(types)
    if mode in ("cycle", "undefined", "twice"):
        says = {"cycle": "circular", "undefined": "is not defined", "twice": "more than once"}[mode]
        if r.rc != 4 or len(errors) != 1 or errors[0][1] != 4 or says not in errors[0][2] and not (soft and "circular" in errors[0][2]):
            bad(ck, "accepted:" + mode, case, "code %d, annotations %s" % (r.rc, notes))
        return
    if soft or hard:
        refused = r.rc == 4 and len(errors) == 1 and "circular" in errors[0][2]
        if hard and not refused:
            bad(ck, "accepted:circular", case, "code %d, annotations %s" % (r.rc, notes))
        if refused:
            ck.saw("circular_by_use")
            return
    world = render.World(types)
    want = {}
    try:
        for x in names:
            want[x] = world.full(node(x))
    except render.Circular as e:
        ck.saw("circular_by_use_accepted")
        return
    if notes or r.rc:
        return bad(ck, "annotation", case, "code %d, annotations %s" % (r.rc, notes))
    got = mson.read_structures(doc)
    m = pipeline.diff(got, types)
    if m:
        bad(ck, "types", case, m)
    rand = random.Random(case[0])
    k = 0
    for e, _, _ in apie.walk(doc):
        if e["element"] != "httpResponse":
            continue
        x = names[k]
        k += 1
        ck.saw("uses")
        v = apie.read(apie.only(e, "asset", "messageBody")[0]["content"].encode())
        text = apie.only(e, "asset", "messageBodySchema")[0]["content"]
        s = apie.read(text.encode())
        schema.check(s)
        expect = world.value(want[x])
        m = pipeline.diff(c10.plainly(v), c10.plainly(expect))
        if m:
            bad(ck, "body", case, "%s: %s in %s" % (x, m, v))
        elif list(c10.flat(v)) != list(c10.flat(expect)):
            bad(ck, "body-order", case, "%s: %s instead of %s" % (x, v, expect))
        for i, y in enumerate([v] + list(render.near(v, rand, 6))):
            a, b = world.admits(want[x], c10.plainly(y)), schema.valid(c10.plainly(s), c10.plainly(y))
            ck.saw("judged_open" if a is None else "judged_valid" if a else "judged_invalid")
            if a is not None and a != b:
                bad(ck, "schema-%s-%s" % ("refuses" if a else "accepts", "body" if not i else "value"), case, "%s: %s: schema %s" % (x, y, text))
    if k != len(names):
        bad(ck, "responses", case, "%d instead of %d" % (k, len(names)))


def main():
    ck = common.Check("C11")
    ck.rule = ("named types that inherit, include, override and refer to each other, in any order of definition, are used as attributes; what is inherited is observed in the bodies and schemas "
               "generated from them, and compared with a model; circles and missing types must be refused; distinct: outputs")
    ck.assumptions = pipeline.ASSUMED

    def cases():
        for i, t in enumerate(MIXED):
            for j, m in enumerate(("a (Q)", "a (array[Q])", "a (enum[Q])")):
                yield "mixed-%s-%d" % (["before", "after"][i], j), (t % m).encode(), "mixed"
        for i, t in enumerate(DROPPED):
            yield "dropped-%s" % ("circle", "missing")[i], t.encode(), "dropped"
        for i in range(n(1200, 40000)):
            g = Types("c11-%d/%d" % (common.SEED, i))
            t, types = g.document()
            yield "types-%d" % i, t.encode(), (g.mode, types, g.names)

    def oracle(case, r):
        ck.mark(hash(r.jsonsm))
        try:
            judge(ck, case, r, apie.read(r.jsonsm))
        except (gen.Unread, render.Skip, apie.Malformed, schema.Bad) as e:
            bad(ck, "unread", case, str(e))
    pipe.Pool(ck).run(cases(), pipe.JSON_SM, oracle)
    ck.require(documents_sound=400, documents_cycle=50, documents_undefined=50, documents_twice=50, uses=3000, judged_valid=3000, judged_invalid=3000)
    ck.finish()
