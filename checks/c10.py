import random, re
import apie, common, gen, mson, pipe, pipeline, render, schema
from pipeline import n, bad

TYPES = ["application/json"] * 6 + ["application/hal+json", "application/vnd.a.b+json", "application/json; charset=utf-8", "APPLICATION/JSON", "text/plain", "application/xml",
                                    "application/jsonx", "text/json", None]


def document(seed):
    """A description whose payloads have attributes: (text, types, [payload])."""
    g = mson.Mson(seed, rich="more")
    t, types = g.structures()
    r = g.r
    g.out = t.split("\n")
    uses = []
    action = None
    models = []

    def body_of(kind, name, ct, ds):
        """What a payload or model begins with."""
        g.line("+ %s%s%s" % (kind, " " + name if name else "", " (%s)" % ct if ct else ""))
        g.blank()
        if ds:
            w, ds = g.use()
            g.line("+ Attributes%s" % w[0], 1)
            for f in w[1]:
                f(2)
            g.blank()
        return ds or None
    while g.chance(.3):
        name, ct = g.a().capitalize(), r.choice(TYPES)
        g.line("# %s [/%s]" % (name, g.a()))
        g.blank()
        models.append((name, ct, body_of("Model", "", ct, True)))
    g.line("# %s /%s" % (r.choice(["POST", "PUT"]), g.a()))
    g.blank()
    if g.chance(.3):
        w, x = g.use()
        g.line("+ Attributes%s" % w[0])
        for f in w[1]:
            f(1)
        g.blank()
        action = x

    def payload(kind, name, may_have_none):
        ct = r.choice(TYPES)
        text = None
        if models and g.chance(.3):
            model, ct, ds = r.choice(models)
            body_of(kind, name, None, None)
            g.line("[%s][]" % model, 1)
            g.blank()
            uses.append(dict(kind="httpRequest" if kind == "Request" else "httpResponse", ct=ct, ds=ds, uses=ds, body=None, schema=None))
            return
        ds = body_of(kind, name, ct, not may_have_none or g.chance(.7))
        own = g.chance(.1)
        if own:
            text = g.a()
            g.line("+ Body", 1)
            g.blank()
            g.line(text, 3)
            g.blank()
        own_schema = None
        if g.chance(.4 if own else .1):
            own_schema = g.a()
            g.line("+ Schema", 1)
            g.blank()
            g.line(own_schema, 3)
            g.blank()
        if not own and may_have_none and ds is None and g.chance(.5):
            g.line("+ Body", 1)
            g.blank()
            text = g.a()
            g.line(text, 3)
            g.blank()
        uses.append(dict(kind="httpRequest" if kind == "Request" else "httpResponse", ct=ct, ds=ds, uses=ds or (action if kind == "Request" else None), body=text, schema=own_schema))
    code = 205
    for i in range(r.randint(2, 5)):
        if g.chance(.5):
            payload("Request", g.a(), action is not None)
        else:
            uses.append(None)
        code += 1
        payload("Response", str(code), False)
    while not g.out[-1]:
        g.out.pop()
    return "\n".join(g.out) + "\n", types, uses


def is_json(ct):
    return bool(ct and re.match(r"(?i)application/([^;+]*\+)?json\s*(;|$)", ct))


def plainly(v):
    """Without the end of lines that end strings."""
    if isinstance(v, str):
        return v.rstrip("\n")
    if isinstance(v, list):
        return [plainly(x) for x in v]
    if isinstance(v, dict):
        return {k: plainly(x) for k, x in v.items()}
    if isinstance(v, int) and not isinstance(v, bool):
        return float(v)
    return v


def judge(ck, case, doc, types, uses):
    world = render.World(types)
    r = random.Random(case[0])
    got = [e for e, _, _ in apie.walk(doc) if e["element"] in ("httpRequest", "httpResponse")]
    k = 0
    for e in got:
        u = uses[k]
        if u is None or e["element"] != u["kind"]:
            if u is None and e["element"] == "httpRequest":
                k += 1      # a transaction without a request
                continue
            return bad(ck, "payloads", case, "payload %d is %s instead of %s" % (k, e["element"], u))
        k += 1
        ck.saw("payloads")
        body, sch = apie.only(e, "asset", "messageBody"), apie.only(e, "asset", "messageBodySchema")
        read = [mson.read_type(x["content"]) for x in e["content"] if x["element"] == "dataStructure"]
        if read != ([u["ds"]] if u["ds"] else []):
            bad(ck, "attributes", case, pipeline.diff(read, [u["ds"]] if u["ds"] else []))
        made = u["uses"] is not None and is_json(u["ct"])
        for what, a, own in (("body", body, u["body"]), ("schema", sch, u["schema"])):
            if len(a) != (own is not None or made):
                bad(ck, what + "-count", case, "%s: %d of them" % (what, len(a)))
            elif own is not None and a[0]["content"].strip() != own:
                bad(ck, what + "-own", case, "%s is %r instead of %r" % (what, a[0]["content"], own))
        s = v = want = None
        if sch and u["schema"] is None:
            ck.saw("schemas")
            try:
                s = apie.read(sch[0]["content"].encode())
            except apie.Malformed as x:
                bad(ck, "schema-json", case, str(x))
            else:
                try:
                    schema.check(s)
                except schema.Bad as x:
                    s = bad(ck, "schema-invalid", case, "%s in %s" % (x, sch[0]["content"]))
        if u["uses"] is not None:
            whole = world.full(u["uses"])
            want = world.value(whole)
        if body and u["body"] is None:
            ck.saw("bodies")
            try:
                v = apie.read(body[0]["content"].encode())
            except apie.Malformed as x:
                bad(ck, "body-json", case, str(x))
                continue
            m = pipeline.diff(plainly(v), plainly(want))
            if m:
                bad(ck, "body", case, "%s in %s" % (m, body[0]["content"]))
            elif list(flat(v)) != list(flat(want)):
                bad(ck, "body-order", case, "%s instead of %s" % (v, want))
        if s is not None:
            base = want if v is None else v
            for i, x in enumerate([base] + list(render.near(base, r, 12))):
                a, b = world.admits(whole, plainly(x)), schema.valid(plainly(s), plainly(x))
                ck.saw("judged_open" if a is None else "judged_valid" if a else "judged_invalid")
                if a is not None and a != b:
                    bad(ck, "schema-%s-%s" % ("refuses" if a else "accepts", "body" if not i else "value"), case, "%s: schema %s" % (x, sch[0]["content"]))
    if k != len(uses):
        bad(ck, "payloads", case, "%d payloads instead of %d" % (k, len(uses)))


def flat(v):
    if isinstance(v, dict):
        for k, x in v.items():
            yield k
            yield from flat(x)
    elif isinstance(v, list):
        for x in v:
            yield from flat(x)


V = "# N\n\n# POST /a\n\n+ Response 200 (application/json)\n\n    + Attributes%s\n"
VARIABLE = [("alone", V % "" + "        + *k*: x\n        + *l*: y\n"), ("fixed", V % " (fixed)" + "        + *k*: x\n"), ("fixed-type", V % " (fixed-type)" + "        + *k*: x\n        + l: y\n"),
            ("besides", V % "" + "        + *k*: x\n        + l: 1 (number)\n"), ("and-fixed", V % " (fixed)" + "        + *k*: x\n        + l: y\n"),
            ("several", V % "" + "        + *k*: x\n        + *l*: 1 (number)\n"),
            ("choice", V % "" + "        + a: x\n        + One Of\n            + b: y\n            + c: z\n"),
            ("fixed-choice", V % " (fixed-type)" + "        + a: x\n        + One Of\n            + b: y (required)\n            + c: z (required)\n"),
            ("required-choice", V % "" + "        + a: x\n        + One Of\n            + b: y (required)\n            + c: z (required)\n"),
            ("typed-items", V % "" + "        + a (array, fixed)\n            + x\n            + (number)\n")]


def conforms(ck, case, doc):
    """The body conforms to the schema."""
    body, sch = [apie.read(a["content"].encode()) for c in ("messageBody", "messageBodySchema") for e, _, _ in apie.walk(doc) if e["element"] == "httpResponse" for a in apie.only(e, "asset", c)]
    ck.saw("variable")
    if not schema.valid(plainly(sch), plainly(body)):
        bad(ck, "schema-of-" + case[0], case, "%s: schema %s" % (body, sch))


SPECIAL = "^$+?.|{}[]()\\"
LITERALS = {"string": ["x", "y z", "7"], "number": [1, 2.5, 70], "boolean": [True, False]}


def literal(v):
    return "true" if v is True else "false" if v is False else str(v)


def variables(seed):
    """An object with variable property names of all kinds of letters: (text, what is in it, attribute of the object)."""
    r = random.Random(seed)
    whole = r.choice(["", "", "fixed", "fixed-type"])
    ms, lines = [], []
    for i in range(r.randint(1, 4)):
        var = r.random() < .8
        name = "".join(r.choice(SPECIAL.replace("(", "").replace(")", "") if var and r.random() < .4 else "abcdefg") for _ in range(r.randint(1, 5))) + "hijk"[i]
        name = re.sub(r"\\(?![a-z])", "", name)      # escapes what follows
        kind = r.choice(list(LITERALS))
        v = r.choice(LITERALS[kind])
        fixed = r.random() < .6
        required = not var and r.random() < .4
        ms.append((name, var, kind, v, fixed, required))
        lines.append("        + %s: %s (%s)" % ("*%s*" % name if var else name, literal(v), ", ".join([kind] + ["fixed"] * fixed + ["required"] * required)))
    return V % (" (%s)" % whole if whole else "") + "\n".join(lines) + "\n", ms, whole


def admitted(ms, whole, x):
    """Whether the object admits a value; None where names of properties meet each other."""
    open_ = False
    if not isinstance(x, dict):
        return False
    for k, v in x.items():
        own = [m for m in ms if not m[1] and m[0] == k]
        some = [m for m in ms if m[1] and not m[4]]
        this = [m for m in ms if m[1] and m[4] and m[0] == k]
        ok = lambda m, fixed: schema.TYPES[m[2]](v) and (not fixed or schema.same(m[3], v))
        if any(m[1] and m[4] and m[0] in k and m[0] != k for m in ms) or (own or this) and some or own and this:
            open_ = True
        elif own:
            if not ok(own[0], own[0][4] or whole == "fixed"):
                return False
        elif this:
            if not all(ok(m, True) for m in this):
                return False
        elif some:
            if not any(ok(m, False) for m in some):
                return False
        elif whole:
            return False
    if any(not m[1] and (m[5] or whole) and m[0] not in x for m in ms):
        return False
    return None if open_ else True


def enumerations(seed):
    """Enumerations of values, of types and of other enumerations: (text, [(name, what is in it)])."""
    r = random.Random(seed)
    out, made = ["# N", "", "# Data Structures", ""], []
    for i in range(r.randint(1, 4)):
        name, ms = "E" + "abcd"[i], []
        out += ["## %s (enum)" % name, ""]
        for _ in range(r.randint(1, 4)):
            k = r.randrange(6)
            kind = r.choice(list(LITERALS))
            if k < 3:
                v = r.choice(LITERALS[kind])
                if any(schema.same(x, v) for y, x in ms if y == "value"):
                    continue
                ms.append(("value", v))
                out.append("+ %s (%s)" % (literal(v), kind))
            else:
                new = ("type", kind) if k < 4 or not made else ("enum", r.choice(made))
                if new in ms:
                    continue
                ms.append(new)
                out.append("+ (%s)" % (new[1] if new[0] == "type" else new[1][0]))
        made.append((name, ms))
        out.append("")
    uses = []
    use = ["# POST /a", "", "+ Response 200 (application/json)", "", "    + Attributes (fixed-type)"]
    for i in range(r.randint(1, 3)):
        e, how = r.choice(made), r.choice(["plain", "plain", "nullable", "array"])
        uses.append(("u%d" % i, e, how))
        use.append("        + u%d (%s)" % (i, e[0] + ", nullable" if how == "nullable" else "array[%s], fixed-type" % e[0] if how == "array" else e[0]))
    return "\n".join(out[:2] + use + [""] + out[2:]) + "\n", uses


def enumerated(ms, v):
    return any(schema.same(x, v) if k == "value" else schema.TYPES[x](v) if k == "type" else enumerated(x[1], v) for k, x in ms)


def texts(doc):
    return [apie.read(a["content"].encode()) for c in ("messageBody", "messageBodySchema") for e, _, _ in apie.walk(doc) if e["element"] == "httpResponse" for a in apie.only(e, "asset", c)]


def compare(ck, case, sch, tried, admits):
    try:
        schema.check(sch)
    except schema.Bad as x:
        return bad(ck, "schema-invalid", case, "%s in %s" % (x, sch))
    for i, x in enumerate(tried):
        a, b = admits(x), schema.valid(plainly(sch), plainly(x))
        ck.saw("tried_open" if a is None else "tried_valid" if a else "tried_invalid")
        if a is not None and a != b:
            bad(ck, "%s-schema-%s-%s" % (case[0].split("-")[0], "refuses" if a else "accepts", "body" if not i else "value"), case, "%s: schema %s" % (x, sch))


def judge_variables(ck, case, doc, ms, whole):
    body, sch = texts(doc)
    want = {m[0]: m[3] for m in ms}
    if plainly(body) != plainly(want):
        bad(ck, "names-body", case, "%s instead of %s" % (body, want))
    r = random.Random(case[0])
    values = sum(LITERALS.values(), [])
    tried = [want]
    for _ in range(25):
        x = dict(want)
        for _ in range(r.choice([1, 1, 2])):
            k = r.choice(list(x) or ["z"])
            c = r.randrange(4)
            if c == 0:
                x.pop(k, None)
            elif c == 1:
                x[k] = r.choice(values)
            else:
                i = r.randrange(len(k))
                x[k[:i] + r.choice(["", "a", "aa", "+", k[i] * 2]) + k[i + 1:]] = x.pop(k, "x")
        tried.append(x)
    compare(ck, case, sch, tried, lambda x: admitted(ms, whole, x))


def judge_enumerations(ck, case, doc, uses):
    body, sch = texts(doc)

    def admits(x):
        for k, e, how in uses:
            v = x.get(k, "none")
            if k not in x or not (v is None if how == "nullable" and v is None else isinstance(v, list) and all(enumerated(e[1], y) for y in v) if how == "array" else enumerated(e[1], v)):
                return False
        return set(x) == set(k for k, _, _ in uses)
    r = random.Random(case[0])
    values = sum(LITERALS.values(), []) + [None, "other", 99, []]
    tried = [body]
    for _ in range(25):
        x = dict(body)
        k = r.choice([u for u in uses])
        x[k[0]] = r.choice(values) if k[2] != "array" or r.random() < .1 else [r.choice(values) for _ in range(r.randint(0, 2))]
        tried.append(x)
    compare(ck, case, sch, tried, admits)


def main():
    ck = common.Check("C10")
    ck.rule = ("data structures are generated together with what they mean and used as attributes of payloads; the bodies and schemas generated from them are compared with that meaning, "
               "and schemas applied to values near the body; distinct: outputs")
    ck.assumptions = pipeline.ASSUMED + ["what schemas say of choices (One Of) whose members are not required, of properties included in fixed objects and of fixed arrays with nested types is left open"]

    def cases():
        for i in range(n(1200, 40000)):
            t, types, uses = document("c10-%d/%d" % (common.SEED, i))
            yield "ds-%d" % i, t.encode(), (types, uses)
        for name, t in VARIABLE:
            yield "variable-" + name, t.encode(), None
        for i in range(n(300, 6000)):
            t, ms, whole = variables("c10-v-%d/%d" % (common.SEED, i))
            yield "names-%d" % i, t.encode(), (judge_variables, ms, whole)
            t, uses = enumerations("c10-e-%d/%d" % (common.SEED, i))
            yield "enums-%d" % i, t.encode(), (judge_enumerations, uses)

    def oracle(case, r):
        doc = apie.read(r.jsonsm)
        ck.mark(hash(r.jsonsm))
        for a in apie.annotations(doc):
            if a["content"] != "empty request message-body":    # true of those that get theirs from the action
                bad(ck, "annotation", case, "unexpected annotation: %s" % a["content"])
        if case[2] is None:
            return conforms(ck, case, doc)
        if callable(case[2][0]):
            return case[2][0](ck, case, doc, *case[2][1:])
        try:
            judge(ck, case, doc, *case[2])
        except (gen.Unread, render.Skip) as e:
            bad(ck, "unread", case, str(e))
    pipe.Pool(ck).run(cases(), pipe.JSON_SM, oracle)
    ck.require(payloads=3000, bodies=2000, schemas=2000, judged_valid=5000, judged_invalid=5000, tried_valid=2000, tried_invalid=2000)
    ck.finish()
