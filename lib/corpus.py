"""Hostile documents: the repository's own blueprints, mutated and spliced."""
import glob, os, random
import build

TOKENS = [t.encode("latin-1") for t in (
    "# Group A\n", "# Data Structures\n", "## B (A)\n", "# GET /a/{id}\n", "## X [/x{?a,b*}]\n", "### Get [GET]\n",
    "+ Response 200 (application/json)\n", "+ Request (text/plain)\n", "+ Attributes\n", "+ Attributes (A)\n",
    "    + Attributes (array[A])\n", "+ Parameters\n", "    + id: 1 (number, required) - d\n", "+ Headers\n\n        X-A: 1\n",
    "+ Body\n\n        {}\n", "+ Schema\n\n        {}\n", "+ Model\n", "    + Sample: a, b\n", "    + Default: x\n", "    + Members\n",
    "    + Items\n", "    + Properties\n", "    + One Of\n", "    + Include A\n", "    + a (A)\n", "    + a (array[B, string], fixed)\n",
    "    + e (enum[string])\n        + x\n        + y\n", "    + *v (A)*: 1\n", "    + n: 1 (number, nullable, fixed-type)\n",
    "+ Relation: r\n", "FORMAT: 1A\n", "HOST: http://x/\n", "    ", "        ", "\t", "\n", "\n\n", "\r\n", "\r", "`", "```\n", "---\n", "===\n",
    "***", "*", "_", "<b>", "&amp;", "\\", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc3", "\xff", "\x80", "\x00", "(", ")", "[", "]",
    "{", "}", ",", ":", "-", "+", "#", "{?a,b}", "{#f}", "{+p}", "{?a*}", "> ", "1. ", "| a | b |\n|---|---|\n", "[A][]\n", "![x](y)", "[x]: http://y\n",
    "(object, required)", "(A)", "(array[A])", "(enum)", "(A, sample, default)", ": 1, 2", " - desc", "extend", "import", "A B C", "+ Values\n", "\v", "\f")]


def fixtures():
    out = []
    for f in sorted(glob.glob(build.REPO + "/packages/**/*.apib", recursive=True)):
        b = open(f, "rb").read()
        if len(b) < 20000:
            out.append((os.path.relpath(f, build.REPO), b))
    # a few built in, so that the workload does not depend on the fixtures alone
    out += [("builtin-%d" % i, x) for i, x in enumerate(BUILTIN)]
    return out


BUILTIN = [b"""FORMAT: 1A
HOST: https://api.example.com/v1
X-Custom: a: b

# Example API
Some *description* with `code` and \xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80.

+ a list
    + nested

# Group Users
Users of the system.

## User [/users/{id}{?page,limit*}]
A user.

+ Parameters
    + id: 42 (number, required) - the id
    + page: 1 (number, optional) - page
        + Default: 1
    + limit (enum[string])
        + Members
            + `a`
            + b

+ Model (application/json)

        {"id": 1}

+ Attributes (User)

### Retrieve [GET]
+ Relation: self
+ Request Name (application/json; charset=utf-8)
    + Headers

            X-A: 1
            Accept: */*

    + Attributes
        + q: s (required)
+ Response 200
    [User][]

### Delete it [DELETE /users/{id}]
+ Response 204

# Data Structures

## Base (object)
+ id: 1 (number, required)
+ *rel (string)*: v

## User (Base)
+ name: Bob (fixed) - the name
    + Sample: Eve
    + Default: Al
+ tags: a, b (array, fixed-type)
+ kind (enum)
    + x
    + y (Other)
+ Include Mix
+ One Of
    + a: 1
    + Properties
        + b
        + c (boolean, nullable)
+ friends (array[User])

## Mix
+ m (object)
    + deep: 1, 2, 3 (array[number])

## Other (enum[number])
+ 1
+ 2
""", b"""# My API
## Message [/message]
+ Model (text/plain)

        Hello

### Get [GET]
+ Response 200

    [Message][]

### Put [PUT]
+ Request

    [Message][]

+ Response 204
"""]


def mutants(n, seed, base=None):
    """n deterministic (name, bytes)."""
    fx = base or fixtures()
    for i in range(n):
        r = random.Random("%s/%s" % (seed, i))
        name, d = r.choice(fx)
        for _ in range(r.choice([1, 1, 2, 3, 5, 9])):
            d = mutate(r, d, fx)
        yield "mutant-%d of %s" % (i, name), d[:24000]


WIDE = ["\u00e9", "\u0436", "\u0141", "\u6f22", "\u20ac", "\u2019", "\u2028", "\ufeff", "\u00a0", "\U0001f600", "\U0010ffff", "\u0301"]


def wide(n, seed):
    """n valid UTF-8 documents with characters of several bytes put inside the lines of others."""
    fx = []
    for name, d in fixtures() + [("builtin-%d" % i, b) for i, b in enumerate(BUILTIN)]:
        try:
            fx.append((name, d[:12000].decode("utf-8")))
        except UnicodeDecodeError:
            pass
    for i in range(n):
        r = random.Random("wide/%s/%s" % (seed, i))
        name, d = r.choice(fx)
        lines = d.split("\n")
        for _ in range(r.choice([1, 2, 5, 20, 60])):
            j = r.randrange(len(lines))
            if r.random() < .4:     # where there is a URI template, a header, a type or a code span
                j = r.choice([k for k, x in enumerate(lines) if "{" in x or "(" in x or "`" in x or ":" in x] or [j])
            l = lines[j]
            p = r.randrange(len(l) + 1)
            if "{" in l and r.random() < .5:
                p = r.choice([k for k in range(len(l)) if l.count("{", 0, k + 1) > l.count("}", 0, k + 1)]) + 1
            elif r.random() < .6:     # inside of a line, rather than before it or in its markup
                w = [k for k in range(len(l)) if l[k].isalnum() or l[k] in "{[(`:"]
                p = r.choice(w) + 1 if w else p
            lines[j] = l[:p] + r.choice([""] * 6 + ["%", "%4", "\\", "&", "`", ":", ".", "(", "..", ","]) + r.choice(WIDE) * r.choice([1, 1, 1, 2, 5]) + l[p + (r.random() < .3):]
        yield "wide-%d of %s" % (i, name), "\n".join(lines).encode("utf-8")


def mutate(r, d, fx):
    k = r.randrange(14)
    n = len(d)
    p = r.randrange(n + 1)
    if k == 0 and n:     # flip a byte
        return d[:p - 1] + bytes([r.randrange(256)]) + d[p:] if p else d
    if k == 1:           # delete a span
        return d[:p] + d[p + r.choice([1, 2, 5, 20, 80]):]
    if k in (2, 3, 4):   # insert tokens
        return d[:p] + b"".join(r.choice(TOKENS) for _ in range(r.choice([1, 1, 2, 4]))) + d[p:]
    if k == 5:           # truncate
        return d[:p]
    if k == 6:           # duplicate a span
        q = min(n, p + r.choice([5, 30, 200]))
        return d[:q] + d[p:q] + d[q:]
    lines = d.split(b"\n")
    i = r.randrange(len(lines))
    if k == 7:           # swap lines
        j = r.randrange(len(lines))
        lines[i], lines[j] = lines[j], lines[i]
    elif k == 8:         # indent or dedent
        lines[i] = b"    " + lines[i] if r.random() < .5 else lines[i][4:]
    elif k == 9:         # insert a token line
        lines.insert(i, r.choice(TOKENS).rstrip(b"\n"))
    elif k == 10:        # splice a chunk of another document
        o = r.choice(fx)[1].split(b"\n")
        j = r.randrange(len(o))
        lines[i:i] = o[j:j + r.choice([1, 3, 10, 30])]
    elif k == 11:        # drop lines
        del lines[i:i + r.choice([1, 2, 5])]
    elif k == 12:        # token into a line
        l = lines[i]
        q = r.randrange(len(l) + 1)
        lines[i] = l[:q] + r.choice(TOKENS).rstrip(b"\n") + l[q:]
    else:                # rename an identifier everywhere
        w = [x for x in d.replace(b"(", b" ").replace(b")", b" ").split() if x.isalnum()]
        if w:
            return d.replace(r.choice(w), r.choice(w))
    return b"\n".join(lines)


def pack(path, docs):
    import struct
    with open(path, "wb") as f:
        for d in docs:
            f.write(struct.pack("<I", len(d)) + d)
    return path


def shapes(n, seed):
    """n documents that are large or deep in one respect."""
    for i in range(n):
        r = random.Random("shape/%s/%s" % (seed, i))
        yield "shape-%d" % i, shape(r)


def shape(r):
    k = r.randrange(17)
    n = r.choice([3, 10, 30, 60])
    if k == 0:      # deep lists
        return b"# A\n" + b"".join(b"    " * j + b"+ x\n" for j in range(n))
    if k == 1:      # deep members
        return b"# Data Structures\n## A\n" + b"".join(b"    " * j + b"+ m%d (object)\n" % j for j in range(n // 2))
    if k == 2:      # deep quotes
        return b"".join(b"> " * j + b"x\n\n" for j in range(n // 2))
    if k == 3:      # a long chain of types, in either order
        c = [b"## T%d (T%d)\n+ m%d\n\n" % (j, j + 1, j) for j in range(n)] + [b"## T%d\n+ last: 1 (number)\n\n" % n]
        if r.random() < .5:
            c.reverse()
        return b"# GET /\n+ Response 200 (application/json)\n    + Attributes (T0)\n\n# Data Structures\n" + b"".join(c)
    if k == 4:      # a ring of types, by base, member, mixin or item
        how = [b"## T%d (T%d)\n+ m%d\n\n", b"## T%d\n+ m (T%d)\n+ n%d\n\n", b"## T%d\n+ Include T%d\n+ m%d\n\n", b"## T%d (array[T%d])\n+ m%d\n\n",
               b"## T%d\n+ m (array[T%d], fixed)\n+ n%d\n\n", b"## T%d\n+ One Of\n    + a (T%d)\n    + n%d\n\n", b"## T%d (enum[T%d])\n+ n%d\n\n"]
        m = r.choice([1, 2, 3, 7])
        return b"# GET /\n+ Response 200 (application/json)\n    + Attributes (T0)\n\n# Data Structures\n" + b"".join(
            r.choice(how) % (j, (j + 1) % m, j) for j in range(m))
    if k == 5:      # wide object
        return b"# Data Structures\n## A\n" + b"".join(b"+ m%d: %d (number)\n" % (j, j) for j in range(n * 10))
    if k == 6:      # many resources and actions
        return b"".join(b"## R%d [/r%d/{a%d}]\n### G [GET]\n+ Response 200\n\n### P [PUT]\n+ Request\n\n        x\n\n+ Response 204\n\n" % (j, j, j) for j in range(n))
    if k == 7:      # a long line
        return b"# A\n" + r.choice([b"a", b"*", b"[", b"`", b"&", b"<", b"\\", b"\xc3\xa9", b"(", b"_a", b"![", b"|"]) * r.choice([100, 1000, 4000])
    if k == 8:      # a long token somewhere in MSON
        t = r.choice([b"a", b"`", b"(", b")", b"*", b",", b"[", b"]", b"\\", b"'", b"\xe2\x82\xac"]) * r.choice([50, 500, 3000])
        return b"# GET /\n+ Response 200 (application/json)\n    + Attributes\n        + " + r.choice([b"%s", b"a: %s", b"a (%s)", b"a: 1 (array[%s])", b"a - %s", b"*%s*"]) % t + b"\n"
    if k == 9:      # a long URI template
        t = r.choice([b"{", b"}", b"{?a", b"{a}", b"%", b"%41", b"{+a,b*}", b"/x", b"{a:3}", b"{&a}", b","]) * r.choice([5, 50, 300])
        return b"# A [/" + t + b"]\n## GET\n+ Response 200\n"
    if k == 10:     # a long header, media type or status
        t = r.choice([b"a", b";", b"=", b'"', b"\\", b"/", b" ", b"9", b"+"]) * r.choice([20, 200, 2000])
        return b"# GET /\n+ Response " + r.choice([b"200 (%s)", b"%s", b"200 (a/b; c=%s)", b"200\n    + Headers\n\n            A: %s", b"200\n    + Headers\n\n            %s"]) % t + b"\n"
    if k == 11:     # numbers
        v = r.choice([b"1e400", b"-1e400", b"1" * 400, b"0." + b"0" * 300 + b"1", b"-", b"-0", b"1e", b"0x1", b"+1", b".5", b"5.", b"1_0", b"NaN", b"Infinity", b"1,5", b"007"])
        return b"# GET /\n+ Response 200 (application/json)\n    + Attributes\n        + a: " + v + b" (number)\n        + b: " + v + b", " + v + b" (array[number])\n"
    if k == 12:     # blank and nearly blank
        return r.choice([b"", b"\n", b" ", b"#", b"+", b"#\n", b"# \n", b"+ \n", b"\n\n\n", b"\xef\xbb\xbf# A\n", b"A", b"A:", b": b", b"A: b", b"+ Response", b"# Group", b"# Data Structures", b"---", b"FORMAT: 1A"])
    if k == 13:     # the same name many times
        return b"# Data Structures\n" + b"## A\n+ m\n\n" * n + b"## B (A)\n" + b"+ Include A\n" * n
    if k == 14:     # many parameters
        ps = [b"p%d" % j for j in range(n)]
        return b"# A [/{?" + b",".join(ps) + b"}]\n+ Parameters\n" + b"".join(b"    + %s: 1 (number)\n" % p for p in reversed(ps)) + b"## GET\n+ Response 200\n"
    if k == 15:     # cut in the middle of a construct
        b = r.choice(BUILTIN)
        return b[:r.randrange(len(b))] + r.choice([b"", b"`", b"(", b"{", b"[", b"    + ", b"\xc3"])
    # cut, then the rest at another depth
    b = r.choice(BUILTIN).split(b"\n")
    j = r.randrange(len(b))
    d = b" " * r.choice([1, 2, 3, 4, 8, 12])
    return b"\n".join(b[:j] + [d + l for l in b[j:]])
