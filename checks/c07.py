import random, re
import apie, common, corpus, gen, mson, pipe, pipeline, written
from pipeline import n, bad

# a heading by its underline right after text of the same paragraph: the stand-in for the Markdown parser gives both one range
RUNNING = re.compile(r"[^\n]\n[ \t]*[^\s][^\n]*\n[ \t]*(=+|-+)[ \t]*(\n|$)")
CONSECUTIVE = "is expected to be a pre-formatted code block"


def ranges(ck, case, r, doc):
    """What holds of every source map of every document."""
    src = case[1].split(b"\0")[0]
    chars = src.decode()
    lines = [0] + [i + 1 for i, c in enumerate(chars) if c == "\n"]
    ascii_ = len(chars) == len(src)
    for e, path, up in apie.walk(doc):
        sm = apie.source_maps(e)
        note = e["element"] == "annotation"
        if sm is None:
            continue
        if note:
            what = e["content"]
            size = len(chars)
            ck.saw("places_of_annotations", len(sm))
            key = "annotation:"
            if CONSECUTIVE in what:
                key = "annotation-of-code-block:"
        else:
            what = path
            size = len(src)
            ck.saw("ranges", len(sm))
            key = "element:"
        if not sm and not note:
            bad(ck, key + "empty", case, "%s has an empty source map" % what)
        for a, l in sm:
            if a + l > size:
                k = key + "bounds"
                if note and not ascii_ and a + l <= len(src):
                    k = "annotation:in-bytes"
                bad(ck, k, case, "%s: (%d, %d) in a source of %d" % (what, a, l, size))
            elif l == 0 and not note:
                bad(ck, key + "nothing", case, "%s: (%d, %d)" % (what, a, l))
            elif not note and not ascii_ and (src[a] & 0xc0 == 0x80 or a + l < size and src[a + l] & 0xc0 == 0x80):
                bad(ck, key + "character", case, "%s: (%d, %d) breaks a character" % (what, a, l))
        for (a, l), (b, m) in zip(sm, sm[1:]):
            if b < a + l and not RUNNING.search(chars):
                bad(ck, key + "order", case, "%s: %s" % (what, sm))
                break
        if note:
            positions(ck, case, e, lines, chars)
        elif isinstance(e.get("content"), (str, int)) and not isinstance(e["content"], bool):
            t = b"".join(src[a:a + l] for a, l in sm).decode("utf-8", "replace")
            at = 0
            for w in re.findall(r"\w{2,}", str(e["content"])):
                k = t.find(w, at)
                if k < 0:
                    bad(ck, "text:" + re.sub(r"\[?\d+\]?", "", path.split("/")[-1]), case, "%s is %r, its place is %r" % (path, e["content"], t))
                    break
                at = k + len(w)
            else:
                ck.saw("texts_in_place")


def positions(ck, case, e, lines, chars):
    import bisect
    for m in apie.attr(e, "sourceMap")["content"]:
        for x in m["content"]:
            a, l = x["content"]
            first, end = a["content"], a["content"] + l["content"]
            got = [apie.content(apie.attr(y, k)) for y in (a, l) for k in ("line", "column")]
            if end > len(chars) or not l["content"]:
                continue
            k = bisect.bisect_right(lines, first)
            want = [k, first - lines[k - 1] + 1]
            k = bisect.bisect_left(lines, end)
            want += [k, end - lines[k - 1]]
            if end > lines[-1]:
                want[2:] = [len(lines), 1]  # as the repository's fixtures have it
            ck.saw("positions")
            if got != want:
                bad(ck, "position", case, "%s: %s at (%d, %d) instead of %s" % (e["content"], got, first, l["content"], want))


def tight(ck, case, doc):
    """What is written next to an element does not belong to its place: of descriptions generated by gen.py."""
    src = case[1]
    for e, path, up in apie.walk(doc):
        sm = apie.source_maps(e)
        if sm is None:
            continue
        t = b"".join(src[a:a + l] for a, l in sm).decode("utf-8", "replace")
        c = e.get("content")
        if e["element"] == "copy":
            ok = t.split() == c.split()
        elif e["element"] == "asset":
            ls = [l.split() for l in t.split("\n") if l.strip() and not re.match(" *(```|~~~)", l)]
            ok = ls and ls == [l.split() for l in c.split("\n") if l.strip()]
        elif "/attributes.metadata/" in path:   # the place of all metadata
            ok = src.startswith(t.encode())
        elif path.endswith("meta.description"):
            ok = len([l for l in t.split("\n") if l.strip()]) <= 1 + c.count("\n")
        else:
            ls = [l for l in t.split("\n") if l.strip()]
            ok = len(ls) == 1 or len(ls) == 2 and not ls[1].strip("=- ")
            if "/attributes.hrefVariables/" in path:    # the line of a parameter may run on
                more = c.count("\n") if isinstance(c, str) else 0
                ok = ok or len(ls) <= max(2, 1 + more) and all(l.strip()[0] not in "+-*" for l in ls[1:])
            if re.search(r"/attributes\.headers/\[?\d+\]?$", path) and e["element"] == "member":
                k, v = (c.get(x, {}).get("content") or "" for x in ("key", "value"))
                ok = ok and v in t and (k in t or k == "Content-Type")
                ck.saw("headers_placed")
        ck.saw("places_tight")
        if not ok:
            bad(ck, "loose:" + re.sub(r"\[?\d+\]?", "", path.split("/")[-1]), case, "%s: the place of %.300r is %.300r" % (path, c, t))


ALWAYS = re.compile(r"(meta\.(id|description)|attributes\.(href|method|statusCode|relation)|attributes\.(headers|metadata)/\[?\d+\]?|attributes\.enumerations/\[?\d+\]?)$")


def present(ck, case, doc):
    """What has a place always has one: of documents generated by gen.py and mson.py."""
    for e, path, up in apie.walk(doc):
        c = e.get("content")
        headers = re.search(r"attributes\.(headers|metadata)/", path)
        if ALWAYS.search(path):
            must = c is not None
        elif path.endswith("meta.title"):
            must = bool(c)
        elif path.endswith("/key"):
            must = not headers
        elif path.endswith("/value"):
            must = not headers and (case[0].startswith("ds-") or c is not None and "hrefVariables" not in path)
        else:
            must = e["element"] in ("copy", "httpResponse")
        if must:
            ck.saw("places_expected")
            if not apie.source_maps(e):
                bad(ck, "no-place:" + re.sub(r"\[?\d+\]?", "", "/".join(path.split("/")[-2:])), case, "%s, %.200r, has no place" % (path, c))


BACK = {ord(c): chr(97 + i) for a in gen.ALPHA.values() for i, c in enumerate(a)}


def plain(doc, src):
    """The document with all letters in ASCII and all ranges of elements in characters."""
    index, at = {}, 0
    for i, c in enumerate(src.decode()):
        index[at] = i
        at += len(c.encode())
    index[at] = len(index)

    def conv(x, inside=False):
        if isinstance(x, list):
            return [conv(y, inside) for y in x]
        if isinstance(x, str):
            return x.translate(BACK)
        if isinstance(x, dict):
            if x.get("element") == "sourceMap":
                out = []
                for y in x["content"]:
                    a, l = [z["content"] for z in y["content"]]
                    out.append((index.get(a, "inside %d" % a), index.get(a + l, "inside %d" % (a + l))))
                return out
            return {k: conv(v) for k, v in x.items()}
        return x
    return conv(doc)


def shifted(x, start, k):
    """The document with all ranges as they are when the first word, which begins at start, is longer by k."""
    if isinstance(x, list):
        return [shifted(y, start, k) for y in x]
    if isinstance(x, tuple):
        return tuple(v + k if isinstance(v, int) and v > start else v for v in x)
    if isinstance(x, dict):
        return {a: shifted(b, start, k) for a, b in x.items()}
    return x


def main():
    ck = common.Check("C07")
    ck.rule = ("every source map of fixtures, mutants and extreme documents is compared with the source: bounds, order, the words of the element's text; of generated descriptions "
               "also that nothing else is in it, and that it moves with the text when letters become wider or a word longer; distinct: outputs")
    ck.assumptions = pipeline.ASSUMED + ["ranges of elements count bytes, as they are declared in BlueprintSourcemap.h; ranges of annotations count characters",
                                         "documents that are not valid UTF-8 are left out"]
    p = pipe.Pool(ck)
    N = n(330, 12000)
    ref = {}

    def any_docs():
        for f in corpus.fixtures():
            yield f
        for x in corpus.shapes(n(60, 1500), "c07-%d" % common.SEED):
            yield x
        for x in corpus.mutants(n(700, 25000), "c07-%d" % common.SEED):
            yield x
        for x in written.documents(n(800, 20000), "c07-%d" % common.SEED):
            yield x

    def docs():
        for x in any_docs():
            if apie.is_utf8(x[1].split(b"\0")[0]):
                yield x
        for i in range(N // 2):
            yield "ds-%d" % i, mson.Mson("c07-%d/%d" % (common.SEED, i), random.Random(i).choice(["ascii", "two", "three", "four"]), rich="more").structures()[0].encode()
        for i in range(N):
            for k, (alpha, stretch) in enumerate((("ascii", 0), (random.Random(i).choice(["two", "three", "four"]), 0), ("ascii", 1 + i % 7))):
                yield "api-%d-%d" % (i, k), gen.Gen("c07-%d/%d" % (common.SEED, i), alphabet=alpha, stretch=stretch).api()[0].encode(), i, k, stretch

    def oracle(case, r):
        doc = apie.read(r.jsonsm)
        ck.saw("documents")
        ck.mark(hash(r.jsonsm))
        ranges(ck, case, r, doc)
        if len(case) > 2 or case[0].startswith("ds-"):
            present(ck, case, doc)
        if len(case) > 2:
            tight(ck, case, doc)
            _, src, i, k, stretch = case
            d = ref.setdefault(i, {})
            d[k] = (plain(doc, src), src, stretch)
            if len(d) == 3:
                compare(case, *[d[j] for j in range(3)])
                ref[i] = None

    def compare(case, a, wide, longer):
        ck.saw("triples")
        if a[0] != wide[0]:
            bad(ck, "wide-letters", (case[0], wide[1]), pipeline.diff(wide[0], a[0]))
        # the first word is the first thing in which the texts differ
        k = longer[2]
        at = next((i for i in range(len(a[1])) if a[1][i] != longer[1][i]), len(a[1]))
        want = shifted(a[0], at - 1, k)
        if blank(longer[0], 3, k) != blank(want, 0, 0):
            bad(ck, "longer-word", (case[0], longer[1]), pipeline.diff(blank(longer[0], 3, k), blank(want, 0, 0)))

    def blank(x, *a):
        """Without the description that holds the longer word."""
        y = dict(x, content=list(x["content"]))
        api = dict(y["content"][0], content=list(y["content"][0]["content"]))
        api["content"][0] = dict(api["content"][0], content=None)
        y["content"][0] = api
        return y

    p.run(docs(), pipe.JSON_SM, oracle)
    ck.require(documents=1500, ranges=10000, positions=300, texts_in_place=8000, triples=N, places_tight=5000, places_expected=10000)
    ck.finish()
