// Lines and columns of ranges, and the printed reports, against counting in the
// plain text.
#include "vh.h"
#include <algorithm>
#include <sstream>
#include "SourceMapUtils.h"
#include "reporting.h"
#include "refract/Element.h"
#include "refract/Utils.h"
using vh::Case;
using namespace drafter;
using namespace refract;

namespace
{
    struct Text {
        std::string bytes;
        std::vector<std::string> chars;
        size_t newlines = 0;
        size_t lastStart = 0; // where the last line starts
    };

    Text makeText(Case& c)
    {
        static const char* const ch[] = { "a", " ", "#", "\r", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xe2\x80\xa8", "\xc2\x85", "\x0b" };
        Text t;
        int lines = c.rng.range(0, 6);
        for (int l = 0; l <= lines; l++) {
            int n = c.rng.range(0, 5);
            for (int i = 0; i < n; i++)
                t.chars.push_back(c.rng.pick(ch));
            if (l < lines) {
                t.chars.push_back("\n");
                t.newlines++;
                t.lastStart = t.chars.size();
            }
        }
        for (auto& s : t.chars)
            t.bytes += s;
        return t;
    }

    struct Pos {
        size_t line, column;
    };
    Pos at(const Text& t, size_t k) // of the k-th character
    {
        Pos p{ 1, 1 };
        for (size_t i = 0; i < k && i < t.chars.size(); i++) {
            if (t.chars[i] == "\n") {
                p.line++;
                p.column = 1;
            } else
                p.column++;
        }
        return p;
    }
    struct Span {
        Pos from, to;
        bool toKnown;
    };
    Span span(const Text& t, const mdp::Range& r)
    {
        Span s;
        s.from = at(t, r.location);
        size_t e = r.location + r.length;
        s.toKnown = true;
        if (!e)
            s.to = s.from;
        else if (e > t.lastStart) { // the end of the last line is not looked at
            s.to = Pos{ t.newlines + 1, 1 };
        } else
            s.to = at(t, e - 1);
        return s;
    }
    mdp::Range makeRange(Case& c, const Text& t)
    {
        size_t a = c.rng.below(t.chars.size() + 1);
        size_t n = c.rng.below(t.chars.size() - a + 1);
        return mdp::Range(a, n);
    }
    std::string text(const Span& s)
    {
        return "; line " + std::to_string(s.from.line) + ", column " + std::to_string(s.from.column) + " - line " + std::to_string(s.to.line) + ", column "
            + std::to_string(s.to.column);
    }

    void lines(Case& c)
    {
        Text t = makeText(c);
        c << vh::quote(t.bytes);
        auto idx = GetLinesEndIndex(t.bytes);
        c.eq(idx.size(), t.newlines + 1, "lines", "number of lines");
        size_t k = 0;
        for (size_t i = 0; i < t.chars.size(); i++)
            if (t.chars[i] == "\n") {
                k++;
                c.eq(idx[k], i + 1, "line-start", "start of line " + std::to_string(k + 1));
            }
        for (int i = 0; i < 8; i++) {
            mdp::Range r = makeRange(c, t);
            auto p = GetLineFromMap(idx, r);
            Span s = span(t, r);
            std::string where = "of " + std::to_string(r.location) + ":" + std::to_string(r.length);
            c.check(p.fromLine == s.from.line && p.fromColumn == s.from.column, "from",
                "begin " + where + " is line " + std::to_string(p.fromLine) + " column " + std::to_string(p.fromColumn) + ", expected" + text(s));
            c.check(p.toLine == s.to.line && p.toColumn == s.to.column, "to",
                "end " + where + " is line " + std::to_string(p.toLine) + " column " + std::to_string(p.toColumn) + ", expected" + text(s));
            c.saw("positions");
            if (t.newlines)
                c.mark(t.bytes + where);
        }
    }

    // ranges that lie outside of the text, and index of no lines
    void hostile(Case& c)
    {
        Text t = makeText(c);
        auto idx = c.rng.chance(10) ? NewLinesIndex() : GetLinesEndIndex(t.bytes);
        idx.shrink_to_fit();
        mdp::Range r(c.rng.below(t.chars.size() * 3 + 2), c.rng.below(t.chars.size() * 3 + 2));
        if (c.rng.chance(10))
            r.location = (size_t)-1 - c.rng.below(2);
        c << vh::quote(t.bytes) << " " << r.location << ":" << r.length;
        auto p = GetLineFromMap(idx, r);
        c.check(p.fromLine <= t.newlines + 1 && p.toLine <= t.newlines + 1, "within", "the lines are lines of the text");
        c.saw("hostile_positions");
        c.mark(t.bytes + std::to_string(r.location) + ":" + std::to_string(r.length));
    }

    struct Captured {
        std::ostringstream o;
        std::streambuf* old;
        Captured() : old(std::cerr.rdbuf(o.rdbuf())) {}
        ~Captured()
        {
            std::cerr.rdbuf(old);
        }
    };

    struct Note {
        int code = 0;
        std::string message;
        std::vector<mdp::Range> where;
    };
    Note makeNote(Case& c, const Text& t)
    {
        static const char* const msg[] = { "", "no response defined", "caf\xc3\xa9", "two\nlines", "a: b (5); line 1" };
        Note n;
        n.code = c.rng.range(0, 14);
        n.message = c.rng.pick(msg);
        int k = c.rng.range(0, 3);
        for (int i = 0; i < k; i++)
            n.where.push_back(makeRange(c, t));
        return n;
    }
    std::string places(const Note& n, const Text& t, bool byLine)
    {
        std::string o;
        for (size_t i = 0; i < n.where.size(); i++)
            o += byLine ? text(span(t, n.where[i]))
                        : std::string(i ? ";" : " :") + std::to_string(n.where[i].location) + ":" + std::to_string(n.where[i].length);
        return o;
    }
    snowcrash::SourceAnnotation real(const Note& n)
    {
        mdp::CharactersRangeSet s;
        for (auto& r : n.where)
            s.push_back(r);
        return snowcrash::SourceAnnotation(n.message, n.code, s);
    }
    std::string flat(const snowcrash::SourceAnnotation& a)
    {
        std::string o = std::to_string(a.code) + a.message;
        for (auto& r : a.location)
            o += " " + std::to_string(r.location) + ":" + std::to_string(r.length);
        return o;
    }
    std::string flat(const snowcrash::Report& r)
    {
        std::string o = flat(r.error);
        for (auto& w : r.warnings)
            o += "|" + flat(w);
        return o;
    }
    std::string line(const std::string& prefix, const Note& n, const Text& t, bool byLine)
    {
        std::string o = prefix;
        if (n.code)
            o += " (" + std::to_string(n.code) + ") ";
        if (!n.message.empty())
            o += " " + n.message;
        return o + places(n, t, byLine) + "\n";
    }

    void report(Case& c)
    {
        Text t = makeText(c);
        c << vh::quote(t.bytes);
        bool byLine = c.rng.chance(60);
        snowcrash::Report r;
        Note err;
        std::vector<Note> warn;
        int parts = c.rng.range(1, 3); // reports are put together
        for (int p = 0; p < parts; p++) {
            snowcrash::Report one;
            err = Note();
            if (c.rng.chance(40)) {
                err = makeNote(c, t);
                one.error = real(err);
            }
            int n = c.rng.range(0, 3);
            for (int i = 0; i < n; i++) {
                warn.push_back(makeNote(c, t));
                one.warnings.push_back(real(warn.back()));
            }
            std::string before = flat(one);
            r += one;
            c.check(flat(one) == before, "report-source", "appending a report leaves it alone");
        }
        c.eq(r.warnings.size(), warn.size(), "report-warnings", "number of warnings");
        c.eq(flat(r.error), flat(real(err)), "report-error", "error of the report");
        for (size_t i = 0; i < warn.size(); i++)
            c.eq(flat(r.warnings[i]), flat(real(warn[i])), "report-order", "warnings keep their order");
        std::string want = "\n";
        if (err.code == 0)
            want += "OK.\n";
        else
            want += line("error:", err, t, byLine);
        for (auto& w : warn)
            want += line("warning:", w, t, byLine);
        Captured cap;
        PrintReport(r, t.bytes, byLine);
        std::string got = cap.o.str();
        c.eq(got, want, "report", "printed report");
        c.saw("annotations", warn.size());
        c.mark(want);
    }

    std::unique_ptr<IElement> num(size_t v)
    {
        return from_primitive((uint64_t)v);
    }

    void result(Case& c)
    {
        Text t = makeText(c);
        c << vh::quote(t.bytes);
        bool byLine = c.rng.chance(60);
        int error = c.rng.chance(50) ? 0 : c.rng.range(1, 4);
        auto res = make_element<ArrayElement>();
        res->element("parseResult");
        std::string want = error ? "\n" : "\nOK.\n";
        int n = c.rng.range(0, 5);
        for (int i = 0; i < n; i++) {
            int what = (int)c.rng.below(10);
            if (what == 0) { // something else, with an annotation inside
                auto in = make_element<StringElement>("hidden");
                in->element("annotation");
                auto box = make_element<ArrayElement>(std::move(in));
                box->element("category");
                res->get().push_back(std::move(box));
                continue;
            }
            Note a = makeNote(c, t);
            auto e = make_element<StringElement>(a.message);
            e->element("annotation");
            std::string text;
            if (what != 1) {
                const char* cls = c.rng.chance(50) ? "warning" : "error";
                e->meta().set("classes", make_element<ArrayElement>(from_primitive(std::string(cls))));
                text += std::string(cls) + ": ";
            }
            if (what != 2) {
                e->attributes().set("code", num((size_t)a.code));
                text += "(" + std::to_string(a.code) + ")  ";
            }
            text += a.message;
            if (what != 3) {
                auto map = make_element<ArrayElement>();
                map->element("sourceMap");
                for (auto& r : a.where) {
                    auto loc = num(r.location);
                    auto len = num(r.length);
                    if (c.rng.chance(50)) {
                        loc->attributes().set("line", num(99));
                        len->attributes().set("column", num(99));
                    }
                    map->get().push_back(make_element<ArrayElement>(std::move(loc), std::move(len)));
                }
                e->attributes().set("sourceMap", make_element<ArrayElement>(std::move(map)));
                text += places(a, t, byLine);
            }
            want += text + "\n";
            res->get().push_back(std::move(e));
            c.saw("annotations");
        }
        Captured cap;
        PrintReport(res.get(), t.bytes, byLine, error);
        std::string got = cap.o.str();
        c.eq(got, want, "result-report", "printed report of a result");
        c.mark(want);
    }
}

int main(int argc, char** argv)
{
    return vh::run(argc, argv, { { "lines", 2, lines }, { "hostile", 1, hostile }, { "report", 2, report }, { "result", 2, result } });
}
