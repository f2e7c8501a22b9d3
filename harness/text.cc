// Matching of regular expressions, names of sections, traits of HTTP, and the
// helpers on texts, against plain models.
#include "vh.h"
#include "live.h"
#include <algorithm>
#include "RegexMatch.h"
#include "Section.h"
#include "HTTP.h"
#include "StringUtility.h"
using vh::Case;

namespace
{
    // Expressions are sequences of parts over letters of their own, so that
    // there is one way to match and it is known by construction.
    struct Made {
        std::string expr, target;
        std::vector<std::string> groups; // [0] the whole
        bool matches = true;
    };

    Made makeRegex(Case& c)
    {
        static const char* const junk[] = { "z", "  ", "\n", "9", "\xc3\xa9", ".", "(", "zz" };
        Made m;
        std::string whole;
        m.groups.emplace_back();
        int n = c.rng.range(1, 6);
        char letter = 'a';
        int mandatory = 0; // a part which has to be there
        std::vector<std::string> realized;
        std::vector<bool> required;
        for (int i = 0; i < n; i++) {
            std::string l(1, letter++), r;
            int kind = (int)c.rng.below(i ? 8 : 5);
            bool must = kind < 5;
            switch (kind) {
                case 0:
                    m.expr += l;
                    r = l;
                    break;
                case 1:
                    m.expr += "(" + l + "+)";
                    r = std::string((size_t)c.rng.range(1, 4), l[0]);
                    m.groups.push_back(r);
                    break;
                case 2: {
                    std::string k(1, letter++);
                    m.expr += "(" + l + "|" + k + k + ")";
                    r = c.rng.chance(50) ? l : k + k;
                    m.groups.push_back(r);
                    break;
                }
                case 3: {
                    std::string k(1, letter++);
                    m.expr += "[" + l + k + "]{2}";
                    r = (c.rng.chance(50) ? l : k) + (c.rng.chance(50) ? l : k);
                    break;
                }
                case 4: { // nested
                    std::string k(1, letter++);
                    m.expr += "(" + l + "(" + k + ")?)";
                    std::string in = c.rng.chance(50) ? k : "";
                    r = l + in;
                    m.groups.push_back(r);
                    m.groups.push_back(in);
                    break;
                }
                case 5:
                    m.expr += "(" + l + ")?";
                    r = c.rng.chance(50) ? l : "";
                    m.groups.push_back(r);
                    break;
                case 6:
                    m.expr += "(" + l + "*)";
                    r = std::string((size_t)c.rng.range(0, 3), l[0]);
                    m.groups.push_back(r);
                    break;
                case 7:
                    m.expr += "(" + l + "){0,2}";
                    r = std::string((size_t)c.rng.range(0, 2), l[0]);
                    m.groups.push_back(r.empty() ? r : l);
                    break;
            }
            mandatory += must;
            realized.push_back(r);
            required.push_back(must);
        }
        int breaking = c.rng.chance(30) ? (int)c.rng.below(3) : -1;
        if (breaking == 0) { // a part is missing
            size_t k = c.rng.below(realized.size());
            while (!required[k])
                k = (k + 1) % realized.size();
            realized[k].clear();
            m.matches = false;
        }
        for (size_t i = 0; i < realized.size(); i++) {
            whole += realized[i];
            if (breaking == 1 && i + 1 < realized.size() && required[i] && required[i + 1]) {
                whole += "z"; // something between two parts
                m.matches = false;
                breaking = -1;
            }
        }
        m.groups[0] = whole;
        std::string before, after;
        for (int i = c.rng.range(0, 2); i > 0; i--)
            before += c.rng.pick(junk);
        for (int i = c.rng.range(0, 2); i > 0; i--)
            after += c.rng.pick(junk);
        if (c.rng.chance(30)) {
            m.expr = "^" + m.expr;
            if (breaking == 2 && !before.empty())
                m.matches = false;
            else
                before.clear();
        }
        if (c.rng.chance(30)) {
            m.expr += "$";
            if (breaking == 2 && !after.empty())
                m.matches = false;
            else
                after.clear();
        }
        m.target = before + whole + after;
        return m;
    }

    void regex(Case& c)
    {
        Made m = makeRegex(c);
        c << vh::quote(m.target) << " =~ " << m.expr << (m.matches ? "" : " (no match)");
        if (m.target.empty())
            m.matches = false;
        c.eq(snowcrash::RegexMatch(m.target, m.expr), m.matches, "match", "match of " + m.expr);
        snowcrash::CaptureGroups g;
        if (c.rng.chance(50))
            g.assign(3, "what was in it before");
        size_t size = c.rng.chance(50) ? 8 : (size_t)c.rng.range(1, 14);
        bool def = size == 8;
        bool ok = def ? snowcrash::RegexCapture(m.target, m.expr, g) : snowcrash::RegexCapture(m.target, m.expr, g, size);
        c.eq(ok, m.matches, "capture", "match with groups of " + m.expr);
        if (ok) {
            c.eq(g.size(), size, "group-count", "number of groups");
            for (size_t i = 0; i < size; i++)
                c.eq(g[i], i < m.groups.size() ? m.groups[i] : std::string(), "group", "group " + std::to_string(i) + " of " + m.expr);
            c.saw("groups", size);
            c.saw("matches");
        } else if (!m.target.empty()) {
            c.check(g.empty(), "group-stale", "no groups are left when nothing matches");
            c.saw("mismatches");
        }
        c.eq(snowcrash::RegexCaptureFirst(m.target, m.expr), m.matches && m.groups.size() > 1 ? m.groups[1] : std::string(), "first", "first group of " + m.expr);
        c.mark(m.expr + m.target);
    }

    void refused(Case& c)
    {
        static const char* const bad[] = { "(", "[a", "(a", "a{1", "[[:foo:]]", "a\\", "a{2,1}", "[b-a]", "((a)" };
        std::string target = c.rng.chance(20) ? "" : "aab(";
        std::string expr = c.rng.chance(20) ? "" : c.rng.pick(bad);
        if (c.rng.chance(10)) {
            target = "";
            expr = "a*";
        }
        c << vh::quote(target) << " =~ " << expr;
        snowcrash::CaptureGroups g;
        c.check(!snowcrash::RegexMatch(target, expr), "refused", "nothing matches an expression which is none, or nothing");
        c.check(!snowcrash::RegexCapture(target, expr, g) && g.empty(), "refused", "nothing is captured by an expression which is none");
        c.check(snowcrash::RegexCaptureFirst(target, expr).empty(), "refused", "nothing is captured by an expression which is none");
        c.saw("refused");
        c.mark(target + "~" + expr);
    }

    void leak(Case& c)
    {
        Made m = makeRegex(c);
        std::string bad = "(" + m.expr + "[";
        c << m.expr;
        snowcrash::RegexMatch("a", "a"); // what the C library keeps for itself
        size_t size = (size_t)c.rng.range(1, 14);
        long before = vh::live();
        {
            snowcrash::CaptureGroups g;
            for (int i = 0; i < 3; i++) {
                snowcrash::RegexMatch(m.target, m.expr);
                snowcrash::RegexCapture(m.target, m.expr, g, size);
                snowcrash::RegexCapture("nothing of it", m.expr + "9", g, size);
                snowcrash::RegexMatch("nothing of it", m.expr + "9");
                snowcrash::RegexCapture(m.target, bad, g);
                snowcrash::RegexMatch(m.target, bad);
            }
        }
        c.eq(vh::live(), before, "leak", "live heap blocks after matching");
        c.saw("leak_checked");
    }

    void tables(Case& c)
    {
        using namespace snowcrash;
        static const std::map<int, std::string> names = { { ModelSectionType, "model" }, { ModelBodySectionType, "model" }, { RequestSectionType, "request" },
            { RequestBodySectionType, "request" }, { ResponseSectionType, "response" }, { ResponseBodySectionType, "response" }, { BodySectionType, "message-body" },
            { DanglingBodySectionType, "message-body" }, { SchemaSectionType, "message-schema" }, { DanglingSchemaSectionType, "message-schema" },
            { HeadersSectionType, "headers" }, { MSONMixinSectionType, "mixin" }, { MSONOneOfSectionType, "one of" } };
        int s = c.rng.range(UndefinedSectionType, MSONSectionType);
        auto it = names.find(s);
        c << "section " << s;
        c.eq(SectionName((SectionType)s), it == names.end() ? std::string("section") : it->second, "section", "name of section " + std::to_string(s));
        unsigned code = (unsigned)(c.rng.chance(50) ? c.rng.below(1200) : c.rng.pick({ 99u, 100u, 101u, 199u, 200u, 203u, 204u, 205u, 303u, 304u, 305u, 1000u, 1100u }));
        auto t = GetStatusCodeTrait(code);
        c.eq(t.code, code, "status", "status code");
        c.eq(t.allowBody, !(code == 204 || code == 304 || (code >= 100 && code < 200)), "status-body", "whether " + std::to_string(code) + " allows a body");
        static const char* const methods[] = { "GET", "HEAD", "POST", "CONNECT", "PUT", "", "head", "HEADS", "connect", "OPTIONS", "CONNECT ", "HEA" };
        std::string m = c.rng.pick(methods);
        auto mt = GetMethodTrait(m);
        c.eq(mt.method, m, "method", "method");
        c.eq(mt.allowBody, m != "HEAD" && m != "CONNECT", "method-body", "whether " + m + " allows a body");
        c.mark(std::to_string(s) + " " + std::to_string(code) + m);
        c.saw("table_lookups", 3);
    }

    // ------------------------------------------------------------------- texts

    std::string text(Case& c, int max = 12)
    {
        static const char* const p[] = { " ", "\t", "\n", "\r", "\v", "\f", "a", "b", "B", "`", "``", ",", ":", "\xc3\xa9", "\xa0", "x y", "#", "[", "]" };
        std::string s;
        for (int i = c.rng.range(0, max); i > 0; i--)
            s += c.rng.pick(p);
        return s;
    }
    bool space(char c)
    {
        return strchr(" \t\n\v\f\r", c) && c;
    }

    void strings(Case& c)
    {
        using namespace snowcrash;
        std::string s = text(c);
        c << vh::quote(s);
        size_t b = 0, e = s.size();
        while (b < e && space(s[b]))
            b++;
        while (e > b && space(s[e - 1]))
            e--;
        std::string t = s;
        c.eq(TrimString(t), s.substr(b, e - b), "trim", "trimmed text");
        t = s;
        size_t e0 = s.size();
        while (e0 > 0 && space(s[e0 - 1]))
            e0--;
        c.eq(TrimStringEnd(t), s.substr(0, e0), "trim-end", "text trimmed at its end");
        t = s;
        size_t b0 = 0;
        while (b0 < s.size() && space(s[b0]))
            b0++;
        c.eq(TrimStringStart(t), s.substr(b0), "trim-start", "text trimmed at its start");
        auto info = GetTrimInfo(s.cbegin(), s.cend());
        c.eq((size_t)std::get<0>(info), b0, "trim-info", "where the trimmed text begins");
        c.eq((size_t)std::get<1>(info), e > b0 ? e - b0 : 0, "trim-info", "how long the trimmed text is");

        char d = c.rng.pick({ ',', '\n', ':', ' ', '`' });
        auto parts = Split(s, d);
        std::vector<std::string> want;
        std::string cur;
        for (char k : s) {
            if (k == d) {
                want.push_back(cur);
                cur.clear();
            } else
                cur += k;
        }
        if (!cur.empty())
            want.push_back(cur);
        c.eq(parts.size(), want.size(), "split", "number of parts");
        for (size_t i = 0; i < want.size(); i++)
            c.eq(parts[i], want[i], "split", "part " + std::to_string(i));
        auto two = SplitOnFirst(s, d);
        size_t at = s.find(d);
        c.eq(two.size(), (size_t)(at == s.npos ? 1 : 2), "split-first", "number of parts");
        c.eq(two[0], s.substr(0, at), "split-first", "first part");
        if (at != s.npos)
            c.eq(two[1], s.substr(at + 1), "split-first", "second part");
        std::string rest = "before";
        size_t nl = s.find('\n');
        c.eq(GetFirstLine(s, rest), s.substr(0, nl), "first-line", "first line");
        c.eq(rest, nl == s.npos ? std::string("before") : s.substr(nl + 1), "first-line", "lines after the first");

        std::string f = c.rng.pick({ "a", "``", "\n", "x y", " ", "[]" }), r = c.rng.pick({ "", "b", "aa", "``", "<long replacement>" });
        std::string repl;
        for (size_t i = 0; i < s.size();) {
            if (s.compare(i, f.size(), f) == 0) {
                repl += r;
                i += f.size();
            } else
                repl += s[i++];
        }
        c.eq(ReplaceString(s, f, r), repl, "replace", "every " + vh::quote(f) + " replaced by " + vh::quote(r));

        {
            t = s;
            std::string w = s;
            while (w.size() < 2 || w[w.size() - 1] != '\n' || w[w.size() - 2] != '\n')
                w += '\n';
            c.eq(TwoNewLines(t), w, "newlines", "text that ends in an empty line");
        }

        std::string u = s;
        for (char& k : u)
            if (k >= 'a' && k <= 'z' && c.rng.chance(50))
                k = (char)(k - 32);
        c.check(IEqual<std::string>()(s, u), "iequal", "texts that differ in case: " + vh::quote(u));
        c.check(Equal<std::string>()(s, u) == (s == u), "equal", "texts that may differ in case");
        std::string o = text(c);
        auto low = [](std::string v) {
            for (char& k : v)
                if (k >= 'A' && k <= 'Z')
                    k = (char)(k + 32);
            return v;
        };
        c.eq(IEqual<std::string>()(s, o), low(s) == low(o), "iequal", "texts " + vh::quote(o));
        c.saw("texts");
        c.mark(s);
    }

    void escaped(Case& c)
    {
        using namespace snowcrash;
        std::string ticks((size_t)c.rng.range(1, 3), '`'), in, tail = text(c, 4), head = text(c, 3);
        head.erase(std::remove(head.begin(), head.end(), '`'), head.end());
        for (int i = c.rng.range(1, 4); i > 0; i--)
            in += c.rng.pick({ "a", " ", ":", "\xc3\xa9", "b c" });
        bool closed = c.rng.chance(85);
        if (!closed)
            tail.erase(std::remove(tail.begin(), tail.end(), '`'), tail.end());
        std::string s = head + ticks + in + (closed ? ticks : "") + tail;
        c << vh::quote(s);
        std::string t = s;
        bool strip = c.rng.chance(50);
        std::string got = RetrieveEscaped(t, head.size(), strip);
        if (!closed) {
            c.check(got.empty() && t == s, "unclosed", "text that is not closed is left alone: " + vh::quote(got) + vh::quote(t));
        } else {
            c.eq(got, strip ? in : ticks + in + ticks, "escaped", "escaped text");
            c.eq(t, strip ? ticks + tail : tail, "escaped-rest", "what is left after the escaped text");
            std::string q = ticks + in + ticks, k = q;
            size_t b = in.find_first_not_of(' '), e = in.find_last_not_of(' ');
            c.eq(StripBackticks(k), b == in.npos ? std::string() : in.substr(b, e - b + 1), "backticks", "text between backticks");
            std::string plain = in;
            c.eq(StripBackticks(plain), in, "backticks", "text without backticks");
        }
        c.saw("escaped");
        c.mark(s);
    }

    void links(Case& c)
    {
        using namespace snowcrash;
        static const char* const names[] = { "User", "My Type", "a/b", "x (y)", "caf\xc3\xa9", "1" };
        std::string n = c.rng.pick(names), l;
        std::string pad = c.rng.chance(50) ? " " : "";
        switch (c.rng.below(4)) {
            case 0:
                l = "[" + pad + n + pad + "][]";
                break;
            case 1:
                l = "[" + pad + n + pad + "][" + "ref" + "]";
                break;
            case 2:
                l = "[" + pad + n + pad + "](#anchor)";
                break;
            default:
                l = "[" + pad + n + pad + "]" + " [other]";
                break;
        }
        c << l;
        c.eq(StripMarkdownLink(l), n, "link", "name in the link " + l);
        c.eq(StripMarkdownLink(n), n, "no-link", "text that is no link");
        mdp::MarkdownNode h(mdp::HeaderMarkdownNodeType, nullptr, n, c.rng.range(1, 6));
        c.eq(ReconstructMarkdownHeader(h), std::string((size_t)h.data, '#') + n, "header", "header written again");
        mdp::MarkdownNode p(mdp::ParagraphMarkdownNodeType, nullptr, n, 2);
        c.eq(ReconstructMarkdownHeader(p), std::string(), "header", "what is no header");
        c.saw("links");
        c.mark(l);
    }
}

int main(int argc, char** argv)
{
    vh::countAllocations();
    return vh::run(argc, argv,
        { { "regex", 4, regex }, { "refused", 1, refused }, { "leak", 1, leak }, { "tables", 2, tables }, { "strings", 3, strings }, { "escaped", 2, escaped }, { "links", 1, links } });
}
