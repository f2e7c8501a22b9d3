// Media types: parsed, written and classified, against the values the texts were
// made from.
#include "vh.h"
#include <algorithm>
#include <sstream>
#include <apib/syntax/MediaType.h>
#include <apib/parser/MediaTypeParser.h>
#include "backend/MediaTypeS11n.h"
using vh::Case;
using apib::syntax::media_type;

namespace
{
    std::string show(const media_type& m)
    {
        std::string s = vh::quote(m.type) + "/" + vh::quote(m.subtype) + "+" + vh::quote(m.suffix);
        for (auto& p : m.parameters)
            s += ";" + vh::quote(p.first) + "=" + vh::quote(p.second);
        return s;
    }

    std::string written(const media_type& m)
    {
        std::ostringstream o;
        apib::backend::operator<<(o, m);
        return o.str();
    }

    bool same(const media_type& a, const media_type& b)
    {
        return a.type == b.type && a.subtype == b.subtype && a.suffix == b.suffix && a.parameters == b.parameters;
    }

    const char alnum[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    const char others[] = "!#$&^_-.";

    std::string name(vh::Rng& r)
    {
        static const char* known[] = { "application", "text", "json", "xml", "schema", "hal", "vnd.api", "x", "charset", "boundary", "q", "version",
            "problem", "utf-8", "1", "plain", "json-patch", "null", "true" };
        if (r.chance(40))
            return r.pick(known);
        std::string s(1, alnum[r.below(sizeof alnum - 1)]);
        size_t n = r.chance(4) ? 126 - r.below(2) : r.below(9);
        while (n--)
            s += r.chance(25) ? others[r.below(sizeof others - 1)] : alnum[r.below(sizeof alnum - 1)];
        return s;
    }

    // any text without what cannot be carried: quotes and backslashes are a
    // section of their own, carriage returns are written as \r
    std::string value(vh::Rng& r, bool hard)
    {
        static const char* special[] = { "(", ")", "<", ">", "@", ",", ";", ":", "/", "[", "]", "?", "=", " ", "\t", "\n", "\x01", "\x7f",
            "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xff", "\x80", "*", "+", "{", "}", "|", "~", "'", "%", "`" };
        static const char* escapes[] = { "\"", "\\", "\\\"", "\\\\" };
        std::string s;
        if (r.chance(40))
            s = name(r);
        for (size_t n = r.below(5); n--;)
            if (hard && r.chance(40))
                s += r.pick(escapes);
            else if (r.chance(60))
                s += r.pick(special);
            else
                s += alnum[r.below(sizeof alnum - 1)];
        if (hard && s.find_first_of("\"\\") == s.npos)
            s += r.pick(escapes);
        return s;
    }

    media_type make(vh::Rng& r, bool hard = false)
    {
        media_type m;
        m.type = name(r);
        m.subtype = name(r);
        if (r.chance(40)) {
            m.suffix = name(r);
            while (r.chance(15))
                m.subtype += "+" + name(r);
        }
        for (size_t n = r.chance(60) ? 1 + r.below(4) : hard; n--;)
            m.parameters.emplace_back(name(r), value(r, hard));
        return m;
    }

    bool plain(const std::string& v) // can stand without quotes
    {
        for (unsigned char ch : v)
            if (ch <= 0x20 || ch >= 0x7f || strchr("()<>@,;:\\\"/[]?=", ch))
                return false;
        return !v.empty();
    }

    bool isName(const std::string& v)
    {
        if (v.empty() || v.size() > 127 || !strchr(alnum, v[0]))
            return false;
        return v.find_first_not_of(std::string(alnum) + others) == v.npos && v.find('\0') == v.npos;
    }

    void write(Case& c)
    {
        vh::Rng& r = c.rng;
        media_type m = make(r, r.chance(40));
        if (r.chance(10))
            m.type.clear();
        if (r.chance(10))
            m.subtype.clear();
        for (auto& p : m.parameters)
            if (r.chance(8))
                p.first.clear();
            else if (r.chance(8))
                p.second.insert(r.below(p.second.size() + 1), "\r");
        c << show(m);
        std::string want;
        if (!m.type.empty() && !m.subtype.empty()) {
            want = m.type + "/" + m.subtype + (m.suffix.empty() ? "" : "+" + m.suffix);
            for (auto& p : m.parameters) {
                if (p.first.empty())
                    continue;
                want += "; " + p.first + "=";
                if (plain(p.second)) {
                    want += p.second;
                    c.saw("plain_values");
                } else {
                    want += '"';
                    for (char ch : p.second)
                        want += ch == '"' || ch == '\\' ? std::string("\\") + ch : ch == '\r' ? std::string("\\r") : std::string(1, ch);
                    want += '"';
                    c.saw("quoted_values");
                }
            }
        }
        std::ostringstream o;
        o << "<";
        apib::backend::operator<<(o, m) << ">";
        c.eq(vh::quote(o.str()), vh::quote("<" + want + ">"), "written");
        c.saw("written");
        c.mark(want);
    }

    void trip(Case& c)
    {
        media_type m = make(c.rng);
        c << show(m);
        std::string w = written(m);
        c << " " << vh::quote(w);
        media_type n = apib::parser::parseMediaType(w);
        c.eq(show(n), show(m), "round-trip");
        c.eq(written(n), w, "written-again");
        c.saw("round_trips");
        c.mark(w);
    }

    void pairs(Case& c)
    {
        media_type m = make(c.rng, true);
        c << show(m);
        std::string w = written(m);
        c << " " << vh::quote(w);
        media_type n = apib::parser::parseMediaType(w);
        // what remains when the quoted pairs are left as written
        media_type k = m;
        for (auto& p : k.parameters) {
            std::string v;
            for (char ch : p.second)
                v += ch == '"' || ch == '\\' ? std::string("\\") + ch : std::string(1, ch);
            p.second = v;
        }
        c.check(same(n, m) || same(n, k), "quoted-pairs", "read back as " + show(n));
        c.saw("quoted_pairs");
        c.mark(w);
        c.check(same(n, m), "quoted-pair-doubled", "read back as " + show(n));
    }

    void parse(Case& c)
    {
        vh::Rng& r = c.rng;
        auto ows = [&r] {
            std::string s;
            while (r.chance(35))
                s += r.chance(70) ? " " : "\t";
            return s;
        };
        media_type m = make(r);
        std::string t = ows() + m.type + "/" + m.subtype + (m.suffix.empty() ? "" : "+" + m.suffix);
        for (size_t i = 0; i < m.parameters.size(); i++) {
            auto& p = m.parameters[i];
            std::string sep = ows() + ";" + ows();
            if (i && r.chance(30)) {
                sep = ows() + (r.chance(70) ? " " : "\t");
                c.saw("space_separated");
            }
            t += sep + p.first + "=";
            if (plain(p.second) && r.chance(70)) {
                t += p.second;
                continue;
            }
            if (r.chance(20)) {
                static const char* q[] = { "\\\"", "\\\\", "\\ ", "\\a", "\\\xc3\xa9" };
                size_t at = p.second.size();
                if (at && (unsigned char)p.second[at - 1] < 0x80 && r.chance(50))
                    at--;
                p.second.insert(at, r.pick(q));
            }
            t += '"' + p.second + '"';
        }
        t += ows();
        if (r.chance(15))
            t += r.chance(70) ? "\n" : "\r\n";
        c << vh::quote(t);
        media_type n = apib::parser::parseMediaType(t);
        c.eq(show(n), show(m), "parsed");
        c.saw("parsed");
        c.saw("parameters", n.parameters.size());
        c.mark(t);
    }

    void hostile(Case& c)
    {
        vh::Rng& r = c.rng;
        std::string t;
        if (r.chance(85)) {
            t = written(make(r, r.chance(30)));
            static const char* bits[] = { "/", "+", ";", "=", "\"", "\\", " ", "\t", "\r", "\n", "\xff", ",", "a", ".", "\x7f", ";;", "++", "//", "\"\"" };
            for (size_t k = r.below(4); k--;) {
                size_t at = r.below(t.size() + 1);
                switch (r.below(5)) {
                    case 0:
                        t.resize(at);
                        break;
                    case 1:
                        t.erase(at, 1 + r.below(3));
                        break;
                    case 2:
                        t.insert(at, 1, '\0');
                        break;
                    case 3:
                        t.insert(at, std::string(r.below(200), r.chance(50) ? 'x' : '\\'));
                        break;
                    default:
                        t.insert(at, r.pick(bits));
                }
            }
        } else
            for (size_t n = r.below(12); n--;)
                t += (char)r.below(256);
        c << vh::quote(t);
        media_type n = apib::parser::parseMediaType(t);
        media_type n2 = apib::parser::parseMediaType(t);
        c.check(same(n, n2), "unstable", show(n) + " then " + show(n2));
        // whatever was accepted was read from the text, by the grammar of names
        c.check(n.type.empty() || isName(n.type), "type-not-a-name", show(n));
        c.check(n.subtype.empty() || !n.type.empty(), "subtype-without-type", show(n));
        c.check(n.suffix.empty() || (isName(n.suffix) && !n.subtype.empty()), "suffix-not-a-name", show(n));
        std::string rest = n.subtype;
        while (!rest.empty()) {
            size_t plus = rest.find('+');
            c.check(isName(rest.substr(0, plus)), "subtype-not-a-name", show(n));
            rest = plus == rest.npos ? "" : rest.substr(plus + 1);
        }
        size_t at = 0;
        auto in = [&](const std::string& s, const char* key) {
            at = t.find(s, at);
            c.check(at != t.npos, key, vh::quote(s) + " is not there, or not in order: " + show(n));
            at += s.size();
        };
        in(n.type, "type-not-in-text");
        in(n.subtype, "subtype-not-in-text");
        in(n.suffix, "suffix-not-in-text");
        for (auto& p : n.parameters) {
            c.check(isName(p.first), "parameter-not-a-name", show(n));
            in(p.first, "parameter-not-in-text");
            in("=", "parameter-without-value");
            in(p.second, "value-not-in-text");
        }
        // and writing it and reading that again changes nothing
        std::string w = written(n);
        bool carried = std::none_of(n.parameters.begin(), n.parameters.end(),
            [](const media_type::parameter& p) { return p.second.find_first_of("\"\\\r") != p.second.npos; });
        if (carried && !n.subtype.empty()) {
            media_type k = apib::parser::parseMediaType(w);
            c.eq(show(k), show(n), "hostile-round-trip");
            c.saw("hostile_round_trips");
        }
        c.saw("hostile");
        c.mark(t);
    }

    std::string recased(vh::Rng& r, std::string s)
    {
        for (auto& ch : s)
            if (r.chance(30))
                ch = (char)toupper(ch);
        return s;
    }

    void json(Case& c)
    {
        vh::Rng& r = c.rng;
        static const char* types[] = { "application", "application", "application", "text", "applicatio", "applications", "", "image", "json" };
        static const char* subs[] = { "json", "schema", "jso", "jsonp", "schemas", "", "hal", "json.schema", "schema+json", "json5", "x-json", "xml" };
        media_type m;
        std::string type = r.pick(types), sub = r.pick(subs), suf = r.chance(50) ? "" : r.chance(50) ? "json" : r.pick(subs);
        if (r.chance(40))
            sub = r.chance(50) ? "json" : "schema";
        m.type = recased(r, type);
        m.subtype = recased(r, sub);
        m.suffix = recased(r, suf);
        if (r.chance(5))
            m.subtype.push_back('\0');
        bool odd = m.subtype.find('\0') != m.subtype.npos;
        if (r.chance(30))
            m.parameters.emplace_back("charset", "json");
        c << show(m);
        bool app = type == "application";
        bool js = app && (suf.empty() ? sub == "json" && !odd : suf == "json");
        bool sch = app && sub == "schema" && !odd && suf == "json";
        c.eq(apib::isJSON(m), js, "is-json");
        c.eq(apib::isJSONSchema(m), sch, "is-json-schema");
        c.saw(js ? "json" : "not_json");
        c.saw(sch ? "schema" : "not_schema");
        c.mark(show(m));
    }
}

int main(int argc, char** argv)
{
    return vh::run(argc, argv, { { "write", 4, write }, { "trip", 4, trip }, { "pairs", 1, pairs }, { "parse", 5, parse }, { "hostile", 5, hostile },
                                   { "json", 2, json } });
}
