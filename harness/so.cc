// Plain values (null, booleans, strings, numbers, objects, arrays) and their
// JSON and YAML texts. JSON is read back by a strict reader here; YAML texts are
// left in a file for an independent YAML reader.
#include "vh.h"
#include "live.h"
#include "utils/so/JsonIo.h"
#include "utils/so/Value.h"
#include "utils/so/YamlIo.h"
#include <memory>
using vh::Case;
using namespace drafter::utils::so;

namespace
{
    enum K { N, T, F, S, D, O, A };
    struct V {
        K k = N;
        std::string s;
        std::vector<std::pair<std::string, V> > m; // object (name) or array (no name)
        bool operator==(const V& o) const
        {
            return k == o.k && s == o.s && m == o.m;
        }
    };

    Value build(const V& v)
    {
        switch (v.k) {
            case N:
                return Null{};
            case T:
                return True{};
            case F:
                return False{};
            case S:
                return String{ v.s };
            case D:
                return Number{ v.s };
            case O: {
                Object o;
                for (auto& x : v.m)
                    o.data.emplace_back(x.first, build(x.second));
                return Value(std::move(o));
            }
            default: {
                Array a;
                for (auto& x : v.m)
                    a.data.emplace_back(build(x.second));
                return Value(std::move(a));
            }
        }
    }

    V read(const Value& v);
    struct Reader {
        V operator()(const Null&) const { return V{}; }
        V operator()(const True&) const { V v; v.k = T; return v; }
        V operator()(const False&) const { V v; v.k = F; return v; }
        V operator()(const String& x) const { V v; v.k = S; v.s = x.data; return v; }
        V operator()(const Number& x) const { V v; v.k = D; v.s = x.data; return v; }
        V operator()(const Object& x) const
        {
            V v;
            v.k = O;
            for (auto& e : x.data)
                v.m.emplace_back(e.first, read(e.second));
            return v;
        }
        V operator()(const Array& x) const
        {
            V v;
            v.k = A;
            for (auto& e : x.data)
                v.m.emplace_back("", read(e));
            return v;
        }
    };
    V read(const Value& v)
    {
        return mpark::visit(Reader{}, v);
    }

    void text(std::string& o, const V& v)
    {
        static const char* const w[] = { "null", "true", "false" };
        if (v.k <= F)
            o += w[v.k];
        else if (v.k == S)
            o += vh::quote(v.s);
        else if (v.k == D)
            o += v.s;
        else {
            o += v.k == O ? "{" : "[";
            bool first = true;
            for (auto& x : v.m) {
                o += first ? "" : ",";
                first = false;
                if (v.k == O)
                    o += vh::quote(x.first) + ":";
                text(o, x.second);
            }
            o += v.k == O ? "}" : "]";
        }
    }
    std::string text(const V& v)
    {
        std::string o;
        text(o, v);
        return o;
    }

    // a strict reader of JSON (RFC 8259), keeping the order of members
    struct Json {
        const std::string& t;
        size_t i = 0;
        bool packed, spaced = false;
        struct Bad {
            std::string why;
            size_t at;
        };
        [[noreturn]] void bad(const char* why)
        {
            throw Bad{ why, i };
        }
        void space()
        {
            while (i < t.size() && (t[i] == ' ' || t[i] == '\n' || t[i] == '\t' || t[i] == '\r')) {
                spaced = true;
                i++;
            }
        }
        char peek()
        {
            return i < t.size() ? t[i] : '\0';
        }
        void want(char c)
        {
            if (i >= t.size() || t[i] != c)
                bad("unexpected character");
            i++;
        }
        std::string string()
        {
            want('"');
            std::string o;
            for (;;) {
                if (i >= t.size())
                    bad("unterminated string");
                unsigned char c = t[i++];
                if (c == '"')
                    return o;
                if (c < 0x20)
                    bad("control character in a string");
                if (c != '\\') {
                    o += (char)c;
                    continue;
                }
                char e = peek();
                i++;
                static const char from[] = "\"\\/bfnrt", to[] = "\"\\/\b\f\n\r\t";
                const char* p = e ? strchr(from, e) : nullptr;
                if (p)
                    o += to[p - from];
                else if (e == 'u') {
                    unsigned u = 0;
                    for (int k = 0; k < 4; k++) {
                        char h = peek();
                        if (!isxdigit((unsigned char)h))
                            bad("bad \\u escape");
                        u = u * 16 + (h <= '9' ? h - '0' : (h | 32) - 'a' + 10);
                        i++;
                    }
                    if (u < 0x80)
                        o += (char)u;
                    else
                        bad("escape beyond ASCII");
                } else
                    bad("bad escape");
            }
        }
        V value()
        {
            V v;
            char c = peek();
            if (c == '"') {
                v.k = S;
                v.s = string();
            } else if (c == '{' || c == '[') {
                v.k = c == '{' ? O : A;
                i++;
                space();
                char end = v.k == O ? '}' : ']';
                if (peek() == end) {
                    i++;
                    return v;
                }
                for (;;) {
                    space();
                    std::string name;
                    if (v.k == O) {
                        name = string();
                        space();
                        want(':');
                        space();
                    }
                    v.m.emplace_back(name, value());
                    space();
                    if (peek() == end) {
                        i++;
                        return v;
                    }
                    want(',');
                }
            } else if (t.compare(i, 4, "null") == 0)
                i += 4;
            else if (t.compare(i, 4, "true") == 0) {
                v.k = T;
                i += 4;
            } else if (t.compare(i, 5, "false") == 0) {
                v.k = F;
                i += 5;
            } else {
                size_t b = i;
                v.k = D;
                if (peek() == '-')
                    i++;
                if (peek() == '0')
                    i++;
                else {
                    if (!isdigit((unsigned char)peek()))
                        bad("not a value");
                    while (isdigit((unsigned char)peek()))
                        i++;
                }
                if (peek() == '.') {
                    i++;
                    if (!isdigit((unsigned char)peek()))
                        bad("bad number");
                    while (isdigit((unsigned char)peek()))
                        i++;
                }
                if (peek() == 'e' || peek() == 'E') {
                    i++;
                    if (peek() == '+' || peek() == '-')
                        i++;
                    if (!isdigit((unsigned char)peek()))
                        bad("bad number");
                    while (isdigit((unsigned char)peek()))
                        i++;
                }
                v.s = t.substr(b, i - b);
            }
            return v;
        }
    };

    struct G {
        vh::Rng& r;
        std::string character()
        {
            static const char* const w[] = { "\"", "\\", "\n", "\r", "\t", "\b", "\f", "\x1b", "\x01", "\x7f", "\xc2\x85", "\xc2\xa0", "\xe2\x80\xa8",
                "\xe2\x80\xa9", "\xef\xbb\xbf", "\xef\xbf\xbe", "\xf0\x9f\x98\x80", "\xc3\xa9", "'", ":", "-", "#", "{", "[", "&", "*", "!", "|", ">", "%",
                "@", "`", " ", "/", ",", "?", "\xc2\x9f", "\xee\x80\x80", "\xf4\x8f\xbf\xbf", "\x0b", "\x07", "\x1f", "\xef\xbf\xbd", "\xe4\xb8\xad" };
            return w[r.below(sizeof w / sizeof *w)];
        }
        std::string string()
        {
            static const char* const w[] = { "", "abc", "null", "true", "~", "123", "-", "- a", "a: b", " lead", "trail ", "#c", "multi\nline\n\n", "No",
                "0x1F", "1e3", "\"quoted\"", "\\n", "\\", "%TAG", "---", "...", "=", "<<" };
            int k = (int)r.below(10);
            if (k < 3)
                return w[r.below(sizeof w / sizeof *w)];
            std::string s;
            for (int n = r.range(0, k < 8 ? 6 : 30); n > 0; n--) {
                int q = (int)r.below(4);
                if (q == 0)
                    s += (char)('a' + r.below(26));
                else if (q == 1)
                    s += (char)r.below(128);
                else
                    s += character();
            }
            return s;
        }
        std::string key()
        {
            static const char* const w[] = { "", "element", "content", "a", "A", "Z", "z", "a-b", "null", "Null", "TRUE", "true", "no", "Yes", "y", "N",
                "on", "OFF", "a b", "a_b", "a[0]", "1", "~", "nul", "nulls", "<<", "=", "AzZa" };
            return r.chance(70) ? w[r.below(sizeof w / sizeof *w)] : string();
        }
        std::string number()
        {
            static const char* const w[] = { "0", "1", "-1", "42", "3.5", "-0.25", "123456789", "10.0", "2147483647", "-2147483648" };
            return w[r.below(10)];
        }
        V value(int d)
        {
            V v;
            int k = (int)r.below(d > 0 ? 10 : 5);
            v.k = k > 7 ? A : k > 4 ? O : (K)k;
            if (v.k == S)
                v.s = string();
            else if (v.k == D)
                v.s = number();
            else if (v.k >= O) {
                int n = r.chance(4) ? r.range(5, 20) : r.range(0, 4);
                for (int i = 0; i < n; i++) {
                    std::string k;
                    if (v.k == O) {
                        k = key();
                        bool dup = false;
                        for (auto& x : v.m)
                            dup = dup || x.first == k;
                        if (dup)
                            continue;
                    }
                    v.m.emplace_back(k, value(d - 1));
                }
            }
            return v;
        }
    };

    FILE* yaml()
    {
        static FILE* f = fopen((std::string(getenv("SO_YAML") ? getenv("SO_YAML") : "/dev/null") + "." + std::to_string(getpid())).c_str(), "w");
        return f;
    }

    void texts(Case& c)
    {
        G g{ c.rng };
        V v = g.value(c.rng.range(0, 5));
        std::string t = text(v);
        c << t;
        Value real = build(v);
        std::string out[2];
        for (int packed_ = 0; packed_ < 2; packed_++) {
            std::ostringstream o;
            if (packed_)
                serialize_json(o, real, packed{});
            else
                serialize_json(o, real);
            out[packed_] = o.str();
            Json j{ out[packed_], 0, (bool)packed_ };
            try {
                V back = j.value();
                if (j.i != out[packed_].size())
                    j.bad("text after the value");
                c.check(back == v, "json-differs", "the JSON text reads as " + text(back) + "; expected " + t + "; text: " + out[packed_]);
                c.check(!packed_ || !j.spaced, "packed", "the packed text has no space between tokens: " + out[1]);
            } catch (const Json::Bad& b) {
                c.fail("json-malformed", b.why + " at " + std::to_string(b.at) + " of " + out[packed_]);
            }
        }
        std::ostringstream y;
        serialize_yaml(y, real);
        fprintf(yaml(), "{\"case\":%llu,\"yaml\":[", (unsigned long long)c.index);
        bool first = true;
        for (unsigned char b : y.str()) {
            fprintf(yaml(), first ? "%d" : ",%d", b);
            first = false;
        }
        fprintf(yaml(), "],\"json\":[");
        first = true;
        for (unsigned char b : out[1]) {
            fprintf(yaml(), first ? "%d" : ",%d", b);
            first = false;
        }
        fprintf(yaml(), "]}\n");
        c.check(read(real) == v, "source", "the value is unchanged");
        c.saw("json_bytes", out[0].size() + out[1].size());
        c.saw("yaml_bytes", y.str().size());
        if (v.m.size() || v.s.size())
            c.mark(t);
    }

    bool same(const V& a, const V& b) // members in any order
    {
        if (a.k != b.k || a.s != b.s || a.m.size() != b.m.size())
            return false;
        for (size_t i = 0; i < a.m.size(); i++) {
            if (a.k == A) {
                if (!same(a.m[i].second, b.m[i].second))
                    return false;
                continue;
            }
            bool found = false;
            for (auto& y : b.m)
                found = found || (y.first == a.m[i].first && same(a.m[i].second, y.second));
            if (!found)
                return false;
        }
        return true;
    }
    void tweak(vh::Rng& r, V& v)
    {
        G g{ r };
        if (!v.m.empty() && r.chance(70)) {
            size_t i = r.below(v.m.size());
            int w = (int)r.below(6);
            if (w == 0)
                v.m.erase(v.m.begin() + i);
            else if (w == 1)
                std::swap(v.m[i], v.m[r.below(v.m.size())]);
            else if (w == 2 && v.k == O) {
                std::string k = g.key();
                for (auto& x : v.m)
                    if (x.first == k)
                        return;
                v.m[i].first = k;
            } else
                tweak(r, v.m[i].second);
            return;
        }
        v = g.value(1);
    }

    void equality(Case& c)
    {
        G g{ c.rng };
        V a = g.value(3), b = a;
        if (c.rng.chance(80))
            tweak(c.rng, b);
        c << text(a) << " ~ " << text(b);
        Value x = build(a), y = build(b);
        bool want = same(a, b);
        c.eq(x == y, want, "equal", "equality");
        c.eq(y == x, want, "symmetric", "equality the other way round");
        c.check(x == x && y == y, "reflexive", "equality with itself");
        Value copy = x, moved = std::move(y);
        c.check(copy == x && read(copy) == a, "copy", "a copy equals its source");
        c.check(read(moved) == b, "move", "what was moved is the source");
        c.saw(want ? "equal" : "different");
        c.mark(text(a) + text(b));
    }

    void histories(Case& c)
    {
        G g{ c.rng };
        Object o;
        Array a;
        V mo, ma;
        mo.k = O;
        ma.k = A;
        for (int n = c.rng.range(2, 14); n > 0; n--) {
            V v = g.value(1);
            int op = (int)c.rng.below(4);
            if (op == 0 || op == 1) {
                std::string k = g.key();
                c << " set " << k;
                if (op)
                    emplace_unique(o, k, build(v));
                else
                    emplace_unique(o, Object::container_type::value_type{ k, build(v) });
                bool done = false;
                for (auto& x : mo.m)
                    if (x.first == k) {
                        x.second = v;
                        done = true;
                    }
                if (!done)
                    mo.m.emplace_back(k, v);
            } else if (op == 2) {
                if (!ma.m.empty() && c.rng.chance(40))
                    v = ma.m[c.rng.below(ma.m.size())].second;
                c << " add " << text(v);
                emplace_unique(a, build(v));
                bool done = false;
                for (auto& x : ma.m)
                    done = done || same(x.second, v);
                if (!done)
                    ma.m.emplace_back("", v);
            } else {
                std::string k = mo.m.empty() || c.rng.chance(30) ? g.key() : mo.m[c.rng.below(mo.m.size())].first;
                Value* got = find(o, k);
                const V* want = nullptr;
                for (auto& x : mo.m)
                    if (x.first == k)
                        want = &x.second;
                c.check((got != nullptr) == (want != nullptr) && (!got || read(*got) == *want), "find", "member " + vh::quote(k));
                c.saw(want ? "found" : "absent");
            }
            c.check(read(Value(o)) == mo, "object", "members after the change: " + text(read(Value(o))) + "; expected " + text(mo));
            c.check(read(Value(a)) == ma, "array", "items after the change: " + text(read(Value(a))) + "; expected " + text(ma));
        }
        c.mark(text(mo) + text(ma));
    }
}

int main(int argc, char** argv)
{
    return vh::run(argc, argv, { { "texts", 4, texts }, { "equality", 2, equality }, { "histories", 1, histories } });
}
