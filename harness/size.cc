// How many values a type admits, and the questions about a type that decide it
// (fixed, nullable, variable, default, sample), against a plain model.
#include "el.h"
#include "live.h"
#include "mergemodel.h"
#include "refract/Cardinal.h"
#include "refract/ElementSize.h"
#include "refract/ElementUtils.h"
using namespace el;
using vh::Case;

namespace
{
    typedef unsigned __int128 Big;
    const Big Inf = 4294967295u;
    Big add(Big a, Big b)
    {
        Big r = a + b;
        return r >= Inf ? Inf : r;
    }
    Big mul(Big a, Big b)
    {
        if (!a || !b)
            return 0;
        Big r = a * b;
        return r >= Inf ? Inf : r;
    }
    P attr(const P& e, const char* k)
    {
        for (auto& x : e->attr)
            if (x.first == k)
                return x.second;
        return nullptr;
    }
    bool is(const P& e, const std::string& t)
    {
        P a = attr(e, "typeAttributes");
        if (a && a->kind == KArray && a->has)
            for (auto& k : a->kids)
                if (k->kind == KString && k->has && k->text == t)
                    return true;
        return false;
    }
    P sample(const P& e)
    {
        P a = attr(e, "samples");
        return a && a->kind == KArray && a->has && !a->kids.empty() ? a->kids[0] : nullptr;
    }
    bool variable(const P& e)
    {
        P a = attr(e, "variable");
        return a && a->kind == KBoolean && a->has && a->text == "1";
    }
    bool defines(const P& e)
    {
        return e->has || sample(e) || attr(e, "default");
    }

    Big size(const P& e, bool inherits);
    Big mult(const std::vector<P>& k, bool f)
    {
        Big r = 1;
        for (auto& x : k)
            r = mul(r, size(x, f));
        return r;
    }
    Big sum(const std::vector<P>& k, bool f)
    {
        Big r = 0;
        for (auto& x : k)
            r = add(r, size(x, f));
        return r;
    }
    Big size(const P& e, bool inherits)
    {
        Big one = is(e, "nullable") ? 1 : 0;
        bool fixed = is(e, "fixed");
        switch (e->kind) {
            case KNull:
                return 1;
            case KString:
            case KNumber:
                return add((defines(e) && inherits) || fixed ? 1 : Inf, one);
            case KBoolean:
                return add((defines(e) && inherits) || fixed ? 1 : 2, one);
            case KObject:
                if (inherits || fixed || is(e, "fixedType"))
                    return add(!e->has ? 1 : mult(e->kids, inherits || fixed), one);
                return add(Inf, one);
            case KArray:
                if (inherits || fixed)
                    return add(!e->has ? 1 : mult(e->kids, true), one);
                if (is(e, "fixedType") && !e->has)
                    return add(0, one);
                return add(Inf, one);
            case KEnum: {
                P n = attr(e, "enumerations");
                if (!n || n->kind != KArray || !n->has)
                    return 0;
                return add(sum(n->kids, inherits || fixed), one);
            }
            case KMember:
                if (!e->has || !e->kids[1])
                    return 0;
                return add(mul(variable(e) ? Inf : 1, size(e->kids[1], inherits)), one);
            case KExtend: {
                if (!e->has)
                    return 0;
                P m = mergemodel::merge(e->kids);
                return m ? size(m, inherits) : 0;
            }
            case KRef:
                return size(attr(e, "resolved"), inherits);
            case KHolder:
                return !e->has || !e->kids[0] ? 0 : size(e->kids[0], inherits);
            case KSelect:
                return !e->has ? 0 : sum(e->kids, inherits);
            case KOption:
                return !e->has ? 0 : mult(e->kids, inherits);
            default:
                abort();
        }
    }

    struct TGen {
        vh::Rng& r;
        int flags(P n)
        {
            static const char* const w[] = { "fixed", "fixedType", "nullable", "required", "fixe", "fixedtype", "Nullable" };
            if (r.chance(50)) {
                P a = mk(KArray);
                a->has = !r.chance(4);
                int c = a->has ? r.range(0, 2) : 0;
                for (int i = 0; i < c; i++) {
                    P s = r.chance(95) ? str(w[r.below(r.chance(80) ? 4 : 7)]) : mk(r.chance(50) ? KNumber : KString);
                    a->kids.push_back(s);
                }
                n->attr.emplace_back("typeAttributes", r.chance(97) ? a : str("fixed"));
            }
            if (r.chance(10)) {
                P a = mk(KArray);
                a->has = true;
                if (r.chance(80))
                    a->kids.push_back(str("s"));
                n->attr.emplace_back("samples", r.chance(90) ? a : str("s"));
            }
            if (r.chance(8))
                n->attr.emplace_back("default", str("d"));
            return 0;
        }
        P leaf()
        {
            static const Kind k[] = { KString, KNumber, KBoolean, KBoolean, KNull };
            P n = mk(k[r.below(5)]);
            n->has = n->kind != KNull && r.chance(50);
            n->text = !n->has ? "" : n->kind == KBoolean ? "1" : "7";
            flags(n);
            return n;
        }
        P member(int d)
        {
            P m = mk(KMember);
            m->has = r.chance(97);
            if (m->has)
                m->kids = { str(std::string(1, (char)('a' + r.below(20)))), r.chance(96) ? any(d - 1) : nullptr };
            if (r.chance(30))
                flags(m);
            if (r.chance(12)) {
                P b = mk(KBoolean);
                b->has = r.chance(90);
                b->text = b->has && r.chance(70) ? "1" : "0";
                if (!b->has)
                    b->text = "";
                m->attr.emplace_back("variable", r.chance(92) ? b : str("true"));
            }
            return m;
        }
        P any(int d)
        {
            if (d <= 0 || r.chance(35))
                return leaf();
            static const Kind ks[] = { KObject, KObject, KArray, KArray, KEnum, KEnum, KHolder, KExtend, KRef };
            P n = mk(ks[r.below(9)]);
            n->has = r.chance(90);
            int c = r.chance(5) ? r.range(8, 40) : r.range(0, 4);
            switch (n->kind) {
                case KObject:
                    flags(n);
                    for (int i = 0; i < c && n->has; i++)
                        n->kids.push_back(r.chance(90) ? member(c > 6 ? 1 : d - 1) : select(d - 1));
                    break;
                case KArray:
                    flags(n);
                    for (int i = 0; i < c && n->has; i++)
                        n->kids.push_back(any(c > 6 ? 0 : d - 1));
                    break;
                case KEnum: {
                    flags(n);
                    if (n->has)
                        n->kids.push_back(r.chance(60) ? leaf() : nullptr);
                    if (r.chance(85)) {
                        P a = mk(KArray);
                        a->has = r.chance(95);
                        for (int i = 0; i < c && a->has; i++)
                            a->kids.push_back(any(c > 6 ? 0 : d - 1));
                        n->attr.emplace_back("enumerations", a);
                    }
                    break;
                }
                case KHolder:
                    if (n->has)
                        n->kids.push_back(r.chance(85) ? any(d - 1) : nullptr);
                    break;
                case KRef:
                    n->has = true;
                    n->text = "T";
                    n->attr.emplace_back("resolved", any(d - 1));
                    break;
                default: { // Extend: parts of one kind
                    static const Kind k[] = { KString, KNumber, KBoolean, KObject };
                    Kind w = k[r.below(4)];
                    int q = r.range(1, 3);
                    for (int i = 0; i < q && n->has; i++) {
                        P x = mk(w);
                        x->has = r.chance(50);
                        if (x->has && w == KObject)
                            x->kids.push_back(member(d - 1));
                        else if (x->has)
                            x->text = w == KBoolean ? "1" : "3";
                        flags(x);
                        n->kids.push_back(x);
                    }
                }
            }
            return n;
        }
        P select(int d)
        {
            P s = mk(KSelect);
            s->has = r.chance(95);
            int c = r.range(0, 3);
            for (int i = 0; i < c && s->has; i++) {
                P o = mk(KOption);
                o->has = r.chance(92);
                int q = r.range(0, 2);
                for (int j = 0; j < q && o->has; j++)
                    o->kids.push_back(member(d - 1));
                s->kids.push_back(o);
            }
            return s;
        }
    };

    void sizes(Case& c)
    {
        TGen g{ c.rng };
        P e = c.rng.chance(10) ? g.select(3) : c.rng.chance(10) ? g.member(3) : g.any(4);
        std::string s = dump(e);
        c << s;
        auto real = build(e);
        for (bool f : { false, true }) {
            Big want = size(e, f);
            cardinal got = sizeOf(*real, f);
            c.eq((uint64_t)got.data(), (uint64_t)want, "size", std::string("number of values, inherited fixed: ") + (f ? "yes" : "no"));
            c.check(finite(got) == (want != Inf), "finite", "finiteness");
            c.saw(want == Inf ? "open" : want > 1 ? "several" : want ? "one" : "none");
        }
        c.eq(show(*real), s, "source", "the element is unchanged");
        if (count(e) > 3)
            c.mark(s);
    }

    void arithmetic(Case& c)
    {
        static const uint32_t w[] = { 0, 1, 2, 3, 65535, 65536, 65537, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu, 0xfffffffdu };
        auto pick = [&]() -> uint32_t { return c.rng.chance(60) ? w[c.rng.below(12)] : (uint32_t)(c.rng.next() >> (32 + c.rng.below(32))); };
        uint32_t a = pick(), b = pick(), d = pick();
        c << a << " " << b << " " << d;
        cardinal x{ a }, y{ b }, z{ d };
        c.eq((uint64_t)(x + y).data(), (uint64_t)add(a, b), "plus", "sum");
        c.eq((uint64_t)(x * y).data(), (uint64_t)mul(a, b), "times", "product");
        c.check((x + y) == (y + x) && (x * y) == (y * x), "commute", "the order of operands does not matter");
        c.check(((x + y) + z) == (x + (y + z)), "associate", "the order of summing does not matter");
        c.check(((x * y) * z) == (x * (y * z)), "associate", "the order of multiplying does not matter");
        c.check((x == y) == (a == b) && (x != y) == (a != b), "equal", "equality");
        c.check(finite(x) == (a != 0xffffffffu), "finite", "finiteness");
        c.mark(std::to_string(a) + " " + std::to_string(b));
    }

    void questions(Case& c)
    {
        TGen g{ c.rng };
        P e = c.rng.chance(30) ? g.member(2) : g.any(2);
        std::string s = dump(e);
        c << s;
        auto real = build(e);
        auto ask = [&](const char* when) {
            for (auto t : { "fixed", "fixedType", "nullable", "required", "optional", "default", "" })
                c.eq(hasTypeAttr(*real, t), is(e, t), "hasTypeAttr", std::string(when) + " " + t);
            c.eq(hasFixedTypeAttr(*real), is(e, "fixed"), "fixed", when);
            c.eq(hasFixedTypeTypeAttr(*real), is(e, "fixedType"), "fixedType", when);
            c.eq(hasNullableTypeAttr(*real), is(e, "nullable"), "nullable", when);
            c.eq(hasRequiredTypeAttr(*real), is(e, "required"), "required", when);
            c.eq(hasOptionalTypeAttr(*real), is(e, "optional"), "optional", when);
            c.eq(isVariable(*real), variable(e), "variable", when);
            P d = attr(e, "default"), sm = sample(e);
            c.eq(hasDefault(*real), (bool)d, "default", when);
            c.eq(show(findDefault(*real)), dump(d), "default", when);
            c.eq(show(findFirstSample(*real)), dump(sm), "sample", when);
            c.eq(show(findValue(*real)), e->has ? dump(e) : sm ? dump(sm) : dump(d), "value", when);
            c.eq(definesValue(*real), defines(e), "defines", when);
        };
        ask("at first");
        int n = c.rng.range(0, 4);
        for (int i = 0; i < n; i++) {
            int op = (int)c.rng.below(4);
            if (op == 0) {
                static const char* const w[] = { "fixed", "nullable", "x", "fixedType" };
                std::string t = w[c.rng.below(4)];
                P a = attr(e, "typeAttributes");
                if (a && (a->kind != KArray || !a->has))
                    continue;
                if (t == "fixed")
                    setFixedTypeAttribute(*real);
                else
                    setTypeAttribute(*real, t);
                if (!a) {
                    a = mk(KArray);
                    a->has = true;
                    e->attr.emplace_back("typeAttributes", a);
                }
                if (!is(e, t))
                    a->kids.push_back(str(t));
                c << " set " << t;
            } else if (op == 1) {
                P d = g.leaf();
                setDefault(*real, build(d));
                bool done = false;
                for (auto& x : e->attr)
                    if (x.first == "default") {
                        x.second = d;
                        done = true;
                    }
                if (!done)
                    e->attr.emplace_back("default", d);
                c << " default";
            } else {
                const char* k = op == 2 ? "samples" : "enumerations";
                P a = attr(e, k);
                if (a && (a->kind != KArray || !a->has))
                    continue;
                P v = g.leaf();
                if (op == 2)
                    addSample(*real, build(v));
                else
                    addEnumeration(*real, build(v));
                if (!a) {
                    a = mk(KArray);
                    a->has = true;
                    e->attr.emplace_back(k, a);
                }
                a->kids.push_back(v);
                c << " add to " << k;
            }
            c.eq(show(*real), dump(e), "change", "element after the change");
            ask("after a change");
            c.saw("changes");
        }
        c.mark(s);
    }
}

int main(int argc, char** argv)
{
    return vh::run(argc, argv, { { "sizes", 4, sizes }, { "arithmetic", 2, arithmetic }, { "questions", 2, questions } });
}
