// Expansion of named types, references and mixins against an independent model
// of the rules; and the question whether an element needs expansion.
#include "el.h"
#include "live.h"
#include "refract/Registry.h"
#include "refract/ExpandVisitor.h"
#include "refract/IsExpandableVisitor.h"
#include "refract/VisitorUtils.h"
#include "snowcrash.h"
using namespace el;
using vh::Case;

namespace
{
    struct Circular {
        std::string name;
    };

    bool builtin(const std::string& s)
    {
        static const std::set<std::string> r = { "array", "boolean", "enum", "extend", "generic", "member", "null", "number", "object",
            "option", "ref", "select", "string" };
        return r.count(s) > 0;
    }

    P* info(Info& i, const std::string& k)
    {
        for (auto& x : i)
            if (x.first == k)
                return &x.second;
        return nullptr;
    }
    void set(Info& i, const std::string& k, P v)
    {
        if (P* p = info(i, k))
            *p = v;
        else
            i.emplace_back(k, v);
    }
    void erase(Info& i, const std::string& k)
    {
        for (size_t n = 0; n < i.size();)
            if (i[n].first == k)
                i.erase(i.begin() + n);
            else
                n++;
    }

    bool needs(const P& e)
    {
        if (!e)
            return false;
        if (!builtin(e->name) || e->kind == KRef)
            return true;
        switch (e->kind) {
            case KArray:
            case KObject:
            case KExtend:
            case KOption:
            case KSelect:
            case KMember:
                if (e->has)
                    for (auto& k : e->kids)
                        if (needs(k))
                            return true;
                return false;
            case KEnum:
                if (e->has && needs(e->kids[0]))
                    return true;
                if (P* p = info(e->attr, "enumerations"))
                    return needs(*p);
                return false;
            default:
                return false;
        }
    }

    // "=" and the key, if it is a member with a string for a key
    std::string keyName(const P& e)
    {
        if (e && e->kind == KMember && e->has && e->kids[0] && e->kids[0]->kind == KString && e->kids[0]->has)
            return "=" + e->kids[0]->text;
        return "";
    }

    struct Model {
        std::map<std::string, P> types;
        std::vector<std::string> open;
        size_t size = 0;
        size_t circular = 0, deep = 0, mixins = 0, named = 0;

        P find(const std::string& n)
        {
            auto i = types.find(n);
            return i == types.end() ? nullptr : i->second;
        }
        bool isOpen(const std::string& n)
        {
            return std::find(open.begin(), open.end(), n) != open.end();
        }
        P root(const std::string& n)
        {
            P p = find(n);
            while (p && !builtin(p->name)) {
                P q = find(p->name);
                if (!q || q == p)
                    break;
                p = q;
            }
            return p;
        }
        // the element with what it contains expanded; its own name gives way to
        // the name of its kind
        P inner(const P& e)
        {
            P o = copy(e);
            o->name = defName[o->kind];
            switch (o->kind) {
                case KArray:
                case KObject:
                case KExtend:
                case KOption:
                case KSelect:
                case KEnum:
                    if (o->has)
                        for (auto& k : o->kids)
                            k = expand(k);
                default:
                    break;
            }
            if (o->kind == KObject) // of properties of one name, the last one counts
                for (size_t i = 0; i < o->kids.size(); i++)
                    for (size_t j = 0; j < i; j++)
                        if (!keyName(o->kids[i]).empty() && keyName(o->kids[i]) == keyName(o->kids[j])) {
                            o->kids.erase(o->kids.begin() + j);
                            i--;
                            break;
                        }
            return o;
        }
        P namedType(const P& e)
        {
            named++;
            if (isOpen(e->name)) {
                circular++;
                P r = root(e->name);
                P o = mk(r->kind);
                o->meta = copy(r)->meta;
                o->attr = copy(r)->attr;
                erase(o->meta, "id");
                set(o->meta, "ref", str(e->name));
                return o;
            }
            P x = mk(KExtend);
            std::vector<P> chain;
            std::set<std::string> seen;
            bool loop = false;
            for (std::string n = e->name; !builtin(n) && find(n); n = find(n)->name) {
                if (!seen.insert(n).second) {
                    loop = true;
                    break;
                }
                P p = copy(find(n));
                p->name = defName[p->kind];
                erase(p->meta, "id");
                set(p->meta, "ref", str(n));
                chain.push_back(p);
            }
            if (loop)
                chain.clear();
            if (chain.size() > 1)
                deep++;
            open.push_back(e->name);
            for (size_t i = chain.size(); i-- > 0;)
                x->kids.push_back(expand(chain[i]));
            open.pop_back();
            x->has = true;
            if (P* id = info(e->meta, "id"))
                if ((*id)->has)
                    set(x->meta, "id", copy(*id));
            P own = inner(e);
            erase(own->meta, "id");
            x->kids.push_back(own);
            return x;
        }
        P expand(const P& e)
        {
            if (!e)
                return e;
            if (++size > 3000)
                throw std::length_error("too large");
            switch (e->kind) {
                case KNull:
                case KHolder:
                    return copy(e);
                case KString:
                case KNumber:
                case KBoolean:
                    return builtin(e->name) ? copy(e) : namedType(e);
                case KRef: {
                    P o = copy(e);
                    if (!e->has || e->text.empty())
                        return o;
                    mixins++;
                    if (isOpen(e->text))
                        throw Circular{ e->text };
                    open.push_back(e->text);
                    if (P t = find(e->text)) {
                        P x = expand(t);
                        if (P* id = info(x->meta, "id"))
                            if ((*id)->has) {
                                P keep = copy(*id);
                                set(x->meta, "ref", keep);
                                erase(x->meta, "id");
                            }
                        set(o->attr, "resolved", x);
                    }
                    open.pop_back();
                    return o;
                }
                case KEnum: {
                    if (!builtin(e->name))
                        return namedType(e);
                    P o = inner(e);
                    if (P* p = info(o->attr, "enumerations")) {
                        (*p)->has = true;
                        (*p)->meta.clear();
                        (*p)->attr.clear();
                        for (auto& k : (*p)->kids)
                            k = expand(k);
                    }
                    return o;
                }
                case KMember: {
                    P o = copy(e);
                    if (needs(e))
                        for (auto& k : o->kids)
                            k = expand(k);
                    return o;
                }
                case KSelect: {
                    if (!needs(e))
                        return copy(e);
                    return inner(e);
                }
                default:
                    if (!needs(e))
                        return copy(e);
                    return builtin(e->name) ? inner(e) : namedType(e);
            }
        }
    };

    // trees that use the types T0..Tn-1 by name and by reference
    struct TypeGen {
        vh::Rng& r;
        int types;
        int use = 25;
        std::string type()
        {
            if (r.chance(8))
                return r.chance(50) ? "Missing" : "Other";
            return "T" + std::to_string(r.below(types));
        }
        void info(P n)
        {
            if (r.chance(15))
                n->meta.emplace_back("description", str("d"));
            if (r.chance(10))
                n->meta.emplace_back("id", r.chance(85) ? str("own") : mk(KString));
            if (r.chance(10)) {
                P a = mk(KArray);
                a->has = true;
                a->kids.push_back(str("required"));
                n->attr.emplace_back("typeAttributes", a);
            }
            if (r.chance(8))
                n->attr.emplace_back("samples", any(0));
            if (r.chance(8))
                n->attr.emplace_back("default", any(0));
        }
        P any(int d)
        {
            static const Kind leaf[] = { KString, KNumber, KBoolean, KNull };
            if (d <= 0 || r.chance(25)) {
                P n = mk(leaf[r.below(4)]);
                n->has = r.chance(70);
                n->text = n->kind == KBoolean ? "1" : n->kind == KNumber ? "42" : "v";
                if (n->kind == KNull)
                    n->text = "";
                if (n->kind != KNull && r.chance(use))
                    n->name = type();
                info(n);
                if (!n->has)
                    n->text = "";
                return n;
            }
            static const Kind k[] = { KObject, KObject, KArray, KEnum, KObject, KHolder, KSelect, KExtend };
            return of(k[r.below(8)], d);
        }
        P member(int d)
        {
            P m = mk(KMember);
            m->has = true;
            P k = str(std::string(1, (char)('a' + r.below(4))));
            if (r.chance(8)) {
                k = mk(KString);
                k->name = type();
                k->has = r.chance(50);
                k->text = k->has ? "k" : "";
            }
            m->kids = { k, r.chance(95) ? any(d - 1) : nullptr };
            info(m);
            return m;
        }
        P ref()
        {
            P n = mk(KRef);
            n->has = r.chance(95);
            n->text = n->has ? (r.chance(5) ? "" : type()) : "";
            info(n);
            return n;
        }
        P option(int d)
        {
            P o = mk(KOption);
            o->has = true;
            int n = r.range(0, 2);
            for (int i = 0; i < n; i++)
                o->kids.push_back(r.chance(80) ? member(d - 1) : r.chance(50) ? any(d - 1) : ref());
            return o;
        }
        P of(Kind k, int d)
        {
            P n = mk(k);
            n->has = r.chance(85);
            if ((k == KObject || k == KArray || k == KEnum) && r.chance(use))
                n->name = type();
            info(n);
            int c = r.range(0, 3);
            switch (k) {
                case KObject:
                    for (int i = 0; i < c && n->has; i++)
                        n->kids.push_back(r.chance(15) ? ref() : r.chance(10) ? of(KSelect, d - 1) : member(d - 1));
                    break;
                case KArray:
                case KExtend:
                    for (int i = 0; i < c && n->has; i++)
                        n->kids.push_back(r.chance(15) ? ref() : any(d - 1));
                    break;
                case KSelect:
                    n->has = true;
                    for (int i = 0; i < c; i++)
                        n->kids.push_back(option(d - 1));
                    break;
                case KEnum:
                    if (n->has)
                        n->kids.push_back(r.chance(90) ? any(d - 1) : nullptr);
                    if (r.chance(50)) {
                        P a = mk(KArray);
                        a->has = true;
                        for (int i = 0; i < c; i++)
                            a->kids.push_back(any(d - 1));
                        n->attr.emplace_back("enumerations", a);
                    }
                    break;
                case KHolder:
                    if (n->has)
                        n->kids.push_back(r.chance(90) ? any(d - 1) : nullptr);
                    break;
                default:
                    break;
            }
            return n;
        }
    };

    void expansion(Case& c)
    {
        Registry reg;
        Model m;
        for (auto b : { "boolean", "number", "string", "array", "object", "enum", "null" })
            m.types[b] = read(reg.find(b));
        int n = c.rng.range(1, 5);
        TypeGen g{ c.rng, n };
        g.use = c.rng.range(15, 55);
        std::map<std::string, std::string> before;
        std::string key;
        for (int i = 0; i < n; i++) {
            std::string id = "T" + std::to_string(i);
            static const Kind k[] = { KObject, KObject, KObject, KObject, KArray, KEnum, KString };
            Kind kind = k[c.rng.below(7)];
            P t = kind == KString || kind == KNumber ? mk(kind) : g.of(kind, 2);
            // inheritance: mostly from an earlier type of the same kind
            t->name = defName[kind];
            erase(t->meta, "id");
            if (c.rng.chance(75)) {
                std::vector<std::string> same;
                for (auto& x : m.types)
                    if (x.second->kind == kind && x.first[0] == 'T')
                        same.push_back(x.first);
                if (!same.empty())
                    t->name = same[c.rng.below(same.size())];
            }
            t->meta.emplace_back("id", str(id));
            m.types[id] = t;
            before[id] = dump(t);
            c << id << "=" << before[id] << "\n";
            key += before[id];
            c.check(reg.add(build(t)), "register", "type registered");
        }
        P e = c.rng.chance(20) ? copy(m.types["T" + std::to_string(c.rng.below(n))]) : c.rng.chance(10) ? g.ref() : g.any(3);
        std::string src = dump(e);
        c << "expand " << src;
        key += src;
        P want;
        bool circular = false;
        try {
            want = m.expand(e);
        } catch (const Circular&) {
            circular = true;
        } catch (const std::length_error&) {
            c.saw("skipped_too_large");
            return;
        }
        auto real = build(e);
        long live0 = vh::live();
        {
            bool threw = false;
            std::unique_ptr<IElement> got;
            ExpandVisitor v(reg);
            try {
                VisitBy(*real, v);
                got = v.get();
            } catch (const snowcrash::Error& err) {
                threw = true;
                c.check(err.code == snowcrash::MSONError, "circular-code", "kind of the error");
            }
            c.check(threw == circular, "circular", circular ? "a mixin that includes itself is reported" : "no error without a circular mixin");
            if (!threw) {
                std::string w = dump(want);
                if (got)
                    c.eq(show(*got), w, "expansion", "expanded element");
                else
                    c.eq(src, w, "expansion-none", "no expansion");
                if (got) {
                    std::set<const void*> a, b;
                    addresses(read(*got), a);
                    addresses(read(*real), b);
                    for (int i = 0; i < n; i++)
                        addresses(read(reg.find("T" + std::to_string(i))), b);
                    for (auto p : a)
                        c.check(!b.count(p), "shares", "the expansion shares an element with its source");
                    // once more with the same expander: it remembers nothing
                    VisitBy(*real, v);
                    auto again = v.get();
                    c.check(again && show(*again) == w, "repeat", "a second expansion differs");
                }
                c.saw(got ? "expanded" : "unchanged");
            } else
                c.saw("circular_mixins");
        }
        c.saw("circular_members", m.circular);
        c.saw("mixins", m.mixins);
        c.saw("named", m.named);
        c.saw("deep_inheritance", m.deep);
        c.eq(show(*real), src, "source", "the element expanded is unchanged");
        for (auto& b : before)
            c.eq(show(reg.find(b.first)), b.second, "registry", "a registered type is unchanged");
        (void)live0;
        if (m.named + m.mixins)
            c.mark(key);
    }

    void expandable(Case& c)
    {
        TypeGen g{ c.rng, 3 };
        g.use = c.rng.chance(50) ? 3 : 12;
        P e = c.rng.chance(15) ? g.ref() : c.rng.chance(20) ? g.member(3) : g.any(4);
        std::string s = dump(e);
        c << s;
        bool want = needs(e);
        auto real = build(e);
        IsExpandableVisitor v;
        VisitBy(*real, v);
        c.eq(v.get(), want, "expandable", "needs expansion: " + s);
        c.saw(want ? "expandable" : "not_expandable");
        // adding a use of a type somewhere inside makes it so
        if (count(e) > 3)
            c.mark(s);
    }
}

int main(int argc, char** argv)
{
    vh::countAllocations();
    return vh::run(argc, argv, { { "expansion", 3, expansion }, { "expandable", 1, expandable } });
}
