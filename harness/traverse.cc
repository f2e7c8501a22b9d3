// Walking a tree: which elements are visited and in which order (all of them,
// or the direct children), selecting by a predicate or by name, and printing.
#include "el.h"
#include "live.h"
#include "refract/FilterVisitor.h"
#include "refract/Iterate.h"
#include "refract/PrintVisitor.h"
#include "refract/Query.h"
#include <algorithm>
using namespace el;
using vh::Case;

namespace
{
    bool iterable(Kind k)
    {
        return k == KArray || k == KObject || k == KExtend || k == KOption || k == KSelect;
    }
    struct Seen {
        Kind kind;
        const void* addr;
        bool operator==(const Seen& o) const
        {
            return kind == o.kind && addr == o.addr;
        }
    };
    struct Log {
        std::vector<Seen> seen;
        bool generic = false;
        void add(Kind k, const IElement& e)
        {
            seen.push_back({ k, &e });
        }
        void operator()(const IElement& e)
        {
            generic = true;
        }
        template <typename E>
        void put(Kind k, const E& e)
        {
            add(k, e);
        }
        void operator()(const NullElement& e) { put(KNull, e); }
        void operator()(const HolderElement& e) { put(KHolder, e); }
        void operator()(const StringElement& e) { put(KString, e); }
        void operator()(const NumberElement& e) { put(KNumber, e); }
        void operator()(const BooleanElement& e) { put(KBoolean, e); }
        void operator()(const ArrayElement& e) { put(KArray, e); }
        void operator()(const MemberElement& e) { put(KMember, e); }
        void operator()(const ObjectElement& e) { put(KObject, e); }
        void operator()(const EnumElement& e) { put(KEnum, e); }
        void operator()(const RefElement& e) { put(KRef, e); }
        void operator()(const ExtendElement& e) { put(KExtend, e); }
        void operator()(const OptionElement& e) { put(KOption, e); }
        void operator()(const SelectElement& e) { put(KSelect, e); }
    };
    std::string text(const std::vector<Seen>& v, const P& root)
    {
        std::string s;
        for (auto& x : v)
            s += std::string(kindName[x.kind]) + (x.addr == root->addr ? "(root) " : " ");
        return s;
    }
    void all(const P& n, std::vector<P>& out)
    {
        if (!n)
            return;
        out.push_back(n);
        if (n->has && (iterable(n->kind) || n->kind == KMember))
            for (auto& k : n->kids)
                all(k, out);
    }
    void direct(const P& n, std::vector<P>& out)
    {
        if (n->has && iterable(n->kind))
            for (auto& k : n->kids)
                if (k)
                    out.push_back(k);
    }
    void compare(Case& c, const std::vector<Seen>& got, const std::vector<P>& want, const P& root, const char* what)
    {
        std::vector<Seen> w;
        for (auto& p : want)
            w.push_back({ p->kind, p->addr });
        c.check(got == w, what, std::string(what) + ": visited " + text(got, root) + "; expected " + text(w, root));
        c.saw("visited", got.size());
    }

    P tree(Case& c)
    {
        Gen g(c.rng);
        g.nullEnumValue = true;
        static const Kind ks[] = { KArray, KObject, KObject, KExtend, KOption, KSelect, KMember, KEnum, KHolder };
        return c.rng.chance(90) ? g.of(ks[c.rng.below(9)], 4) : g.any(2);
    }

    // what a functor sees must not depend on what was done with the tree before
    void walks(Case& c)
    {
        P plan = tree(c);
        c << dump(plan);
        auto real = build(plan);
        P n = read(*real);
        std::vector<P> every, kids;
        all(n, every);
        direct(n, kids);
        for (int k = 0; k < 2; k++) {
            {
                Log l;
                Iterate<Recursive> it(l);
                it(*real);
                compare(c, l.seen, every, n, "whole");
            }
            {
                Log l;
                Iterate<Children> it(l);
                it(*real);
                compare(c, l.seen, kids, n, "children");
                it(*real);
                auto twice = kids;
                twice.insert(twice.end(), kids.begin(), kids.end());
                compare(c, l.seen, twice, n, "children again");
            }
        }
        c.eq(show(*real), dump(plan), "source", "the tree is unchanged");
        if (every.size() > 2)
            c.mark(dump(plan));
    }

    template <typename Strategy>
    void select(Case& c, const IElement& root, const P& n, const std::vector<P>& from, const char* what)
    {
        // by name
        std::vector<std::string> names = { "annotation", "string", "member", "", "T1", "array", "objec", "object " };
        if (!from.empty() && c.rng.chance(80))
            names.push_back(from[c.rng.below(from.size())]->name);
        std::string want = names[c.rng.below(names.size())];
        if (c.rng.chance(50))
            want = names.back();
        FilterVisitor byName{ query::Element(want) };
        Iterate<Strategy> it(byName);
        it(root);
        std::vector<const void*> w, got;
        for (auto& p : from)
            if (p->name == want)
                w.push_back(p->addr);
        for (auto* e : byName.elements())
            got.push_back(e);
        c.check(got == w, "by-name",
            std::string(what) + ": " + std::to_string(got.size()) + " elements named \"" + want + "\", expected " + std::to_string(w.size())
                + (got.size() == w.size() ? " (others, or in another order)" : ""));
        c.eq(byName.empty(), w.empty(), "by-name-empty", "emptiness of the selection");
        for (auto* e : byName.elements())
            c.check(query::Element(want)(*e), "query", "a selected element matches");
        c.saw("selected", got.size());

        // by an arbitrary condition
        std::vector<const void*> asked;
        unsigned bit = (unsigned)c.rng.below(3);
        FilterVisitor byCond{ [&](const IElement& e) {
            asked.push_back(&e);
            return bit == 0 ? e.empty() : bit == 1 ? !e.attributes().empty() : e.element().size() > 5;
        } };
        Iterate<Strategy> it2(byCond);
        it2(root);
        w.clear();
        got.clear();
        std::vector<const void*> each;
        for (auto& p : from) {
            each.push_back(p->addr);
            if (bit == 0 ? !p->has : bit == 1 ? !p->attr.empty() : p->name.size() > 5)
                w.push_back(p->addr);
        }
        for (auto* e : byCond.elements())
            got.push_back(e);
        c.check(asked == each, "asked", std::string(what) + ": every visited element is asked about exactly once, in order");
        c.check(got == w, "by-condition", std::string(what) + ": the elements that meet the condition, in order");
    }

    void selecting(Case& c)
    {
        P plan = tree(c);
        if (c.rng.chance(60)) // several elements of one name
            for (auto& k : plan->kids)
                if (k && k->kind != KOption && c.rng.chance(50))
                    k->name = c.rng.chance(80) ? "annotation" : "annotations";
        c << dump(plan);
        auto real = build(plan);
        P n = read(*real);
        std::vector<P> every, kids;
        all(n, every);
        direct(n, kids);
        select<Recursive>(c, *real, n, every, "whole");
        select<Children>(c, *real, n, kids, "children");
        c.mark(dump(plan));
    }

    // ---------------------------------------------------------------- print
    std::string in(int d)
    {
        return std::string(2 * (size_t)d, ' ');
    }
    void print(std::string& o, const P& n, int d, bool bare);
    void infos(std::string& o, const Info& i, int d, const char* what, bool attr)
    {
        o += in(d) + "- <" + what + ">\n";
        for (auto& x : i) {
            if (attr && x.first == "sourceMap")
                continue;
            o += in(d + 1) + "- `" + x.first + "`\n";
            print(o, x.second, d + 1, false);
        }
    }
    // the options of a select are printed without their name, meta and attributes
    void print(std::string& o, const P& n, int d, bool bare)
    {
        if (!bare) {
            o += in(d) + "+ " + n->name + "\n";
            d++;
            infos(o, n->meta, d, "meta", false);
            infos(o, n->attr, d, "attr", true);
        }
        switch (n->kind) {
            case KNull:
                o += in(d) + "- Null\n";
                return;
            case KString:
                o += in(d) + "- String " + (n->has ? "\"" + n->text + "\"" : "<empty>") + "\n";
                return;
            case KNumber:
                o += in(d) + "- Number " + (n->has ? n->text : "<empty>") + "\n";
                return;
            case KBoolean:
                o += in(d) + "- Boolean " + (n->has ? n->text : "<empty>") + "\n";
                return;
            case KRef:
                o += in(d) + "- RefElement " + (n->has ? "&[" + n->text + "]" : "<empty>") + "\n";
                return;
            case KHolder:
                o += in(d) + "- Holder[" + n->name + "]\n";
                break;
            case KMember:
                o += in(d) + "- MemberElement\n";
                break;
            case KEnum:
                o += in(d) + "- EnumElement \n";
                break;
            default:
                o += in(d) + "- " + kindName[n->kind] + "Element\n";
        }
        if (n->has)
            for (auto& k : n->kids)
                if (k)
                    print(o, k, d + 1, n->kind == KSelect);
    }
    void usable(const P& n) // members and holders that hold something
    {
        if (!n)
            return;
        if (n->kind == KHolder || n->kind == KMember) {
            if (!n->has) {
                n->has = true;
                n->kids.clear();
            }
            n->kids.resize(n->kind == KMember ? 2 : 1);
            for (auto& k : n->kids)
                if (!k)
                    k = str("filled");
        }
        for (auto& k : n->kids)
            usable(k);
        for (auto& k : n->meta)
            usable(k.second);
        for (auto& k : n->attr)
            usable(k.second);
    }
    void printing(Case& c)
    {
        P plan = tree(c);
        usable(plan);
        c << dump(plan);
        auto real = build(plan);
        int d = c.rng.range(0, 3);
        std::ostringstream out;
        PrintVisitor pv{ d, out };
        pv(*real);
        std::string want;
        print(want, plan, d, false);
        c.eq(out.str(), want, "print", "printed");
        std::ostringstream again;
        PrintVisitor pv2{ d, again };
        Visit(pv2, *real);
        c.eq(again.str(), want, "print-again", "printed again");
        c.eq(show(*real), dump(plan), "source", "the tree is unchanged");
        c.saw("printed_bytes", want.size());
        c.mark(dump(plan));
    }
}

int main(int argc, char** argv)
{
    return vh::run(argc, argv, { { "walks", 3, walks }, { "selecting", 3, selecting }, { "printing", 2, printing } });
}
