// Merging the elements of an inheritance chain into one, against a plain model.
#include "el.h"
#include "live.h"
#include "mergemodel.h"
#include "refract/Exception.h"
using namespace el;
using vh::Case;

namespace
{
    using namespace mergemodel;

    P stringExtend(Gen& g)
    {
        P x = mk(KExtend);
        x->has = true;
        int n = g.r.range(1, 3);
        for (int i = 0; i < n; i++) {
            P s = mk(KString);
            s->has = g.r.chance(40);
            s->text = s->has ? g.word() : "";
            if (g.r.chance(25))
                s->attr.emplace_back("default", str(g.word()));
            if (g.r.chance(25)) {
                P a = mk(KArray);
                a->has = true;
                if (g.r.chance(80))
                    a->kids.push_back(str(g.word()));
                s->attr.emplace_back("samples", a);
            }
            if (g.r.chance(15)) {
                P a = mk(KArray);
                a->has = true;
                a->kids.push_back(str("nullable"));
                s->attr.emplace_back("typeAttributes", a);
            }
            x->kids.push_back(s);
        }
        return x;
    }
    P member(Gen& g)
    {
        P m = g.of(KMember, 2);
        if (m->has) {
            int k = (int)g.r.below(10);
            if (k < 2)
                m->kids[0] = stringExtend(g);
            else if (k < 9 || (m->kids[0] && m->kids[0]->kind == KExtend))
                m->kids[0] = str(g.word());
        }
        return m;
    }
    P object(Gen& g)
    {
        P o = g.of(KObject, 0);
        o->kids.clear();
        if (!o->has)
            return o;
        int n = g.r.range(0, 4);
        for (int i = 0; i < n; i++) {
            int k = (int)g.r.below(12);
            if (k < 8)
                o->kids.push_back(member(g));
            else if (k < 10) {
                P r = mk(KRef);
                r->has = true;
                r->text = g.typeName();
                o->kids.push_back(r);
            } else if (k == 10) {
                P s = mk(KSelect);
                s->has = g.r.chance(95);
                int q = g.r.range(1, 3);
                for (int j = 0; j < q && s->has; j++) {
                    P op = mk(KOption);
                    op->has = g.r.chance(95);
                    int w = g.r.range(0, 2);
                    for (int u = 0; u < w && op->has; u++)
                        op->kids.push_back(g.r.chance(85) ? member(g) : g.any(1));
                    s->kids.push_back(op);
                }
                o->kids.push_back(s);
            } else
                o->kids.push_back(g.any(1));
        }
        return o;
    }
    void extraInfo(Gen& g, P n)
    {
        static const char* const mk_[] = { "id", "prefix", "namespace", "description", "title", "ref", "links", "idx" };
        while (g.r.chance(45))
            set(n->meta, mk_[g.r.below(8)], g.r.chance(80) ? str(g.word()) : g.any(1));
        static const char* const at_[] = { "typeAttributes", "samples", "default", "id", "variable" };
        while (g.r.chance(40))
            set(n->attr, at_[g.r.below(5)], g.r.chance(60) ? str(g.word()) : g.any(1));
    }
    P enumeration(Gen& g)
    {
        P e = mk(KEnum);
        e->has = g.r.chance(60);
        if (e->has)
            e->kids.push_back(g.r.chance(90) ? g.any(1) : nullptr);
        if (g.r.chance(75)) {
            P a = mk(KArray);
            a->has = true;
            int n = g.r.range(0, 4);
            for (int i = 0; i < n; i++)
                a->kids.push_back(g.r.chance(80) ? str(g.word()) : g.any(1));
            if (g.r.chance(20))
                a->meta.emplace_back("k", str("v"));
            e->attr.emplace_back("enumerations", a);
        }
        return e;
    }

    P part(Gen& g, Kind k)
    {
        P n = k == KObject ? object(g) : k == KEnum ? enumeration(g) : g.of(k, 2);
        extraInfo(g, n);
        return n;
    }

    void chain(Case& c)
    {
        Gen g(c.rng);
        g.infoPercent = 12;
        static const Kind kinds[] = { KObject, KObject, KObject, KEnum, KEnum, KArray, KString, KNumber, KBoolean, KRef };
        Kind k = kinds[c.rng.below(10)];
        if (c.rng.chance(6))
            k = (Kind)c.rng.below(KCount);
        int n = c.rng.range(0, 10) == 0 ? (int)c.rng.below(2) : c.rng.range(2, 5);
        std::vector<P> all;
        std::string src;
        for (int i = 0; i < n; i++) {
            all.push_back(part(g, c.rng.chance(3) ? (Kind)c.rng.below(KCount) : k));
            src += dump(all.back()) + "\n  ";
        }
        c << src;
        bool refused = false;
        P want, lossy;
        sawLost = false;
        try {
            keepsLost = false;
            want = merge(all);
            keepsLost = true;
            lossy = merge(all);
            keepsLost = false;
        } catch (const Refused&) {
            refused = true;
        }
        // an item list is lost by the code (recorded finding) only where the base has none
        dsd::Extend x;
        for (auto& p : all)
            x.push_back(build(p));
        long before = vh::live();
        bool threw = false;
        std::string got;
        try {
            auto r = x.merge();
            got = show(r.get());
            if (r) {
                std::set<const void*> a, b;
                addresses(read(*r), a);
                for (auto& e : x)
                    addresses(read(*e), b);
                for (auto p : a)
                    c.check(!b.count(p), "shares", "the merged element shares an element with a source");
            }
            auto r2 = x.merge();
            c.eq(show(r2.get()), got, "repeat", "merging once more");
        } catch (const refract::LogicError&) {
            threw = true;
        }
        c.check(threw == refused, "refuse", refused ? "elements that cannot be merged are refused" : "elements of one kind are merged");
        if (!refused) {
            std::string w = dump(want), l = dump(lossy);
            if (got == l && l != w) {
                c.saw("items_of_derived_array_lost");
                c.fail("array-items-lost-without-base-items", "merging drops the items of the derived array: got " + got + ", expected " + w);
            }
            c.eq(got, w, "merge", "merged element");
            c.saw(n > 1 ? "merged" : "trivial");
        } else
            c.saw("refused");
        std::string after;
        for (auto& e : x)
            after += show(*e) + "\n  ";
        c.eq(after, src, "source", "the elements merged are unchanged");
        (void)before;
        if (n > 1)
            c.mark(src);
    }
}

int main(int argc, char** argv)
{
    vh::countAllocations();
    return vh::run(argc, argv, { { "chain", 1, chain } });
}
