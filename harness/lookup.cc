// Questions about the type, value, key and members of an element, against a
// plain model; what is returned must be the very element of the tree.
#include "el.h"
#include "live.h"
#include "mergemodel.h"
#include "refract/ComparableVisitor.h"
#include "refract/ElementUtils.h"
#include "refract/TypeQueryVisitor.h"
#include "snowcrash.h"
#include "refract/VisitorUtils.h"
using namespace el;
using vh::Case;

namespace
{
    P attr(const P& e, const char* k)
    {
        for (auto& x : e->attr)
            if (x.first == k)
                return x.second;
        return nullptr;
    }
    bool is(const P& e, const std::string& t)
    {
        P a = attr(e, "typeAttributes");
        if (a && a->kind == KArray && a->has)
            for (auto& k : a->kids)
                if (k->kind == KString && k->has && k->text == t)
                    return true;
        return false;
    }
    P sample(const P& e)
    {
        P a = attr(e, "samples");
        return a && a->kind == KArray && a->has && !a->kids.empty() ? a->kids[0] : nullptr;
    }
    P like(const P& e, const P& x)
    {
        return x && x->kind == e->kind ? x : nullptr;
    }
    P value(const P& e)
    {
        if (e->kind == KEnum) {
            if (P s = like(e, sample(e)))
                return value(s);
            if (P d = like(e, attr(e, "default")))
                return value(d);
            if (e->has && e->kids[0])
                return e->kids[0];
            P n = attr(e, "enumerations");
            if (n && n->kind == KArray && n->has)
                for (auto& k : n->kids) {
                    if (k->kind == KEnum)
                        if (P r = value(k))
                            return r;
                    if (k->has)
                        return k;
                }
            return nullptr;
        }
        if (e->has)
            return e;
        if (P s = like(e, sample(e)))
            return s;
        if (P d = like(e, attr(e, "default")))
            return d;
        return is(e, "nullable") ? nullptr : e;
    }
    std::string name(const P& p)
    {
        return p ? dump(p) : "(none)";
    }
    const void* where(const P& p)
    {
        return p ? p->addr : nullptr;
    }

    struct Make {
        vh::Rng& r;
        P scalar(Kind k)
        {
            P n = mk(k);
            n->has = r.chance(60);
            static const char* const w[] = { "a", "b", "", "id", "abc", "ab" };
            static const char* const d[] = { "1", "0", "-7", "3.5" };
            if (n->has)
                n->text = k == KBoolean ? (r.chance(50) ? "1" : "0") : k == KNumber ? d[r.below(4)] : w[r.below(6)];
            return n;
        }
        Kind some()
        {
            static const Kind ks[] = { KString, KString, KNumber, KBoolean, KArray, KObject, KEnum, KEnum, KNull };
            return ks[r.below(9)];
        }
        P of(Kind k, int d)
        {
            P n = mk(k);
            switch (k) {
                case KString:
                case KNumber:
                case KBoolean:
                    n = scalar(k);
                    break;
                case KArray:
                    n->has = r.chance(60);
                    for (int i = n->has ? r.range(0, 2) : 0; i > 0; i--)
                        n->kids.push_back(of(some(), d - 1));
                    break;
                case KObject:
                    n->has = r.chance(70);
                    for (int i = n->has ? r.range(0, 4) : 0; i > 0; i--)
                        n->kids.push_back(r.chance(85) ? member(d - 1) : of(r.chance(50) ? KString : KRef, d - 1));
                    break;
                case KEnum:
                    n->has = r.chance(40);
                    if (n->has)
                        n->kids.push_back(of(r.chance(80) ? KString : some(), d - 1));
                    break;
                case KMember:
                    return member(d);
                case KRef:
                    n->has = true;
                    n->text = "T";
                    break;
                case KNull:
                    n->has = r.chance(50);
                    break;
                default:
                    n->has = r.chance(50);
                    if (n->has && k == KHolder)
                        n->kids.push_back(scalar(KString));
            }
            if (d > 0)
                flags(n, d);
            return n;
        }
        P key()
        {
            P k = scalar(KString);
            if (r.chance(75))
                k->has = true;
            if (r.chance(10))
                k = scalar(KNumber);
            if (r.chance(20)) {
                P x = mk(KExtend);
                x->has = true;
                for (int i = r.range(1, 3); i > 0; i--) {
                    P s = scalar(KString);
                    if (!s->has && r.chance(50))
                        flags(s, 1);
                    x->kids.push_back(s);
                }
                k = x;
            }
            return k;
        }
        P member(int d)
        {
            P m = mk(KMember);
            m->has = true;
            m->kids = { key(), of(d <= 0 ? KString : some(), d - 1) };
            if (r.chance(20)) {
                P b = mk(KBoolean);
                b->has = true;
                b->text = r.chance(60) ? "1" : "0";
                m->attr.emplace_back("variable", r.chance(90) ? b : str("1"));
            }
            return m;
        }
        void flags(P n, int d)
        {
            if (r.chance(35)) {
                static const char* const w[] = { "fixed", "nullable", "fixedType", "required", "fix", "fixedd" };
                P a = mk(KArray);
                a->has = true;
                for (int i = r.range(0, 3); i > 0; i--)
                    a->kids.push_back(r.chance(90) ? str(w[r.below(6)]) : of(KNumber, 0));
                n->attr.emplace_back("typeAttributes", r.chance(95) ? a : str("fixed"));
            }
            if (r.chance(25)) {
                P a = mk(KArray);
                a->has = true;
                for (int i = r.range(0, 3); i > 0; i--)
                    a->kids.push_back(of(r.chance(80) ? n->kind : some(), d - 1));
                n->attr.emplace_back("samples", r.chance(95) ? a : str("s"));
            }
            if (r.chance(25))
                n->attr.emplace_back("default", of(r.chance(80) ? n->kind : some(), d - 1));
            if (n->kind == KEnum && r.chance(70)) {
                P a = mk(KArray);
                a->has = r.chance(90);
                for (int i = a->has ? r.range(0, 3) : 0; i > 0; i--)
                    a->kids.push_back(of(r.chance(60) ? KString : some(), d - 1));
                n->attr.emplace_back("enumerations", a);
            }
            if (r.chance(15))
                n->meta.emplace_back("description", r.chance(80) ? str("text") : of(KNumber, 0));
        }
    };

    template <typename T>
    void casts(Case& c, IElement& e, Kind k, Kind t)
    {
        const IElement& ce = e;
        c.check((TypeQueryVisitor::as<const T>(&ce) == &ce) == (k == t), "as",
            std::string("taking ") + kindName[k] + " for " + kindName[t]);
        c.check((TypeQueryVisitor::as<T>(&e) == &e) == (k == t), "as", std::string("taking ") + kindName[k] + " for " + kindName[t]);
        c.check((get<const T>(&ce) != nullptr) == (k == t), "get", std::string("taking ") + kindName[k] + " for " + kindName[t]);
        c.check((get<T>(&e) != nullptr) == (k == t), "get", std::string("taking ") + kindName[k] + " for " + kindName[t]);
        c.check(!TypeQueryVisitor::as<T>((IElement*)nullptr), "as-none", "no element is no type");
    }

    void typed(Case& c)
    {
        Gen g(c.rng);
        P p = g.of((Kind)(c.index % KCount), 2);
        c << dump(p);
        auto e = build(p);
        TypeQueryVisitor q;
        Visit(q, *e);
        TypeQueryVisitor q2;
        VisitBy(*e, q2);
        typedef TypeQueryVisitor T;
        static const T::ElementType t[] = { T::Null, T::Holder, T::String, T::Number, T::Boolean, T::Array, T::Member, T::Object, T::Enum,
            T::Ref, T::Extend, T::Option, T::Select };
        c.eq((int)q.get(), (int)t[p->kind], "type", "type");
        c.eq((int)q2.get(), (int)t[p->kind], "type", "type");
        casts<NullElement>(c, *e, p->kind, KNull);
        casts<HolderElement>(c, *e, p->kind, KHolder);
        casts<StringElement>(c, *e, p->kind, KString);
        casts<NumberElement>(c, *e, p->kind, KNumber);
        casts<BooleanElement>(c, *e, p->kind, KBoolean);
        casts<ArrayElement>(c, *e, p->kind, KArray);
        casts<MemberElement>(c, *e, p->kind, KMember);
        casts<ObjectElement>(c, *e, p->kind, KObject);
        casts<EnumElement>(c, *e, p->kind, KEnum);
        casts<RefElement>(c, *e, p->kind, KRef);
        casts<ExtendElement>(c, *e, p->kind, KExtend);
        casts<OptionElement>(c, *e, p->kind, KOption);
        casts<SelectElement>(c, *e, p->kind, KSelect);
        c.saw(kindName[p->kind]);
        c.mark(dump(p));
    }

    struct Values {
        Case& c;
        const P& n;
        const IElement* got = nullptr;
        template <typename T>
        void scalar(const T& e)
        {
            got = GetValue<T>()(e);
            c.check(static_cast<const IElement*>(GetSample(e)) == (const IElement*)where(like(n, sample(n))), "sample", "sample");
            c.check(static_cast<const IElement*>(GetDefault(e)) == (const IElement*)where(like(n, attr(n, "default"))), "default", "default");
            for (auto t : { "fixed", "nullable", "fixedType", "required", "fix", "" })
                c.eq(HasTypeAttribute(e, t), is(n, t), "has-attribute", t);
        }
        void operator()(const StringElement& e) { scalar(e); }
        void operator()(const NumberElement& e) { scalar(e); }
        void operator()(const BooleanElement& e) { scalar(e); }
        void operator()(const ArrayElement& e) { scalar(e); }
        void operator()(const ObjectElement& e) { scalar(e); }
        void operator()(const EnumElement& e) { scalar(e); }
        void operator()(const NullElement& e) { scalar(e); }
        template <typename T>
        void operator()(const T& e)
        {
        }
    };
    struct ValuesRef {
        Values* v;
        template <typename T>
        void operator()(const T& e)
        {
            (*v)(e);
        }
    };

    bool inherits(const P& e)
    {
        bool defines = e->has || sample(e) || attr(e, "default");
        switch (e->kind) {
            case KArray:
            case KString:
            case KNumber:
            case KBoolean:
                return defines;
            case KMember: {
                P v = attr(e, "variable");
                if (v && v->kind == KBoolean && v->has && v->text == "1")
                    return false;
                return e->has ? inherits(e->kids[1]) : (bool)attr(e, "default");
            }
            case KEnum:
                return e->has ? inherits(e->kids[0]) : (bool)attr(e, "default");
            default:
                return true;
        }
    }

    void values(Case& c)
    {
        Make m{ c.rng };
        P plan = m.of(m.some(), 3);
        c << dump(plan);
        auto e = build(plan);
        P n = read(*e);
        P want = value(n);
        Values v{ c, n };
        refract::visit(*e, ValuesRef{ &v });
        c.check(v.got == where(want), "value",
            "value: got " + (v.got ? show(*v.got) : std::string("(none)")) + ", expected " + name(want));
        bool lit = n->kind != KNull && ((n->has && (n->kind == KString || n->kind == KNumber || n->kind == KBoolean)) || is(n, "fixed"));
        c.eq(IsLiteral(*e), lit, "literal", "literal");
        P d;
        for (auto& x : n->meta)
            if (x.first == "description")
                d = x.second;
        c.check(GetDescription(*e) == (d && d->kind == KString ? d->addr : nullptr), "description", "description");
        c.check(FindCollectionMemberValue<StringElement>(e->meta(), "description") == (d && d->kind == KString ? d->addr : nullptr),
            "collection", "entry by its name");
        c.check(FindCollectionMemberValue<NumberElement>(e->meta(), "description") == (d && d->kind == KNumber ? d->addr : nullptr),
            "collection", "entry by its name");
        c.check(!FindCollectionMemberValue<StringElement>(e->meta(), "descriptio"), "collection", "entry by another name");
        c.eq(inheritsFixed(*e), inherits(n), "inherits-fixed", "fixed value through the parent");
        c.eq(show(*e), dump(plan), "source", "the element is unchanged");
        c.saw(want == n ? "own" : want ? "substitute" : "none");
        c.mark(dump(plan));
    }

    std::string rendered(const P& k)
    {
        if (k->kind == KString) {
            if (k->has)
                return k->text;
            P s = sample(k);
            if (!s)
                s = attr(k, "default");
            return s && (s->kind == KString || s->kind == KExtend) ? rendered(s) : "";
        }
        if (k->kind == KExtend)
            if (P x = mergemodel::merge(k->kids))
                return rendered(x);
        return "";
    }

    bool renderable(const P& k) // only names made of strings
    {
        return k->kind == KString ? (!sample(k) || sample(k)->kind == KString) && (!attr(k, "default") || attr(k, "default")->kind == KString) :
                                    k->kind == KExtend;
    }

    void members(Case& c)
    {
        Make m{ c.rng };
        P plan = m.of(KObject, 2);
        plan->has = true;
        for (int i = c.rng.range(0, 3); i > 0; i--)
            plan->kids.push_back(m.member(1));
        c << dump(plan);
        auto e = build(plan);
        P n = read(*e);
        const auto& o = static_cast<const ObjectElement&>(*e);
        std::vector<std::string> ask = { "a", "b", "", "id", "ab", "abc", "zz", "A" };
        for (auto& s : ask) {
            P want;
            for (auto& k : n->kids)
                if (!want && k->kind == KMember && k->kids[0]->kind == KString && k->kids[0]->has && k->kids[0]->text == s)
                    want = k;
            bool odd = false; // a name without a value reads as the empty name
            for (auto& k : n->kids)
                odd = odd || (k->kind == KMember && k->kids[0]->kind == KString && !k->kids[0]->has);
            if (s.empty() && odd)
                continue;
            auto* got = FindMemberByKey(o, s);
            c.check(static_cast<IElement*>(got) == where(want), "by-key",
                "member \"" + s + "\": got " + (got ? show(*got) : std::string("(none)")) + ", expected " + name(want));
            c.saw(want ? "members_found" : "members_absent");
        }
        size_t i = 0;
        for (auto& k : o.get()) {
            P w = n->kids[i++];
            if (w->kind != KMember)
                continue;
            const auto& mem = static_cast<const MemberElement&>(*k);
            c.eq(GetKeyAsString(mem), mergemodel::keyOf(w), "key", "name of the member " + dump(w));
            if (renderable(w->kids[0]))
                c.eq(renderKey(*mem.get().key()), rendered(w->kids[0]), "render-key", "rendered name of the member " + dump(w));
            P v = attr(w, "variable");
            c.eq(IsVariableProperty(mem), v && v->kind == KBoolean && v->text == "1", "variable", "variable name");
            for (auto& s : ask) {
                P wv = w->kids[1], wk = w->kids[0];
                if ((wv->kind == KString && !wv->has) || (wk->kind == KString && !wk->has))
                    continue;
                ComparableVisitor byKey(s, ComparableVisitor::key), byValue(s, ComparableVisitor::value);
                VisitBy(mem, byKey);
                VisitBy(mem, byValue);
                c.eq(byKey.get(), wk->kind == KString && wk->text == s, "compare-key", "name equals \"" + s + "\"");
                if (wv->kind != KMember)
                    c.eq(byValue.get(), wv->kind == KString && wv->text == s, "compare-value", "value equals \"" + s + "\"");
            }
            c.saw("keys");
        }
        c.eq(show(*e), dump(plan), "source", "the object is unchanged");
        c.mark(dump(plan));
    }

    // members brought in by a reference: those of the resolved type, part by part
    void mixins(Case& c)
    {
        Make m{ c.rng };
        P ref = mk(KRef);
        ref->has = true;
        ref->text = "T";
        P t;
        bool bad = false;
        int how = (int)c.rng.below(10);
        if (how < 4)
            t = m.of(c.rng.chance(80) ? KObject : m.some(), 1);
        else if (how < 9) {
            t = mk(KExtend);
            t->has = true;
            for (int i = c.rng.range(0, 3); i > 0; i--)
                t->kids.push_back(m.of(c.rng.chance(90) ? KObject : m.some(), 1));
        }
        if (t)
            ref->attr.emplace_back("resolved", t);
        c << dump(ref);
        auto e = build(ref);
        P n = read(*e);
        std::vector<const void*> want, got;
        if (P r = attr(n, "resolved")) {
            std::vector<P> parts = r->kind == KExtend ? r->kids : std::vector<P>{ r };
            for (auto& x : parts) {
                if (x->kind != KObject)
                    bad = true;
                if (bad)
                    break;
                want.push_back(x->addr);
            }
        }
        bool refused = false;
        try {
            HandleRefWhenFetchingMembers<ObjectElement>(
                *e, got, [](const ObjectElement& o, std::vector<const void*>& out) { out.push_back(static_cast<const IElement*>(&o)); });
        } catch (const snowcrash::Error& x) {
            refused = true;
            c.eq(x.code, (int)snowcrash::MSONError, "refusal", "code");
        }
        c.eq(refused, bad, "refused", "a base of another type is refused");
        c.check(got == want, "mixed-in", "objects brought in: " + std::to_string(got.size()) + ", expected " + std::to_string(want.size()));
        c.eq(show(*e), dump(ref), "source", "the reference is unchanged");
        c.saw(bad ? "refused" : "brought_in");
        if (t)
            c.check(resolve(static_cast<const RefElement&>(*e)) == where(attr(n, "resolved")), "resolve", "resolved element");
        c.mark(dump(ref));
    }
}

int main(int argc, char** argv)
{
    return vh::run(argc, argv, { { "typed", 2, typed }, { "values", 4, values }, { "members", 3, members }, { "mixins", 1, mixins } });
}
