// Cloning, copying, moving and assigning element trees.
#include "el.h"
#include "live.h"
using namespace el;
using vh::Case;

static IElement* at(const void* p)
{
    return const_cast<IElement*>(static_cast<const IElement*>(p));
}

// change one randomly chosen node of a real tree through the public API
static std::string mutate(vh::Rng& r, IElement& root)
{
    std::set<const void*> s;
    addresses(read(root), s);
    std::vector<const void*> v(s.begin(), s.end());
    // deterministic order: by traversal, not by address
    std::vector<const void*> order;
    std::function<void(const P&)> walk = [&](const P& n) {
        if (!n)
            return;
        order.push_back(n->addr);
        for (auto& k : n->kids)
            walk(k);
        for (auto& k : n->meta)
            walk(k.second);
        for (auto& k : n->attr)
            walk(k.second);
    };
    walk(read(root));
    IElement* e = at(order[r.below(order.size())]);
    switch (r.below(6)) {
        case 0:
            e->element("MUTATED");
            return "name";
        case 1:
            e->meta().set("mutated", from_primitive(std::string("m")));
            return "meta";
        case 2:
            e->attributes().set("mutated", from_primitive(true));
            return "attr";
        case 3:
            e->meta().clear();
            e->meta().set("zz", from_primitive(1));
            return "clear";
        default:
            if (auto p = dynamic_cast<StringElement*>(e))
                p->set(dsd::String{ "MUTATED" });
            else if (auto p = dynamic_cast<NumberElement*>(e))
                p->set(dsd::Number{ 31337 });
            else if (auto p = dynamic_cast<RefElement*>(e))
                p->set(dsd::Ref{ "MUTATED" });
            else if (auto p = dynamic_cast<ArrayElement*>(e)) {
                if (p->empty())
                    p->set();
                p->get().push_back(from_primitive(std::string("new")));
            } else if (auto p = dynamic_cast<ObjectElement*>(e)) {
                if (p->empty())
                    p->set();
                p->get().push_back(from_primitive(std::string("new")));
            } else if (auto p = dynamic_cast<ExtendElement*>(e)) {
                if (p->empty())
                    p->set();
                p->get().push_back(from_primitive(std::string("new")));
            } else if (auto p = dynamic_cast<OptionElement*>(e)) {
                if (p->empty())
                    p->set();
                p->get().push_back(from_primitive(std::string("new")));
            } else if (auto p = dynamic_cast<SelectElement*>(e)) {
                if (p->empty())
                    p->set();
                p->get().push_back(make_element<OptionElement>());
            } else if (auto p = dynamic_cast<MemberElement*>(e)) {
                p->set(dsd::Member{ "MUTATED", from_primitive(false) });
            } else if (auto p = dynamic_cast<EnumElement*>(e)) {
                p->set(dsd::Enum{ from_primitive(std::string("MUTATED")) });
            } else
                e->attributes().set("other", from_primitive(std::string("x")));
            return "value";
    }
}

static P gen(Case& c, int depth)
{
    Gen g(c.rng);
    g.nullEnumValue = true;
    Kind k = (Kind)c.rng.below(KCount);
    return g.of(k, depth);
}

static void disjoint(Case& c, const IElement& a, const IElement& b, const char* key)
{
    std::set<const void*> x, y;
    addresses(read(a), x);
    addresses(read(b), y);
    for (auto p : x)
        if (p && y.count(p))
            c.fail(key, "the copy shares a node with the original");
    c.saw("node_pairs_disjoint", x.size());
}

static void cloneAll(Case& c)
{
    auto n = gen(c, 4);
    std::string want = dump(n);
    c << want;
    if (count(n) > 2)
        c.mark(want);
    auto e = build(n);
    c.eq(show(*e), want, "build", "tree as built");
    auto k = e->clone();
    c.eq(show(*k), want, "clone", "clone");
    c.eq(show(*e), want, "clone-original", "original after cloning");
    disjoint(c, *e, *k, "clone-shares");
    c.saw("nodes", count(n));
    // changes to either side are invisible on the other
    auto what = mutate(c.rng, *k);
    c.eq(show(*e), want, "clone-aliases", "original after changing the clone's " + what);
    auto k2 = e->clone();
    what = mutate(c.rng, *e);
    c.eq(show(*k2), want, "clone-aliases", "clone after changing the original's " + what);
    e.reset();
    c.eq(show(*k2), want, "clone-outlives", "clone after the original is gone");
}

static void cloneFlags(Case& c)
{
    auto n = gen(c, 3);
    Gen g(c.rng);
    if (c.rng.chance(60))
        n->meta.insert(n->meta.begin() + c.rng.below(n->meta.size() + 1), { "id", str("Name") });
    // keep "id" unique
    bool seen = false;
    for (size_t i = 0; i < n->meta.size();) {
        if (n->meta[i].first == "id") {
            if (seen) {
                n->meta.erase(n->meta.begin() + i);
                continue;
            }
            seen = true;
        }
        i++;
    }
    if (c.rng.chance(40))
        n->name = "Custom";
    auto e = build(n);
    std::string before = show(*e);
    c << before;
    c.mark(before);
    for (int f = 0; f < 32; f++) {
        auto want = copy(n);
        if (!(f & IElement::cElement))
            want->name = defName[n->kind];
        if (!(f & IElement::cMeta))
            want->meta.clear();
        else if (f & IElement::cNoMetaId)
            for (size_t i = 0; i < want->meta.size(); i++)
                if (want->meta[i].first == "id") {
                    want->meta.erase(want->meta.begin() + i);
                    break;
                }
        if (!(f & IElement::cAttributes))
            want->attr.clear();
        if (!(f & IElement::cValue)) {
            want->has = false;
            want->kids.clear();
        }
        auto k = e->clone(f);
        c.eq(show(*k), dump(want), "clone-flags", "clone with flags " + std::to_string(f));
        c.saw("flag_combinations");
    }
    c.eq(show(*e), before, "clone-original", "original after cloning");
}

template <typename E>
static void typed(Case& c, Kind kind)
{
    Gen g(c.rng);
    g.nullEnumValue = true;
    auto na = g.of(kind, 3), nb = g.of(kind, 3);
    auto a = build(na), b = build(nb);
    std::string wa = dump(na), wb = dump(nb);
    c << wa << " / " << wb;
    c.mark(wa + wb);
    E& ea = static_cast<E&>(*a);
    E& eb = static_cast<E&>(*b);
    {
        E k(ea);
        c.eq(show(k), wa, "copy-construct", "copy");
        c.eq(show(ea), wa, "copy-construct", "source of copy");
        disjoint(c, k, ea, "copy-shares");
        k = eb;
        c.eq(show(k), wb, "copy-assign", "assigned");
        c.eq(show(eb), wb, "copy-assign", "source of assignment");
        disjoint(c, k, eb, "copy-shares");
        const E& self = k;
        k = self;
        c.eq(show(k), wb, "self-assign", "assigned to itself");
        mutate(c.rng, k);
        c.eq(show(eb), wb, "copy-aliases", "source after changing the copy");
        E m(std::move(k));
        std::string sm = show(m);
        k = ea; // a moved-from element can be assigned
        c.eq(show(k), wa, "assign-moved-from", "moved-from, then assigned");
        E m2(ea);
        m2 = std::move(m);
        c.eq(show(m2), sm, "move-assign", "move-assigned");
        using std::swap;
        E s1(ea), s2(eb);
        swap(s1, s2);
        c.eq(show(s1), wb, "swap", "swapped");
        c.eq(show(s2), wa, "swap", "swapped");
        c.saw("typed_operations", 8);
    }
    // the same on the content and on the named sub-elements alone
    {
        E x(ea), y(eb);
        swap(x.meta(), y.meta());
        auto wx = copy(na), wy = copy(nb);
        std::swap(wx->meta, wy->meta);
        c.eq(show(x), dump(wx), "swap-info", "meta swapped");
        c.eq(show(y), dump(wy), "swap-info", "meta swapped");
        x.attributes() = y.attributes();
        wx->attr = wy->attr;
        c.eq(show(x), dump(wx), "assign-info", "attributes assigned");
        c.eq(show(y), dump(wy), "assign-info", "attributes source");
        const InfoElements& self = x.attributes();
        x.attributes() = self;
        c.eq(show(x), dump(wx), "assign-info", "attributes assigned to themselves");
        if (!ea.empty() && !eb.empty()) {
            typename E::ValueType v(ea.get());
            E z(std::move(v));
            auto wz = copy(na);
            wz->meta.clear();
            wz->attr.clear();
            wz->name = defName[kind];
            c.eq(show(z), dump(wz), "content-copy", "element from a copy of the content");
            z.set(eb.get());
            auto wz2 = copy(nb);
            wz2->meta.clear();
            wz2->attr.clear();
            wz2->name = defName[kind];
            c.eq(show(z), dump(wz2), "content-set", "content set");
            E named("Given", ea.get());
            wz->name = "Given";
            c.eq(show(named), dump(wz), "content-named", "named element from content");
        }
    }
    c.eq(show(ea), wa, "copy-original", "original afterwards");
    c.eq(show(eb), wb, "copy-original", "original afterwards");
}

static void typedAny(Case& c)
{
    switch ((Kind)c.rng.below(KCount)) {
        case KNull:
            return typed<NullElement>(c, KNull);
        case KHolder:
            return typed<HolderElement>(c, KHolder);
        case KString:
            return typed<StringElement>(c, KString);
        case KNumber:
            return typed<NumberElement>(c, KNumber);
        case KBoolean:
            return typed<BooleanElement>(c, KBoolean);
        case KArray:
            return typed<ArrayElement>(c, KArray);
        case KMember:
            return typed<MemberElement>(c, KMember);
        case KObject:
            return typed<ObjectElement>(c, KObject);
        case KEnum:
            return typed<EnumElement>(c, KEnum);
        case KRef:
            return typed<RefElement>(c, KRef);
        case KExtend:
            return typed<ExtendElement>(c, KExtend);
        case KOption:
            return typed<OptionElement>(c, KOption);
        default:
            return typed<SelectElement>(c, KSelect);
    }
}

static void balance(Case& c)
{
    auto n = gen(c, 4);
    c << dump(n);
    { auto warm = build(n); warm->clone(); }
    long before = vh::live();
    {
        auto e = build(n);
        auto k = e->clone();
        auto k2 = k->clone(IElement::cAll | IElement::cNoMetaId);
        auto k3 = k->clone(IElement::cMeta);
        k = std::move(k2);
        e = k->clone();
    }
    long after = vh::live();
    c.eq(after, before, "leak", "live heap blocks after all trees are destroyed");
    c.saw("balance_checks");
}

int main(int argc, char** argv)
{
    vh::countAllocations();
    return vh::run(argc, argv, { { "clone", 4, cloneAll }, { "flags", 2, cloneFlags }, { "typed", 4, typedAny }, { "balance", 2, balance } });
}
