// Equality of element trees, against the independent tree model.
#include "el.h"
using namespace el;
using vh::Case;

static P gen(Case& c, int depth)
{
    Gen g(c.rng);
    g.nullEnumValue = true;
    g.infoPercent = c.rng.chance(50) ? 15 : 35;
    P n = g.of((Kind)c.rng.below(KCount), depth);
    for (int i = 0; i < 6 && count(n) < 5; i++)
        n = g.of((Kind)c.rng.below(KCount), depth);
    return n;
}

static std::string canon(const P& n)
{
    DumpOpt d;
    d.names = false;
    return dump(n, d);
}

// all nodes of a model, in order
static void nodes(const P& n, std::vector<P>& out)
{
    if (!n)
        return;
    out.push_back(n);
    for (auto& k : n->kids)
        nodes(k, out);
    for (auto& k : n->meta)
        nodes(k.second, out);
    for (auto& k : n->attr)
        nodes(k.second, out);
}

// one small structural change somewhere in the tree; the result may still be equal
static std::string tweak(vh::Rng& r, P& root)
{
    std::vector<P> v;
    nodes(root, v);
    P n = v[r.below(v.size())];
    Gen g(r);
    switch (r.below(9)) {
        case 0:
            if (!n->meta.empty()) {
                n->meta.erase(n->meta.begin() + r.below(n->meta.size()));
                return "drop meta";
            }
            n->meta.emplace_back("extra", str("e"));
            return "add meta";
        case 1:
            if (!n->attr.empty()) {
                n->attr.erase(n->attr.begin() + r.below(n->attr.size()));
                return "drop attr";
            }
            n->attr.emplace_back("extra", str("e"));
            return "add attr";
        case 2:
            if (n->meta.size() > 1) {
                std::swap(n->meta[0], n->meta[n->meta.size() - 1]);
                return "reorder meta";
            }
            std::swap(n->meta, n->attr);
            return "swap meta and attributes";
        case 3:
            if (!n->attr.empty()) {
                n->attr.back().first += "x";
                return "rename attr";
            }
            std::swap(n->meta, n->attr);
            return "swap meta and attributes";
        case 4:
            if (n->kind != KMember && n->kind != KEnum && n->kind != KHolder && n->kind != KNull && n->has && !n->kids.empty()) {
                n->kids.erase(n->kids.begin() + r.below(n->kids.size()));
                return "drop child";
            }
            // fallthrough
        case 5:
            if ((n->kind == KArray || n->kind == KObject || n->kind == KOption || n->kind == KExtend) && n->has) {
                n->kids.push_back(str("extra"));
                return "add child";
            }
            // fallthrough
        case 6:
            if (n->kids.size() > 1) {
                std::swap(n->kids[0], n->kids[n->kids.size() - 1]);
                if (n->kind != KMember || n->kids[0])
                    return "swap children";
                std::swap(n->kids[0], n->kids[n->kids.size() - 1]);
            }
            // fallthrough
        case 7:
            if (n->kind == KString || n->kind == KNumber || n->kind == KRef) {
                if (n->has) {
                    n->text = n->kind == KNumber ? n->text + "0" : n->text + (r.chance(50) ? "x" : " ");
                    return "change text";
                }
                n->has = true;
                n->text = n->kind == KNumber ? "0" : "";
                return "set value";
            }
            if (n->kind == KBoolean && n->has) {
                n->text = n->text == "1" ? "0" : "1";
                return "flip";
            }
            // fallthrough
        default:
            if (n->has) {
                n->has = false;
                n->kids.clear();
                n->text.clear();
                return "unset";
            }
            n->name += "Z";
            return "rename only";
    }
}

template <typename E>
static void content(Case& c, const IElement& a, const IElement& b, bool want)
{
    auto x = dynamic_cast<const E*>(&a);
    auto y = dynamic_cast<const E*>(&b);
    if (!x || !y || x->empty() || y->empty())
        return;
    c.eq(x->get() == y->get(), want, "content-eq", "content ==");
    c.saw("content_comparisons");
}
template <typename E>
static void contentNe(Case& c, const IElement& a, const IElement& b, bool want)
{
    auto x = dynamic_cast<const E*>(&a);
    auto y = dynamic_cast<const E*>(&b);
    if (!x || !y || x->empty() || y->empty())
        return;
    c.eq(x->get() != y->get(), !want, "content-ne", "content !=");
}

static void compare(Case& c, const P& na, const P& nb, const char* how)
{
    auto a = build(na), b = build(nb);
    bool want = canon(na) == canon(nb);
    c.saw(want ? "pairs_equal" : "pairs_different");
    std::string sa = show(*a), sb = show(*b);
    c.eq(*a == *b, want, "eq", std::string("a == b after ") + how);
    c.eq(*b == *a, want, "eq-symmetric", std::string("b == a after ") + how);
    c.eq(*a != *b, !want, "ne", std::string("a != b after ") + how);
    c.eq(*b != *a, !want, "ne", std::string("b != a after ") + how);
    c.eq(*a == *a, true, "eq-reflexive", "a == a");
    c.eq(a->meta() == b->meta(), canon(na) == canon(nb) || [&] {
        auto x = mk(KString), y = mk(KString);
        x->meta = na->meta;
        y->meta = nb->meta;
        return canon(x) == canon(y);
    }(), "eq-info", "meta == meta");
    c.eq(a->attributes() != b->attributes(), [&] {
        auto x = mk(KString), y = mk(KString);
        x->meta = na->attr;
        y->meta = nb->attr;
        return canon(x) != canon(y);
    }(), "eq-info", "attributes != attributes");
    // content alone
    auto x = copy(na), y = copy(nb);
    x->meta.clear();
    y->meta.clear();
    x->attr.clear();
    y->attr.clear();
    bool cw = canon(x) == canon(y);
    content<HolderElement>(c, *a, *b, cw);
    content<StringElement>(c, *a, *b, cw);
    content<NumberElement>(c, *a, *b, cw);
    content<BooleanElement>(c, *a, *b, cw);
    content<ArrayElement>(c, *a, *b, cw);
    content<EnumElement>(c, *a, *b, cw);
    content<MemberElement>(c, *a, *b, cw);
    content<ObjectElement>(c, *a, *b, cw);
    content<RefElement>(c, *a, *b, cw);
    content<ExtendElement>(c, *a, *b, cw);
    content<OptionElement>(c, *a, *b, cw);
    content<SelectElement>(c, *a, *b, cw);
    contentNe<StringElement>(c, *a, *b, cw);
    contentNe<NumberElement>(c, *a, *b, cw);
    contentNe<ArrayElement>(c, *a, *b, cw);
    contentNe<MemberElement>(c, *a, *b, cw);
    contentNe<ObjectElement>(c, *a, *b, cw);
    contentNe<RefElement>(c, *a, *b, cw);
    contentNe<ExtendElement>(c, *a, *b, cw);
    contentNe<OptionElement>(c, *a, *b, cw);
    contentNe<SelectElement>(c, *a, *b, cw);
    c.eq(show(*a), sa, "eq-mutates", "left side after comparing");
    c.eq(show(*b), sb, "eq-mutates", "right side after comparing");
}

static void pairs(Case& c)
{
    auto a = gen(c, 3), b = gen(c, 3);
    c << dump(a) << " vs " << dump(b);
    c.mark(dump(a) + dump(b));
    compare(c, a, b, "independent generation");
    compare(c, a, copy(a), "copying");
}

static void tweaked(Case& c)
{
    auto a = gen(c, 4), b = copy(a);
    int n = c.rng.chance(85) ? 1 : 2;
    std::string how;
    for (int i = 0; i < n; i++)
        how += (i ? ", " : "") + tweak(c.rng, b);
    c << dump(a) << " vs " << how << " " << dump(b);
    c.mark(dump(a) + dump(b));
    c.saw(("tweak:" + how.substr(0, how.find(','))).c_str());
    compare(c, a, b, how.c_str());
}

static void family(Case& c)
{
    // every pair out of many minimal elements
    std::vector<P> all;
    for (int k = 0; k < KCount; k++)
        for (int v = 0; v < 4; v++) {
            auto n = mk((Kind)k);
            n->has = v != 0;
            if (n->has) {
                static const char* const t[] = { "", "", "1", "a" };
                if (k == KString || k == KRef)
                    n->text = t[v];
                else if (k == KNumber)
                    n->text = v == 1 ? "0" : v == 2 ? "1" : "1.0";
                else if (k == KBoolean)
                    n->text = v == 2 ? "1" : "0";
                else if (k == KMember) {
                    n->kids.push_back(v == 1 ? nullptr : str(t[v]));
                    n->kids.push_back(v == 3 ? str("v") : nullptr);
                } else if (k == KEnum || k == KHolder)
                    n->kids.push_back(v == 1 ? nullptr : str(t[v]));
                else if (k == KSelect) {
                    for (int i = 1; i < v; i++)
                        n->kids.push_back(mk(KOption));
                } else if (k != KNull)
                    for (int i = 1; i < v; i++)
                        n->kids.push_back(str("k"));
            }
            all.push_back(n);
        }
    int off = (int)(c.index % all.size());
    c << "pairs with " << dump(all[off]);
    c.mark(dump(all[off]));
    for (auto& x : all)
        compare(c, all[off], x, "enumeration of small elements");
}

int main(int argc, char** argv)
{
    return vh::run(argc, argv, { { "tweaked", 6, tweaked }, { "pairs", 2, pairs }, { "family", 1, family } });
}
