// The value containers (array, object, extend, option, select) and the single
// value ones (member, enum, holder, number), as sequences driven by random
// histories against a plain model.
#include "el.h"
#include "live.h"
using namespace el;
using vh::Case;

typedef std::vector<P> M;

static std::string text(const M& m)
{
    std::string s;
    for (auto& p : m)
        s += dump(p) + "; ";
    return s;
}
template <typename T>
static std::string text(const T& t)
{
    std::string s;
    for (auto& e : t)
        s += show(e.get()) + "; ";
    return s;
}

template <typename T>
struct Make {
    static std::unique_ptr<IElement> el(const P& p)
    {
        return build(p);
    }
    static P gen(Gen& g, bool members)
    {
        return members && g.r.chance(80) ? g.of(KMember, 2) : g.any(2);
    }
};
template <>
struct Make<dsd::Select> {
    static std::unique_ptr<OptionElement> el(const P& p)
    {
        return std::unique_ptr<OptionElement>(static_cast<OptionElement*>(build(p).release()));
    }
    static P gen(Gen& g, bool)
    {
        return g.of(KOption, 2);
    }
};

// the key of a member, if it is a string with a value; else no key
static bool keyOf(const P& p, std::string& k)
{
    if (p->kind != KMember || !p->has || !p->kids[0] || p->kids[0]->kind != KString || !p->kids[0]->has)
        return false;
    k = p->kids[0]->text;
    return true;
}
static size_t findKey(const M& m, const std::string& k)
{
    std::string q;
    for (size_t i = 0; i < m.size(); i++)
        if (keyOf(m[i], q) && q == k)
            return i;
    return m.size();
}

template <typename T>
struct Special {
    static void push(T& t, M& m, const P& p)
    {
        t.push_back(Make<T>::el(p));
        m.push_back(p);
    }
    static const char* extra(Case& c, T&, M&, Gen&)
    {
        return "nothing";
    }
};
template <>
struct Special<dsd::Object> {
    static void push(dsd::Object& t, M& m, const P& p)
    {
        t.push_back(build(p));
        std::string k;
        if (keyOf(p, k)) {
            size_t i = findKey(m, k);
            if (i < m.size())
                m.erase(m.begin() + i);
        }
        m.push_back(p);
    }
    static const char* extra(Case& c, dsd::Object& t, M& m, Gen& g)
    {
        std::string k = g.word();
        if (!m.empty() && c.rng.chance(50))
            keyOf(m[c.rng.below(m.size())], k);
        size_t i = findKey(m, k);
        if (c.rng.chance(50)) {
            auto it = t.find(k);
            c.eq((size_t)(it - t.begin()), i, "find", "find " + k);
            c.check((it == t.end()) == (i == m.size()), "find", "end iff absent");
            c.saw(i < m.size() ? "found" : "not_found");
            return "find";
        }
        auto v = g.any(2);
        auto e = build(v);
        auto raw = e.get();
        auto it = t.addMember(k, std::move(e));
        if (i < m.size())
            m.erase(m.begin() + i);
        auto mem = mk(KMember);
        mem->has = true;
        mem->kids = { str(k), v };
        m.push_back(mem);
        c.check(it != t.end() && it + 1 == t.end(), "addMember-it", "addMember returns the member added");
        auto member = dynamic_cast<MemberElement*>(it->get());
        c.check(member && member->get().value() == raw, "addMember-own", "the value given is the one kept");
        return "addMember";
    }
};

template <typename T>
static void history(Case& c)
{
    const bool isObject = std::is_same<T, dsd::Object>::value;
    T box[2];
    M model[2];
    int n = c.rng.range(4, 24);
    Gen g(c.rng);
    std::string trace;
    for (int s = 0; s < n; s++) {
        int w = (int)c.rng.below(2);
        T& t = box[w];
        M& m = model[w];
        const char* op = "";
        switch (c.rng.below(isObject ? 17 : 11)) {
            case 0:
            case 1:
                op = "push_back";
                Special<T>::push(t, m, Make<T>::gen(g, isObject));
                break;
            case 2: {
                op = "insert";
                size_t at = c.rng.below(m.size() + 1);
                auto p = Make<T>::gen(g, isObject);
                auto e = Make<T>::el(p);
                auto raw = e.get();
                auto it = t.insert(t.begin() + at, std::move(e));
                c.check((size_t)(it - t.begin()) == at && it->get() == raw, "insert-it", "insert returns where the element is");
                m.insert(m.begin() + at, p);
                break;
            }
            case 3: {
                op = "erase";
                if (m.empty())
                    break;
                size_t at = c.rng.below(m.size());
                auto it = t.erase(t.begin() + at);
                c.eq((size_t)(it - t.begin()), at, "erase-it", "erase returns the position that follows");
                m.erase(m.begin() + at);
                break;
            }
            case 4: {
                op = "erase-range";
                size_t a = c.rng.below(m.size() + 1), b = a + c.rng.below(m.size() - a + 1);
                if (b - a > 3)
                    b = a + 3;
                auto it = t.erase(t.begin() + a, t.begin() + b);
                c.eq((size_t)(it - t.begin()), a, "erase-it", "erase returns the position that follows");
                m.erase(m.begin() + a, m.begin() + b);
                break;
            }
            case 5:
                op = "copy";
                if (c.rng.chance(50)) {
                    T x(box[1 - w]);
                    t = x;
                    // changing the source of a copy does not show
                    x.clear();
                } else
                    t = box[1 - w];
                m = model[1 - w];
                break;
            case 6: {
                op = "move";
                T x(std::move(t));
                c.eq(text(x), text(m), "move", "contents after moving");
                t = std::move(x);
                break;
            }
            case 7:
                op = "swap";
                swap(box[0], box[1]);
                std::swap(model[0], model[1]);
                break;
            case 8:
                op = "clear";
                if (c.rng.chance(12)) {
                    t.clear();
                    m.clear();
                }
                break;
            case 9:
                op = "self-assign";
                t = *&t;
                break;
            default:
                op = Special<T>::extra(c, t, m, g);
        }
        c << w << ":" << op << " ";
        trace += op;
        c.saw((std::string("op:") + op).c_str());
        std::set<const void*> x[2];
        for (int k = 0; k < 2; k++) {
            c.eq(text(box[k]), text(model[k]), op, std::string("contents after ") + op);
            c.eq(box[k].size(), model[k].size(), "size", "size");
            c.eq(box[k].empty(), model[k].empty(), "empty", "empty");
            const T& cb = box[k];
            c.eq((size_t)(cb.end() - cb.begin()), model[k].size(), "iterators", "distance");
            for (auto& e : box[k])
                addresses(read(e.get()), x[k]);
        }
        for (auto p : x[0])
            c.check(!x[1].count(p), "shared", "two collections share an element");
        c.saw("states_checked");
    }
    c.mark(trace + text(model[0]).substr(0, 200));
}

template <typename T>
static void construct(Case& c)
{
    Gen g(c.rng);
    P p[4];
    for (auto& x : p)
        x = Make<T>::gen(g, false);
    int n = (int)c.rng.below(5);
    long before = vh::live();
    std::string got, want;
    for (int i = 0; i < n; i++)
        want += dump(p[i]) + "; ";
    {
        auto e = [&](int i) { return Make<T>::el(p[i]); };
        T t = n == 0 ? T() : n == 1 ? T(e(0)) : n == 2 ? T(e(0), e(1)) : n == 3 ? T(e(0), e(1), e(2)) : T(e(0), e(1), e(2), e(3));
        got = text(t);
    }
    c << want;
    c.eq(got, want, "construct", "construction keeps the order");
    c.mark(want);
    (void)before;
}

static void member(Case& c)
{
    Gen g(c.rng);
    auto k = c.rng.chance(60) ? str(g.word()) : g.any(2);
    auto v = c.rng.chance(85) ? g.any(2) : nullptr;
    c << dump(k) << " -> " << dump(v);
    auto ke = build(k), ve = build(v);
    const IElement *kr = ke.get(), *vr = ve.get();
    dsd::Member m(std::move(ke), std::move(ve));
    c.check(m.key() == kr && m.value() == vr, "member-own", "member keeps the elements given");
    dsd::Member copy(m);
    c.eq(show(copy.key()), dump(k), "member-copy", "key of a copy");
    c.eq(show(copy.value()), dump(v), "member-copy", "value of a copy");
    c.check(copy.key() != kr && (!v || copy.value() != vr), "member-copy", "a copy has elements of its own");
    auto v2 = g.any(2);
    auto e2 = build(v2);
    auto r2 = e2.get();
    copy.value(std::move(e2));
    c.check(copy.value() == r2, "member-set", "the value set is the one kept");
    c.eq(show(copy.key()), dump(k), "member-set", "key after setting the value");
    c.check(m.value() == vr, "member-set", "setting a copy's value leaves the original");
    auto got = copy.claim();
    c.check(got.get() == r2 && copy.value() == nullptr && copy.key() != nullptr, "member-claim", "claim hands the value over");
    swap(copy, m);
    c.check(copy.key() == kr && copy.value() == vr && m.value() == nullptr, "member-swap", "swap");
    dsd::Member n;
    c.check(!n.key() && !n.value(), "member-default", "a default member has no key and no value");
    n = copy;
    c.eq(show(n.key()) + show(n.value()), dump(k) + dump(v), "member-assign", "assigned member");
    n = std::move(copy);
    c.check(n.key() == kr && n.value() == vr, "member-move", "moving keeps the elements");
    std::string ks = g.word();
    dsd::Member s(ks, std::move(got));
    c.eq(show(s.key()), dump(str(ks)), "member-string", "key given as a string");
    c.eq(show(s.value()), dump(v2), "member-string", "value");
    c.mark(dump(k) + dump(v));
}

template <typename T>
static const IElement* in(const T& t);
template <>
const IElement* in(const dsd::Enum& t)
{
    return t.value();
}
template <>
const IElement* in(const dsd::Holder& t)
{
    return t.data();
}

template <typename T>
static void single(Case& c)
{
    Gen g(c.rng);
    auto v = c.rng.chance(85) ? g.any(3) : nullptr;
    c << dump(v);
    auto e = build(v);
    auto raw = e.get();
    T t(std::move(e));
    c.check(in(t) == raw, "single-own", "keeps the element given");
    T u(t);
    c.eq(show(in(u)), dump(v), "single-copy", "copy");
    c.check(!v || in(u) != in(t), "single-copy", "a copy has an element of its own");
    T d;
    c.check(!in(d), "single-default", "default has none");
    d = t;
    c.eq(show(in(d)), dump(v), "single-assign", "assigned");
    c.check(!v || in(d) != in(t), "single-assign", "assigned has its own");
    d = T();
    c.check(!in(d), "single-reset", "assigning an empty one empties");
    T w(std::move(t));
    c.check(in(w) == raw, "single-move", "moved");
    swap(w, d);
    c.check(in(d) == raw && !in(w), "single-swap", "swap");
    auto got = d.claim();
    c.check(got.get() == raw && !in(d), "single-claim", "claim hands over");
    c.eq(show(in(u)), dump(v), "single-alias", "the copy is unaffected");
    c.mark(dump(v));
}

// numbers keep their spelling; integers survive the round trip
static void number(Case& c)
{
    int64_t x = (int64_t)c.rng.next();
    x >>= c.rng.below(64);
    if (c.rng.chance(20)) {
        static const int64_t w[] = { 0, 1, -1, INT64_MAX, INT64_MIN, INT32_MAX, INT32_MIN, (int64_t)INT32_MAX + 1, (int64_t)INT32_MIN - 1,
            UINT32_MAX };
        x = w[c.rng.below(10)];
    }
    c << x;
    dsd::Number n(x);
    c.eq(n.get(), std::to_string(x), "number", "text of an integer");
    c.eq(static_cast<std::int64_t>(n), x, "number", "integer read back");
    c.check(n == dsd::Number(std::to_string(x)) && !(n != dsd::Number(x)), "number", "equal to the same spelling");
    c.check(n != dsd::Number(std::to_string(x) + "0"), "number", "different from another spelling");
    c.mark(std::to_string(x));
}

int main(int argc, char** argv)
{
    vh::countAllocations();
    return vh::run(argc, argv, { { "array", 4, history<dsd::Array> }, { "object", 6, history<dsd::Object> },
                                   { "extend", 4, history<dsd::Extend> }, { "option", 4, history<dsd::Option> },
                                   { "select", 4, history<dsd::Select> }, { "array-new", 1, construct<dsd::Array> },
                                   { "object-new", 1, construct<dsd::Object> }, { "extend-new", 1, construct<dsd::Extend> },
                                   { "option-new", 1, construct<dsd::Option> }, { "select-new", 1, construct<dsd::Select> },
                                   { "member", 2, member }, { "enum", 2, single<dsd::Enum> }, { "holder", 2, single<dsd::Holder> },
                                   { "number", 1, number } });
}
