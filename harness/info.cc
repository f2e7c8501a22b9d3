// Named (meta / attribute) elements: an ordered map, driven by random histories
// of operations against a plain vector.
#include "el.h"
#include "live.h"
#include "refract/InfoElementsUtils.h"
using namespace el;
using vh::Case;

typedef std::vector<std::pair<std::string, std::string> > M; // name -> dump

static M snap(const InfoElements& i)
{
    M m;
    for (auto& x : i)
        m.emplace_back(x.first, x.second ? show(*x.second) : "<null>");
    return m;
}
static std::string text(const M& m)
{
    std::string s = "{";
    for (auto& x : m)
        s += x.first + "=" + x.second + "; ";
    return s + "}";
}
static size_t at(const M& m, const std::string& k)
{
    for (size_t i = 0; i < m.size(); i++)
        if (m[i].first == k)
            return i;
    return m.size();
}

static const char* const keys[] = { "id", "ref", "description", "a", "b", "", "idx", "ID", "i" };

static void verify(Case& c, const InfoElements& i, const M& m, const char* op)
{
    M s = snap(i);
    c.eq(text(s), text(m), op, std::string("entries after ") + op);
    c.eq(i.size(), m.size(), "size", "size");
    c.eq(i.empty(), m.empty(), "empty", "empty");
    for (auto k : keys) {
        size_t want = at(m, k);
        auto it = i.find(k);
        c.eq((size_t)(it - i.begin()), want, "find", std::string("find ") + k);
        c.check((it == i.end()) == (want == m.size()), "find", "find returns end iff absent");
        auto& mut = const_cast<InfoElements&>(i);
        c.check((size_t)(mut.find(k) - mut.begin()) == want, "find", "find on a mutable collection");
    }
    c.saw("states_checked");
}

static void history(Case& c)
{
    InfoElements box[2];
    M model[2];
    int n = c.rng.range(4, 30);
    std::string trace;
    long before = vh::live();
    for (int step = 0; step < n; step++) {
        int w = (int)c.rng.below(2);
        InfoElements& i = box[w];
        M& m = model[w];
        std::string k = keys[c.rng.below(9)];
        Gen g(c.rng);
        auto v = g.any(2);
        std::string d = dump(v);
        const char* op = "";
        switch (c.rng.below(13)) {
            case 0:
            case 1:
            case 2: {
                op = "set";
                auto e = build(v);
                auto raw = e.get();
                auto& r = i.set(k, std::move(e));
                c.check(&r == raw, "set-ref", "set returns the element stored");
                size_t p = at(m, k);
                if (p == m.size())
                    m.emplace_back(k, d);
                else
                    m[p].second = d;
                c.check(i.find(k) != i.end() && i.find(k)->second.get() == raw, "set-own", "the element given is the one kept");
                break;
            }
            case 3: {
                op = "set-copy";
                auto e = build(v);
                auto& r = i.set(k, *e);
                c.check(&r != e.get(), "set-ref", "setting from a reference stores a copy");
                e->element("CHANGED");
                size_t p = at(m, k);
                if (p == m.size())
                    m.emplace_back(k, d);
                else
                    m[p].second = d;
                break;
            }
            case 4:
            case 5: {
                op = "erase";
                i.erase(k);
                for (size_t p; (p = at(m, k)) < m.size();)
                    m.erase(m.begin() + p);
                break;
            }
            case 6: {
                op = "erase-at";
                if (m.empty())
                    break;
                size_t p = c.rng.below(m.size());
                i.erase(i.begin() + p);
                m.erase(m.begin() + p);
                break;
            }
            case 7: {
                op = "claim";
                size_t p = at(m, k);
                const IElement* raw = p < m.size() ? (i.begin() + p)->second.get() : nullptr;
                auto e = i.claim(k);
                c.check(e.get() == raw, "claim", "claim hands over the element kept (nullptr if none)");
                if (raw) {
                    c.eq(show(*e), m[p].second, "claim", "claimed element");
                    m.erase(m.begin() + p);
                }
                break;
            }
            case 8: {
                op = "claim-at";
                if (m.empty())
                    break;
                size_t p = c.rng.below(m.size());
                const IElement* raw = (i.begin() + p)->second.get();
                auto e = i.claim(i.begin() + p);
                c.check(e.get() == raw, "claim", "claim hands over the element at the iterator");
                m.erase(m.begin() + p);
                break;
            }
            case 9: {
                op = "clone-other";
                std::vector<const void*> own;
                i.clone(box[1 - w]);
                for (auto& x : model[1 - w])
                    m.push_back(x);
                std::set<const void*> x, y;
                for (auto& e : i)
                    addresses(read(*e.second), x);
                for (auto& e : box[1 - w])
                    addresses(read(*e.second), y);
                for (auto q : x)
                    c.check(!y.count(q), "clone-shares", "cloned entries are elements of their own");
                if (m.size() > 24) {
                    i.clear();
                    m.clear();
                }
                break;
            }
            case 10: {
                op = c.rng.chance(50) ? "assign" : "copy-construct";
                InfoElements t(box[1 - w]);
                if (op[0] == 'a')
                    i = box[1 - w];
                else
                    i = std::move(t);
                m = model[1 - w];
                break;
            }
            case 11: {
                op = "swap-or-move";
                if (c.rng.chance(50)) {
                    swap(box[0], box[1]);
                    std::swap(model[0], model[1]);
                } else {
                    InfoElements t(std::move(i));
                    verify(c, t, m, "move-construct");
                    i = std::move(t);
                }
                break;
            }
            default:
                op = "clear";
                if (c.rng.chance(30)) {
                    i.clear();
                    m.clear();
                }
        }
        c << w << ":" << op << "(" << k << ") ";
        trace += op;
        trace += k;
        c.saw((std::string("op:") + op).c_str());
        verify(c, box[0], model[0], op);
        verify(c, box[1], model[1], op);
    }
    c.mark(trace);
    (void)before;
}

// the helper that adds a value to a list kept under a name
static void append(Case& c)
{
    auto e = make_empty<StringElement>();
    auto& at = e->attributes();
    std::vector<std::string> want;
    bool absent = true;
    static const char* const w[] = { "fixed", "nullable", "required", "fixed-type", "x", "" };
    at.set("first", from_primitive(true));
    if (c.rng.chance(30)) {
        at.set("typeAttributes", make_empty<ArrayElement>());
        absent = false;
    } else if (c.rng.chance(30)) {
        auto a = make_element<ArrayElement>(from_primitive(7), make_empty<StringElement>());
        at.set("typeAttributes", std::move(a));
        want = { "Number(\"7\")", "String~" };
        absent = false;
    }
    int n = c.rng.range(1, 8);
    for (int k = 0; k < n; k++) {
        std::string v = w[c.rng.below(6)];
        c << v << " ";
        AppendInfoElement<ArrayElement>(at, "typeAttributes", dsd::String{ v });
        std::string d = "String(" + vh::quote(v) + ")";
        bool have = false;
        for (auto& x : want)
            have = have || x == d || (v.empty() && x == "String~");
        if (!have)
            want.push_back(d);
        absent = false;
        std::string s = "Array[";
        for (size_t q = 0; q < want.size(); q++)
            s += (q ? ", " : "") + want[q];
        s += "]";
        auto it = at.find("typeAttributes");
        c.check(it != at.end(), "append", "the list exists after appending");
        c.eq(show(*it->second), s, "append", "list after appending " + v);
        c.eq(at.size(), (size_t)2, "append-size", "number of attributes");
    }
    c.mark(c.index % 2 ? "" : std::to_string(c.index));
}

int main(int argc, char** argv)
{
    vh::countAllocations();
    return vh::run(argc, argv, { { "history", 6, history }, { "append", 1, append } });
}
