// The registry of named types: histories of registration against a map, and the
// search for the root of a type's ancestry.
#include "el.h"
#include "live.h"
#include "refract/Registry.h"
#include "refract/Exception.h"
#include <algorithm>
#include <set>
using namespace el;
using vh::Case;

static const char* const base[] = { "boolean", "number", "string", "array", "object", "enum", "null" };
static const char* const reservedNames[] = { "array", "boolean", "enum", "extend", "generic", "member", "null", "number", "object",
    "option", "ref", "select", "string" };
static const char* const names[] = { "A", "B", "C", "D", "E", "F", "arra", "arrays", "strin", "String", "asset", "", "\xc3\xa9", "A B",
    "number ", "x", "annotation", "copy", "category" };

static bool reserved(const std::string& s)
{
    for (auto r : reservedNames)
        if (s == r)
            return true;
    return false;
}

struct Entry {
    std::string dump, parent;
    const IElement* raw;
};
typedef std::map<std::string, Entry> M;

static void verify(Case& c, const Registry& r, const M& m, bool basePresent)
{
    auto probe = [&](const std::string& n) {
        auto e = r.find(n);
        auto it = m.find(n);
        if (it != m.end()) {
            c.check(e == it->second.raw, "find", "find gives the element registered as " + n);
            c.eq(show(e), it->second.dump, "find", "registered element is unchanged: " + n);
        } else
            c.check(e == nullptr, "find-absent", "nothing is registered as " + n);
    };
    for (auto n : names)
        probe(n);
    for (auto n : reservedNames)
        probe(n);
    c.saw("states_checked");
}

static void history(Case& c)
{
    Registry r;
    M m;
    bool basePresent = true;
    auto remember = [&](const std::string& n) {
        auto e = r.find(n);
        m[n] = Entry{ show(e), e ? e->element() : "", e };
    };
    for (auto b : base) {
        c.check(r.find(b) != nullptr, "base", std::string("base type known from the start: ") + b);
        auto n = read(r.find(b));
        c.check(!n->has && n->name == b && n->meta.empty() && n->attr.empty() && std::string(defName[n->kind]) == b, "base",
            std::string("base type is a bare element of its kind: ") + b);
        remember(b);
    }
    Gen g(c.rng);
    int n = c.rng.range(5, 25);
    std::string trace;
    for (int s = 0; s < n; s++) {
        std::string k = c.rng.chance(12) ? reservedNames[c.rng.below(13)] : names[c.rng.below(19)];
        int op = (int)c.rng.below(12);
        if (op < 7) {
            auto p = g.any(3);
            for (size_t i = 0; i < p->meta.size(); i++)
                if (p->meta[i].first == "id")
                    p->meta.erase(p->meta.begin() + i--);
            int idkind = (int)c.rng.below(10);
            if (idkind == 0)
                ; // no id
            else if (idkind == 1) {
                auto q = g.of(c.rng.chance(50) ? KNumber : KArray, 1);
                p->meta.emplace_back("id", q);
            } else
                p->meta.insert(p->meta.begin() + c.rng.below(p->meta.size() + 1), std::make_pair(std::string("id"), str(k)));
            std::string d = dump(p);
            auto e = build(p);
            auto raw = e.get();
            c << "add(" << (idkind > 1 ? k : idkind ? "<other>" : "<none>") << ") ";
            trace += "a" + k;
            bool threw = false, ok = false;
            try {
                ok = r.add(std::move(e));
            } catch (const refract::LogicError&) {
                threw = true;
            }
            bool wantThrow = idkind < 2 || reserved(k);
            c.check(threw == wantThrow, "add-reject", wantThrow ? "an element without a usable name is rejected" : "a usable element is accepted");
            if (!wantThrow) {
                bool have = m.count(k);
                c.check(ok == !have, "add-result", have ? "a second type of a name is refused" : "a new type is taken");
                if (!have)
                    m[k] = Entry{ d, p->name, raw };
                c.saw(have ? "refused_duplicates" : "added");
            } else
                c.saw("rejected");
        } else if (op < 10) {
            c << "remove(" << k << ") ";
            trace += "r" + k;
            bool have = m.count(k);
            c.check(r.remove(k) == have, "remove", "remove tells whether there was such a type");
            m.erase(k);
            c.saw(have ? "removed" : "removed_nothing");
        } else if (op == 10 && c.rng.chance(15)) {
            c << "clear ";
            trace += "c";
            r.clear();
            m.clear();
        }
        verify(c, r, m, basePresent);
    }
    c.mark(trace);
}

// forests of types: every type names a parent that is a base type, another
// type, itself or a type that does not exist
static void ancestor(Case& c)
{
    Registry r;
    std::map<std::string, std::string> parent;
    std::map<std::string, const IElement*> raw;
    int n = c.rng.range(1, 12);
    std::vector<std::string> order;
    for (int i = 0; i < n; i++)
        order.push_back("T" + std::to_string(i));
    // registration order differs from the order of the ancestry
    std::vector<std::pair<std::string, std::string> > all;
    for (int i = 0; i < n; i++) {
        std::string p;
        int k = (int)c.rng.below(10);
        if (k < 6 && i)
            p = "T" + std::to_string(c.rng.chance(60) ? i - 1 : c.rng.below(i));
        else if (k == 7)
            p = "Missing" + std::to_string(c.rng.below(3));
        else if (k == 8)
            p = "T" + std::to_string(c.rng.chance(50) ? i : (int)c.rng.below(n));   // itself, or any: circles
        else
            p = reservedNames[c.rng.below(13)];
        all.emplace_back(order[i], p);
    }
    for (size_t i = all.size(); i > 1; i--)
        std::swap(all[i - 1], all[c.rng.below(i)]);
    std::string key;
    for (auto& x : all) {
        auto e = mk(c.rng.chance(50) ? KObject : KString);
        e->name = x.second;
        e->meta.emplace_back("id", str(x.first));
        auto b = build(e);
        raw[x.first] = b.get();
        parent[x.first] = x.second;
        c.check(r.add(std::move(b)), "add-result", "new type");
        c << x.first << "(" << x.second << ") ";
        key += x.first + x.second;
    }
    for (auto b : base) {
        raw[b] = r.find(b);
        parent[b] = b;
    }
    auto probe = [&](const std::string& s) {
        const IElement* want = nullptr;
        std::string cur = s;
        int depth = 0;
        std::vector<std::string> way;
        std::set<const IElement*> circle;
        if (raw.count(cur)) {
            while (true) {
                auto back = std::find(way.begin(), way.end(), cur);
                if (back != way.end()) {
                    for (; back != way.end(); ++back)
                        circle.insert(raw[*back]);
                    break;
                }
                way.push_back(cur);
                want = raw[cur];
                std::string p = parent[cur];
                if (reserved(p) || !raw.count(p) || p == cur)
                    break;
                cur = p;
                depth++;
            }
        }
        auto got = FindRootAncestor(s, r);
        if (!circle.empty()) {
            c.check(circle.count(got) == 1, "ancestor-circle", "search from " + s + " ends in the circle it enters, got " + show(got));
            c.saw("circles");
            return;
        }
        c.check(got == want, "ancestor", "root ancestor of " + s + " is " + show(want) + ", got " + show(got));
        if (depth > 1)
            c.saw("deep_ancestries");
        c.saw("ancestries");
    };
    for (auto& x : all)
        probe(x.first);
    for (auto b : base)
        probe(b);
    probe("Missing0");
    probe("ref");
    c.mark(key);
}

// names of the built-in elements
static void reservedWords(Case& c)
{
    std::string w;
    if (c.rng.chance(60)) {
        w = reservedNames[c.rng.below(13)];
        int k = (int)c.rng.below(6);
        if (k == 1)
            w.pop_back();
        else if (k == 2)
            w += (char)('a' + c.rng.below(26));
        else if (k == 3)
            w[c.rng.below(w.size())] = (char)('a' + c.rng.below(26));
        else if (k == 4)
            w[0] = (char)toupper(w[0]);
        else if (k == 5)
            w = " " + w;
    } else {
        int n = c.rng.range(0, 12);
        for (int i = 0; i < n; i++)
            w += (char)(c.rng.chance(90) ? 'a' + c.rng.below(26) : 1 + c.rng.below(255));
    }
    c << w;
    c.eq(isReserved(w), reserved(w), "reserved", vh::quote(w));
    c.eq(isReserved(w.c_str()), reserved(w), "reserved", vh::quote(w));
    for (auto r : reservedNames)
        c.check(isReserved(std::string(r)), "reserved", r);
    c.mark(w);
    c.saw(reserved(w) ? "reserved" : "not_reserved");
}

int main(int argc, char** argv)
{
    return vh::run(argc, argv, { { "history", 3, history }, { "ancestor", 3, ancestor }, { "reserved", 2, reservedWords } });
}
