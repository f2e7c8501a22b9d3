// The Markdown tree: copies and assignment against a plain tree; trees made by
// the Markdown parser against what every such tree must satisfy.
#include "vh.h"
#include "live.h"
#include <memory>
#include "MarkdownNode.h"
#include "MarkdownParser.h"
using vh::Case;
using namespace mdp;

namespace
{
    struct Plain {
        int type;
        std::string text;
        int data;
        std::vector<std::pair<size_t, size_t> > map;
        std::vector<Plain> kids;
    };

    std::string markdown(Case& c);

    Plain make(Case& c, int depth)
    {
        static const char* const texts[] = { "", "a", "+ Response 200", "long enough not to be kept inside of the string object itself", "\xc3\xa9\n" };
        Plain p;
        p.type = c.rng.range(-1, 10);
        p.text = c.rng.pick(texts);
        p.data = c.rng.range(-2, 6);
        int n = c.rng.range(0, 2);
        for (int i = 0; i < n; i++)
            p.map.emplace_back(c.rng.below(50), c.rng.below(50));
        n = depth ? c.rng.range(0, 3) : 0;
        for (int i = 0; i < n; i++)
            p.kids.push_back(make(c, depth - 1));
        return p;
    }

    void build(const Plain& p, MarkdownNode& n)
    {
        for (auto& m : p.map)
            n.sourceMap.push_back(BytesRange(m.first, m.second));
        for (auto& k : p.kids) {
            n.children().push_back(MarkdownNode((MarkdownNodeType)k.type, &n, k.text, k.data));
            build(k, n.children().back());
        }
    }

    std::string dump(const Plain& p)
    {
        std::string o = std::to_string(p.type) + "," + std::to_string(p.data) + "," + vh::quote(p.text);
        for (auto& m : p.map)
            o += " " + std::to_string(m.first) + ":" + std::to_string(m.second);
        o += "[";
        for (auto& k : p.kids)
            o += dump(k);
        return o + "]";
    }
    // reads everything of the tree, and checks the links
    std::string dump(Case& c, const MarkdownNode& n)
    {
        std::string o = std::to_string((int)n.type) + "," + std::to_string(n.data) + "," + vh::quote(n.text);
        for (auto& m : n.sourceMap)
            o += " " + std::to_string(m.location) + ":" + std::to_string(m.length);
        o += "[";
        for (auto& k : n.children()) {
            c.check(k.hasParent(), "parent", "a child has a parent");
            c.check(&k.parent() == &n, "parent", "the parent of a child is the node it is a child of");
            c.saw("links");
            o += dump(c, k);
        }
        return o + "]";
    }

    // a random node of both trees at once
    void pick(Case& c, Plain& p, MarkdownNode& n, Plain*& pp, MarkdownNode*& nn)
    {
        pp = &p;
        nn = &n;
        while (!pp->kids.empty() && c.rng.chance(65)) {
            size_t i = c.rng.below(pp->kids.size());
            pp = &pp->kids[i];
            nn = &nn->children()[i];
        }
    }

    void change(Case& c, Plain& p, MarkdownNode& n)
    {
        Plain* pp;
        MarkdownNode* nn;
        pick(c, p, n, pp, nn);
        switch (c.rng.below(6)) {
            case 0:
                pp->text = nn->text = "changed" + std::to_string(c.rng.below(100));
                break;
            case 1:
                nn->data = pp->data = c.rng.range(10, 99);
                break;
            case 2:
                pp->type = c.rng.range(0, 10);
                nn->type = (MarkdownNodeType)pp->type;
                break;
            case 3:
                pp->map.clear();
                pp->map.emplace_back(7, 8);
                nn->sourceMap.clear();
                nn->sourceMap.push_back(BytesRange(7, 8));
                break;
            case 4:
                if (pp->kids.empty())
                    break;
                if (c.rng.chance(50)) {
                    pp->kids.erase(pp->kids.begin());
                    nn->children().pop_front();
                } else {
                    pp->kids.pop_back();
                    nn->children().pop_back();
                }
                break;
            case 5: {
                Plain k = make(c, 1);
                MarkdownNode kn((MarkdownNodeType)k.type, nn, k.text, k.data);
                build(k, kn);
                if (c.rng.chance(50)) {
                    pp->kids.push_back(k);
                    nn->children().push_back(kn);
                } else {
                    pp->kids.insert(pp->kids.begin(), k);
                    nn->children().push_front(kn);
                }
                break;
            }
        }
    }

    struct Tree {
        Plain p;
        std::unique_ptr<MarkdownNode> n;
    };
    Tree fresh(Case& c)
    {
        Tree t;
        t.p = make(c, 3);
        t.n.reset(new MarkdownNode((MarkdownNodeType)t.p.type, nullptr, t.p.text, t.p.data));
        build(t.p, *t.n);
        return t;
    }

    void copies(Case& c)
    {
        {
            std::vector<Tree> ts;
            ts.push_back(fresh(c));
            c << dump(ts[0].p);
            std::string ops;
            int steps = c.rng.range(2, 12);
            for (int s = 0; s < steps; s++) {
                Tree& t = ts[c.rng.below(ts.size())];
                switch (c.rng.below(7)) {
                    case 0: { // copy of a whole tree
                        Tree k;
                        k.p = t.p;
                        k.n.reset(new MarkdownNode(*t.n));
                        c.check(k.n->hasParent() == t.n->hasParent(), "copy-parent", "a copy has a parent when its source has one");
                        ops += "copy ";
                        ts.push_back(std::move(k));
                        break;
                    }
                    case 1: { // copy of a part
                        Plain* pp;
                        MarkdownNode* nn;
                        pick(c, t.p, *t.n, pp, nn);
                        Tree k;
                        k.p = *pp;
                        k.n.reset(new MarkdownNode(*nn));
                        if (nn->hasParent())
                            c.check(&k.n->parent() == &nn->parent(), "copy-parent", "a copy has the parent of its source");
                        k.n->setParent(nullptr);
                        ops += "part ";
                        ts.push_back(std::move(k));
                        break;
                    }
                    case 2: { // assignment from any tree, itself included
                        Tree& o = ts[c.rng.below(ts.size())];
                        Plain k = o.p;
                        MarkdownNode& r = (*t.n = *o.n);
                        c.check(&r == t.n.get(), "assign-result", "assignment yields the node");
                        t.p = k;
                        ops += "assign ";
                        break;
                    }
                    case 3: { // assignment of a node below
                        Plain* pp;
                        MarkdownNode* nn;
                        pick(c, t.p, *t.n, pp, nn);
                        Plain k = *pp;
                        *t.n = *nn;
                        t.n->setParent(nullptr);
                        t.p = k;
                        ops += "lift ";
                        break;
                    }
                    case 4: { // assignment inside of one tree
                        Plain *pp, *qq;
                        MarkdownNode *nn, *mm;
                        pick(c, t.p, *t.n, pp, nn);
                        Tree& o = ts[c.rng.below(ts.size())];
                        if (&o == &t)
                            break;
                        pick(c, o.p, *o.n, qq, mm);
                        MarkdownNode* parent = nn->hasParent() ? &nn->parent() : nullptr;
                        *nn = *mm;
                        nn->setParent(parent);
                        *pp = *qq;
                        ops += "graft ";
                        break;
                    }
                    case 5:
                        change(c, t.p, *t.n);
                        ops += "change ";
                        break;
                    case 6:
                        if (ts.size() > 1) {
                            ts.erase(ts.begin() + (long)c.rng.below(ts.size()));
                            ops += "destroy ";
                        }
                        break;
                }
                for (auto& k : ts) {
                    c.eq(dump(c, *k.n), dump(k.p), "tree", "tree after " + ops);
                    c.check(!k.n->hasParent(), "root-parent", "a root has no parent");
                    bool threw = false;
                    try {
                        k.n->parent();
                    } catch (...) {
                        threw = true;
                    }
                    c.check(threw, "no-parent", "asking a root for its parent is refused");
                    c.saw("trees");
                }
            }
            c << " " << ops;
            c.mark(ops + dump(ts[0].p));
        }
    }

    void leak(Case& c)
    {
        Plain p = make(c, 3), q = make(c, 3);
        c << dump(p) << dump(q);
        std::string text = markdown(c);
        int n = c.rng.range(1, 4);
        long before = vh::live();
        {
            MarkdownNode a((MarkdownNodeType)p.type, nullptr, p.text, p.data), b((MarkdownNodeType)q.type, nullptr, q.text, q.data);
            build(p, a);
            build(q, b);
            for (int i = 0; i < n; i++) {
                MarkdownNode k(a), l(b);
                a = l;
                b = k;
                if (!a.children().empty())
                    a = a.children().back();
                b = b;
                MarkdownParser parser;
                parser.parse(text, b);
            }
        }
        c.eq(vh::live(), before, "leak", "live heap blocks after all trees are destroyed");
        c.saw("leak_checked");
        c.mark(dump(p) + dump(q) + text);
    }

    // -------------------------------------------------------------- the parser

    std::string markdown(Case& c)
    {
        static const char* const lines[] = { "# Header", "## Sub [x](y)", "paragraph text", "+ item", "- item two", "    + nested", "    + nested two", "        code in nested",
            "        + third level", "            deep code", "> quote", "> + item in quote", "    code", "```", "```json", "~~~", "---", "<div>html</div>", "1. one",
            "    text in item", "", "", "", "Setext", "======", "+ Response 200 (text/plain)", "    + Body", "            body", "caf\xc3\xa9 \xe2\x82\xac", "\ttab code",
            "+", "*   wide item", " + shifted", "| a | b |", "|---|---|", "\\# escaped", "[ref]: http://a.b" };
        std::string s;
        int n = c.rng.range(0, 14);
        for (int i = 0; i < n; i++) {
            s += c.rng.pick(lines);
            if (i + 1 < n || c.rng.chance(70))
                s += c.rng.chance(3) ? "\r\n" : "\n";
        }
        return s;
    }

    size_t nodes(Case& c, const MarkdownNode& n, const std::string& source, int depth)
    {
        size_t count = 1, size = source.size();
        c.check(n.type >= RootMarkdownNodeType && n.type <= TableCellMarkdownNodeType, "type", "nodes are of a defined type");
        c.check((n.type == RootMarkdownNodeType) == (depth == 0), "root", "only the root is a root");
        for (auto& m : n.sourceMap)
            c.check(m.location <= size && m.length <= size - m.location, "map-bounds",
                "range " + std::to_string(m.location) + ":" + std::to_string(m.length) + " of a node of type " + std::to_string((int)n.type) + " is inside the source of "
                    + std::to_string(size));
        bool inner = n.type == RootMarkdownNodeType || n.type == QuoteMarkdownNodeType || n.type == ListItemMarkdownNodeType;
        c.check(inner || n.children().empty(), "leaf", "only the root, quotes and list items have children");
        if (n.type == ListItemMarkdownNodeType) {
            c.check(!n.children().empty() && n.children().front().type == ParagraphMarkdownNodeType, "item-text", "the text of a list item is its first paragraph");
            c.saw("list_items");
        }
        bool textual = n.type == ParagraphMarkdownNodeType || n.type == HeaderMarkdownNodeType || n.type == CodeMarkdownNodeType || n.type == HTMLMarkdownNodeType;
        std::string text = n.text;
        while (!text.empty() && (text.back() == '\n' || text.back() == ' '))
            text.pop_back();
        if (textual && !n.sourceMap.empty() && text.find('\n') == text.npos && source.find('\t') == source.npos) {
            std::string mapped = MapBytesRangeSet(n.sourceMap, source);
            c.check(mapped.find(text) != mapped.npos, "map-text", "source map of the text " + vh::quote(text) + " yields " + vh::quote(mapped));
            c.saw("texts_mapped");
        }
        if (n.type == HeaderMarkdownNodeType)
            c.check(n.data >= 1 && n.data <= 6, "level", "level of a header");
        for (auto& k : n.children()) {
            c.check(k.hasParent() && &k.parent() == &n, "parsed-parent", "the parent of a parsed node is the node it is a child of");
            count += nodes(c, k, source, depth + 1);
        }
        return count;
    }

    void parse(Case& c)
    {
        {
            std::string s = markdown(c);
            s.shrink_to_fit();
            c << vh::quote(s);
            MarkdownParser parser;
            MarkdownNode ast = MarkdownNode(CodeMarkdownNodeType, nullptr, "before", 3); // what it was before does not matter
            parser.parse(s, ast);
            c.check(ast.type == RootMarkdownNodeType && ast.text.empty() && !ast.data, "root", "the outcome is a root");
            c.check(ast.sourceMap.size() == 1 && ast.sourceMap[0].location == 0 && ast.sourceMap[0].length == s.size(), "root-map", "the root spans the source");
            size_t n = nodes(c, ast, s, 0);
            c.saw("parsed_nodes", n);
            std::string first = dump(c, ast);
            // the parser keeps nothing from one text to the next
            std::string other = markdown(c);
            MarkdownNode second;
            parser.parse(other, second);
            c.eq(dump(c, ast), first, "parser-independent", "the tree of the former text");
            parser.parse(s, second);
            c.eq(dump(c, second), first, "parser-reuse", "the same text parsed again after " + vh::quote(other));
            if (n > 3)
                c.mark(first);
        }
    }
}

int main(int argc, char** argv)
{
    vh::countAllocations();
    return vh::run(argc, argv, { { "copies", 2, copies }, { "leak", 1, leak }, { "parse", 1, parse } });
}
