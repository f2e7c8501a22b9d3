// The parser's own interface, snowcrash::parse: its tree and its tree of source maps
// side by side, copies of both, and what the options of the parser change.
#include "docs.h"
#include "snowcrash.h"
using vh::Case;
namespace sc = snowcrash;

namespace
{
    // A description of a tree, and one of its source maps, made in one walk over both.
    struct Walk {
        std::string tree, maps;
        size_t limit = 0;               // of the source
        bool failed = false;            // with an error the tree ends where that was met
        std::string wrong;              // the first thing that does not fit
        std::vector<std::string> path;
        size_t texts = 0, placed = 0, nodes = 0, pending = 0, references = 0;

        void bad(const std::string& what)
        {
            if (!wrong.empty())
                return;
            for (auto& p : path)
                wrong += "/" + p;
            wrong += ": " + what;
        }
        struct In {
            Walk& w;
            In(Walk& w, const std::string& n) : w(w)
            {
                w.path.push_back(n);
                w.tree += n + "{";
                w.maps += n + "{";
            }
            ~In()
            {
                w.path.pop_back();
                w.tree += "}";
                w.maps += "}";
            }
        };
        void range(const mdp::BytesRangeSet& s)
        {
            for (auto& x : s) {
                maps += std::to_string(x.location) + "+" + std::to_string(x.length) + ",";
                if (limit && (x.location > limit || x.length > limit - x.location))
                    bad("range " + std::to_string(x.location) + "+" + std::to_string(x.length) + " of " + std::to_string(limit));
            }
        }
        void put(const std::string& s)
        {
            tree += std::to_string(s.size()) + ":" + s + ";";
        }
        void put(long n)
        {
            tree += std::to_string(n) + ";";
        }

        template <typename M>
        void leaf(const char* n, const std::string& s, const M* m)
        {
            In in(*this, n);
            put(s);
            if (m) {
                range(m->sourceMap);
                texts += !s.empty();
                bool implied = path.size() > 2 && path[path.size() - 3] == "responses" && s == "200"; // left out
                if (!s.empty() && m->sourceMap.empty() && !implied)
                    bad("no place: " + s);
                placed += !s.empty() && !m->sourceMap.empty();
            }
        }

        template <typename M>
        void has(const std::string& s, const M& m)
        {
            if (!s.empty() && m.sourceMap.empty())
                bad("no place: " + s);
            placed += !s.empty() && !m.sourceMap.empty();
        }

        template <typename C, typename M>
        void all(const char* n, const C& c, const M* m)
        {
            In in(*this, n);
            put((long)c.size());
            if (m && m->collection.size() != c.size()) {
                bad(std::to_string(c.size()) + " with " + std::to_string(m->collection.size()) + " source maps");
                m = nullptr;
            }
            for (size_t i = 0; i < c.size(); i++) {
                In at(*this, std::to_string(i));
                nodes++;
                (*this)(c[i], m ? &m->collection[i] : nullptr);
            }
        }

        void operator()(const sc::KeyValuePair& p, const sc::SourceMap<sc::Metadata>* m)
        {
            put(p.first);
            leaf("pair", p.second, m);
        }
        void operator()(const sc::Value& v, const sc::SourceMap<sc::Value>* m)
        {
            leaf("value", v, m);
        }
        void operator()(const sc::Parameter& p, const sc::SourceMap<sc::Parameter>* m)
        {
            leaf("name", p.name, m ? &m->name : nullptr);
            leaf("description", p.description, m ? &m->description : nullptr);
            leaf("type", p.type, m ? &m->type : nullptr);
            put((long)p.use);
            if (m)
                range(m->use.sourceMap);
            leaf("default", p.defaultValue, m ? &m->defaultValue : nullptr);
            leaf("example", p.exampleValue, m ? &m->exampleValue : nullptr);
            all("values", p.values, m ? &m->values : nullptr);
        }

        // data structures
        bool bases = true;
        void value(const mson::Value& v)
        {
            put(v.literal);
            put((long)v.variable);
        }
        void type(const mson::TypeName& t)
        {
            put((long)t.base);
            put(t.symbol.literal);
            put((long)t.symbol.variable);
        }
        void definition(const mson::TypeDefinition& d)
        {
            if (bases)
                put((long)d.baseType);
            type(d.typeSpecification.name);
            put((long)d.typeSpecification.nestedTypes.size());
            for (auto& t : d.typeSpecification.nestedTypes)
                type(t);
            put((long)d.attributes);
        }
        void definition(const mson::ValueDefinition& d)
        {
            put((long)d.values.size());
            for (auto& v : d.values)
                value(v);
            definition(d.typeDefinition);
        }
        void operator()(const mson::TypeSection& s, const sc::SourceMap<mson::TypeSection>* m)
        {
            if (bases)
                put((long)s.baseType);
            put((long)s.klass);
            if (m)
                range(m->sourceMap);
            leaf("description", s.content.description, m ? &m->description : nullptr);
            leaf("value", s.content.value, m ? &m->value : nullptr);
            all("elements", s.content.elements(), m ? &m->elements() : nullptr);
        }
        void operator()(const mson::NamedType& t, const sc::SourceMap<mson::NamedType>* m)
        {
            type(t.name);
            definition(t.typeDefinition);
            if (m) {
                range(m->sourceMap);
                range(m->name.sourceMap);
                range(m->typeDefinition.sourceMap);
                has(t.name.symbol.literal, m->name);
                if (!t.typeDefinition.empty() && m->typeDefinition.sourceMap.empty())
                    bad("no place: type of " + t.name.symbol.literal);
            }
            all("sections", t.sections, m ? &m->sections : nullptr);
        }
        void operator()(const mson::ValueMember& v, const sc::SourceMap<mson::ValueMember>* m)
        {
            leaf("description", v.description, m ? &m->description : nullptr);
            definition(v.valueDefinition);
            if (m) {
                range(m->sourceMap);
                range(m->valueDefinition.sourceMap);
                for (auto& x : v.valueDefinition.values)
                    has(x.literal, m->valueDefinition);
            }
            all("sections", v.sections, m ? &m->sections : nullptr);
        }
        void operator()(const mson::PropertyMember& p, const sc::SourceMap<mson::PropertyMember>* m)
        {
            put(p.name.literal);
            definition(p.name.variable);
            if (m) {
                range(m->name.sourceMap);
                has(p.name.literal, m->name);
            }
            (*this)(static_cast<const mson::ValueMember&>(p), static_cast<const sc::SourceMap<mson::ValueMember>*>(m));
        }
        void operator()(const mson::Element& e, const sc::SourceMap<mson::Element>* m)
        {
            int kinds = !!e.property() + !!e.value() + !!e.mixin() + !!e.oneOf() + !!e.group();
            if (kinds != !e.empty())
                bad("a member of " + std::to_string(kinds) + " kinds, said to be " + (e.empty() ? "empty" : "not empty"));
            if (m)
                range(m->sourceMap);
            if (auto* p = e.property()) {
                In in(*this, "property");
                (*this)(*p, m ? &m->property : nullptr);
            } else if (auto* v = e.value()) {
                In in(*this, "value");
                (*this)(*v, m ? &m->value : nullptr);
            } else if (auto* x = e.mixin()) {
                In in(*this, "mixin");
                definition(*x);
                if (m)
                    range(m->mixin.sourceMap);
            } else if (auto* o = e.oneOf())
                all("oneOf", *o, m ? &m->oneOf() : nullptr);
            else if (auto* g = e.group())
                all("group", *g, m ? &m->elements() : nullptr);
        }

        // the description
        void operator()(const sc::Payload& p, const sc::SourceMap<sc::Payload>* m)
        {
            leaf("name", p.name, m ? &m->name : nullptr);
            leaf("description", p.description, m ? &m->description : nullptr);
            all("parameters", p.parameters, m ? &m->parameters : nullptr);
            all("headers", p.headers, m ? &m->headers : nullptr);
            {
                In in(*this, "attributes");
                (*this)(static_cast<const mson::NamedType&>(p.attributes), m ? &m->attributes : nullptr);
            }
            leaf("body", p.body, m ? &m->body : nullptr);
            leaf("schema", p.schema, m ? &m->schema : nullptr);
            leaf("reference", p.reference.id, m ? &m->reference : nullptr);
            put((long)p.reference.type);
            put((long)p.reference.meta.state);
            bool transaction = path.size() > 1 && (path[path.size() - 2] == "requests" || path[path.size() - 2] == "responses");
            references += transaction && !p.reference.id.empty();
            pending += transaction && !p.reference.id.empty() && p.reference.meta.state == sc::Reference::StatePending;
        }
        void operator()(const sc::TransactionExample& t, const sc::SourceMap<sc::TransactionExample>* m)
        {
            leaf("name", t.name, m ? &m->name : nullptr);
            leaf("description", t.description, m ? &m->description : nullptr);
            all("requests", t.requests, m ? &m->requests : nullptr);
            all("responses", t.responses, m ? &m->responses : nullptr);
        }
        void operator()(const sc::Action& a, const sc::SourceMap<sc::Action>* m)
        {
            leaf("method", a.method, m ? &m->method : nullptr);
            leaf("name", a.name, m ? &m->name : nullptr);
            leaf("description", a.description, m ? &m->description : nullptr);
            all("parameters", a.parameters, m ? &m->parameters : nullptr);
            {
                In in(*this, "attributes");
                (*this)(static_cast<const mson::NamedType&>(a.attributes), m ? &m->attributes : nullptr);
            }
            leaf("uri", a.uriTemplate, m ? &m->uriTemplate : nullptr);
            leaf("relation", a.relation.str, m ? &m->relation : nullptr);
            all("headers", a.headers, m ? &m->headers : nullptr);
            all("examples", a.examples, m ? &m->examples : nullptr);
        }
        void operator()(const sc::Resource& r, const sc::SourceMap<sc::Resource>* m)
        {
            leaf("uri", r.uriTemplate, m ? &m->uriTemplate : nullptr);
            leaf("name", r.name, m ? &m->name : nullptr);
            leaf("description", r.description, m ? &m->description : nullptr);
            {
                In in(*this, "model");
                (*this)(r.model, m ? &m->model : nullptr);
            }
            {
                In in(*this, "attributes");
                (*this)(static_cast<const mson::NamedType&>(r.attributes), m ? &m->attributes : nullptr);
            }
            all("parameters", r.parameters, m ? &m->parameters : nullptr);
            all("headers", r.headers, m ? &m->headers : nullptr);
            all("actions", r.actions, m ? &m->actions : nullptr);
        }
        static bool unused(const sc::Resource& r)
        {
            return r.uriTemplate.empty() && r.name.empty() && r.description.empty() && r.model.name.empty() && r.model.body.empty() && r.parameters.empty() && r.headers.empty()
                && r.actions.empty();
        }
        void operator()(const sc::Element& e, const sc::SourceMap<sc::Element>* m)
        {
            put((long)e.element);
            put((long)e.category);
            if (m) {
                maps += std::to_string(m->element) + "." + std::to_string(m->category) + ";";
                range(m->sourceMap);
            }
            leaf("name", e.attributes.name, m ? &m->attributes.name : nullptr);
            bool copy = !e.content.copy.empty(), resource = !unused(e.content.resource), data = !e.content.dataStructure.empty(), list = !e.content.elements().empty();
            int kinds = copy + resource + data + list;
            bool right = e.element == sc::Element::CategoryElement ? !copy && !resource && !data :
                e.element == sc::Element::CopyElement              ? !resource && !data && !list :
                e.element == sc::Element::ResourceElement          ? !copy && !data && !list :
                e.element == sc::Element::DataStructureElement     ? !copy && !resource && !list :
                                                                     kinds == 0;
            if (!right && !failed)
                bad("element of class " + std::to_string(e.element) + " has copy " + std::to_string(copy) + ", resource " + std::to_string(resource) + ", data structure " + std::to_string(data)
                    + ", elements " + std::to_string(list));
            leaf("copy", e.content.copy, m ? &m->content.copy : nullptr);
            {
                In in(*this, "resource");
                (*this)(e.content.resource, m ? &m->content.resource : nullptr);
            }
            {
                In in(*this, "data");
                (*this)(static_cast<const mson::NamedType&>(e.content.dataStructure), m ? &m->content.dataStructure : nullptr);
            }
            all("elements", e.content.elements(), m ? &m->content.elements() : nullptr);
        }
        void operator()(const sc::Blueprint& b, const sc::SourceMap<sc::Blueprint>* m)
        {
            leaf("title", b.name, m ? &m->name : nullptr);
            leaf("overview", b.description, m ? &m->description : nullptr);
            all("metadata", b.metadata, m ? &m->metadata : nullptr);
            (*this)(static_cast<const sc::Element&>(b), static_cast<const sc::SourceMap<sc::Element>*>(m));
        }
    };

    using Result = sc::ParseResult<sc::Blueprint>;

    Walk look(const Result& r, bool maps = true, size_t limit = 0)
    {
        Walk w;
        w.failed = r.report.error.code != 0;
        w.limit = limit;
        w(r.node, maps ? &r.sourceMap : nullptr);
        return w;
    }

    std::string notes(const sc::Report& r)
    {
        std::string s;
        auto one = [&](const sc::SourceAnnotation& a) {
            s += std::to_string(a.code) + " " + a.message;
            for (auto& x : a.location)
                s += " " + std::to_string(x.location) + "+" + std::to_string(x.length);
            s += "\n";
        };
        one(r.error);
        for (auto& w : r.warnings)
            one(w);
        return s;
    }

    const std::string& document(Case& c)
    {
        size_t i = (c.index / 5 * 2 + c.index % 5) % docs::all().size(); // each is seen in turn
        const std::string& d = docs::all()[i];
        c << "document " << i << ": " << d << "\n";
        return d;
    }

    // is there any range in the source maps' description
    bool ranges(const std::string& maps)
    {
        return maps.find('+') != std::string::npos;
    }

    void parallel(Case& c)
    {
        const std::string& d = document(c);
        Result r;
        int rc = sc::parse(d, sc::ExportSourcemapOption, r);
        c.eq(rc, r.report.error.code, "code", "of the function, of the report");
        c.check(rc == 0 || !r.report.error.message.empty(), "silent-error", "an error without message");
        Walk w = look(r, true, d.size() + 1);
        c.check(w.wrong.empty(), "parallel", w.wrong);
        if (rc == 0) {
            c.saw("references", w.references);
            c.eq(w.pending, (size_t)0, "pending", "references left unresolved");
        }
        c.saw("documents");
        c.saw("nodes", w.nodes);
        c.saw("texts", w.texts);
        c.saw("placed", w.placed);
        c.mark(w.tree);

        Result again;
        c.eq(sc::parse(d, sc::ExportSourcemapOption, again), rc, "again", "code");
        Walk w2 = look(again);
        c.check(w2.tree == w.tree && w2.maps == w.maps && notes(again.report) == notes(r.report), "again", "the same document yields another tree");

        // without source maps: the same tree, and none
        Result bare;
        c.eq(sc::parse(d, 0, bare), rc, "bare", "code");
        Walk b = look(bare, false);
        c.check(b.tree == look(r, false).tree, "bare", "the tree depends on whether source maps are asked for: " + docs::differ(b.tree, w.tree));
        c.check(notes(bare.report) == notes(r.report), "bare", "the report depends on whether source maps are asked for: " + notes(bare.report) + " instead of " + notes(r.report));

        // a name required: an error more, if any
        Result named;
        int rn = sc::parse(d, sc::ExportSourcemapOption | sc::RequireBlueprintNameOption, named);
        if (rn == rc)
            c.check(look(named).tree == w.tree && notes(named.report) == notes(r.report), "named", "requiring a name changes the tree");
        else {
            c.eq(rn, (int)sc::BusinessError, "named", "code");
            c.check(r.node.name.empty(), "named", "a name is missed: " + named.report.error.message);
            c.saw("nameless");
        }
    }

    // random changes to a tree
    void spoil(vh::Rng& r, mson::TypeSections& s, int depth)
    {
        for (auto& x : s) {
            if (r.chance(30))
                x.content.description += "!";
            if (r.chance(30))
                x.content.value += "!";
            if (r.chance(30) && !x.content.elements().empty())
                x.content.elements().pop_back();
            x.klass = mson::TypeSection::SampleClass;
        }
        if (r.chance(50))
            s.push_back(mson::TypeSection());
    }
    void spoil(vh::Rng& r, sc::Element& e, int depth = 0)
    {
        if (depth > 40)
            return;
        e.attributes.name += "!";
        e.content.copy += "!";
        e.content.resource.uriTemplate += "!";
        for (auto& a : e.content.resource.actions) {
            a.method += "!";
            a.headers.push_back(sc::Header("a", "b"));
            for (auto& x : a.examples) {
                x.responses.push_back(sc::Response());
                for (auto& q : x.responses)
                    q.body += "!", spoil(r, q.attributes.sections, depth);
            }
        }
        e.content.resource.parameters.push_back(sc::Parameter());
        spoil(r, e.content.dataStructure.sections, depth);
        for (auto& x : e.content.elements())
            spoil(r, x, depth + 1);
        if (r.chance(50))
            e.content.elements().push_back(sc::Element(sc::Element::CopyElement));
        e.category = sc::Element::ResourceGroupCategory;
        e.element = sc::Element::CopyElement;
    }
    void spoil(sc::SourceMap<sc::Element>& m, int depth = 0)
    {
        m.attributes.name.sourceMap.push_back(mdp::BytesRange(7, 7));
        m.content.copy.sourceMap.clear();
        m.content.resource.actions.collection.resize(m.content.resource.actions.collection.size() + 1);
        for (auto& s : m.content.dataStructure.sections.collection) {
            s.description.sourceMap.push_back(mdp::BytesRange(7, 7));
            s.elements().collection.clear();
        }
        for (auto& x : m.content.elements().collection)
            spoil(x, depth + 1);
        m.category = sc::Element::ResourceGroupCategory;
        m.element = sc::Element::CopyElement;
    }

    void copies(Case& c)
    {
        const std::string& d = document(c);
        auto r = std::unique_ptr<Result>(new Result);
        sc::parse(d, sc::ExportSourcemapOption, *r);
        Walk w = look(*r);
        std::string report = notes(r->report);
        auto same = [&](const Result& x, const char* key) {
            Walk y = look(x);
            c.check(y.tree == w.tree, key, "tree " + docs::differ(y.tree, w.tree));
            c.check(y.maps == w.maps, key, "source maps " + docs::differ(y.maps, w.maps));
            c.check(notes(x.report) == report, key, "report");
            c.saw("copies");
        };
        Result copy(*r);
        same(copy, "copy");
        Result other;
        size_t j = c.rng.below(docs::all().size());
        c << "over document " << j << "\n";
        sc::parse(docs::all()[j], sc::ExportSourcemapOption, other); // assigned over
        other = *r;
        same(other, "assigned");
        Result& self = other;
        other = self;
        same(other, "self");
        std::vector<sc::Element> row(3, r->node);
        row.erase(row.begin());
        row.insert(row.begin(), sc::Element());
        {
            Walk y, z;
            y(row[1], nullptr);
            z(static_cast<const sc::Element&>(r->node), nullptr);
            c.check(y.tree == z.tree, "in-a-vector", docs::differ(y.tree, z.tree));
        }
        // the copies and the original are independent
        spoil(c.rng, copy.node);
        spoil(copy.sourceMap);
        copy.node.metadata.clear();
        copy.report.warnings.clear();
        same(*r, "shared");
        same(other, "shared");
        r.reset();
        same(other, "after-the-original");
        // a part alone
        if (!other.node.content.elements().empty()) {
            size_t k = c.rng.below(other.node.content.elements().size());
            Walk y, z;
            y(other.node.content.elements()[k], &other.sourceMap.content.elements().collection[k]);
            sc::Element part(sc::Element::CopyElement);
            part = other.node.content.elements()[k];
            sc::SourceMap<sc::Element> pm(other.sourceMap.content.elements().collection[k]);
            other = Result();
            z(part, &pm);
            c.check(y.tree == z.tree && y.maps == z.maps, "part", docs::differ(z.tree, y.tree) + docs::differ(z.maps, y.maps));
            c.saw("parts");
        }
        c.mark(w.tree + std::to_string(j));
    }

    // is said to be empty what is described like something empty
    struct Empty {
        Case& c;
        template <typename T>
        void one(const T& x, const char* key)
        {
            Walk a, b;
            a.bases = b.bases = false;
            a(x, nullptr);
            b(T(), nullptr);
            c.eq(x.empty(), a.tree == b.tree, key, a.tree);
            c.saw(x.empty() ? "empty" : "not_empty");
        }
        void sections(const mson::TypeSections& s)
        {
            for (auto& x : s) {
                one(x, "empty-section");
                for (auto& e : x.content.elements())
                    element(e);
            }
        }
        void element(const mson::Element& e)
        {
            if (auto* p = e.property()) {
                one(*p, "empty-property");
                sections(p->sections);
            } else if (auto* v = e.value()) {
                one(*v, "empty-value");
                sections(v->sections);
            } else if (auto* o = e.oneOf())
                for (auto& x : *o)
                    element(x);
            else if (auto* g = e.group())
                for (auto& x : *g)
                    element(x);
        }
        void data(const sc::DataStructure& d)
        {
            one(static_cast<const mson::NamedType&>(d), "empty-type");
            sections(d.sections);
        }
        void tree(const sc::Element& e)
        {
            data(e.content.dataStructure);
            data(e.content.resource.attributes);
            for (auto& a : e.content.resource.actions) {
                data(a.attributes);
                for (auto& x : a.examples) {
                    for (auto& q : x.requests)
                        data(q.attributes);
                    for (auto& q : x.responses)
                        data(q.attributes);
                }
            }
            for (auto& x : e.content.elements())
                tree(x);
        }
    };

    void empties(Case& c)
    {
        const std::string& d = document(c);
        Result r;
        sc::parse(d, 0, r);
        Empty{ c }.tree(r.node);
        // each single part makes a member not empty
        vh::Rng& g = c.rng;
        for (int i = 0; i < 20; i++) {
            mson::PropertyMember p;
            if (g.chance(15))
                p.name.literal = "a";
            if (g.chance(15))
                p.name.variable.values.push_back(mson::Value());
            if (g.chance(10))
                p.name.variable.typeDefinition.attributes = mson::SampleTypeAttribute;
            if (g.chance(15))
                p.description = "d";
            if (g.chance(15))
                p.valueDefinition.values.push_back(mson::Value());
            if (g.chance(15))
                p.valueDefinition.typeDefinition.attributes = 1u << g.below(7);
            if (g.chance(15))
                p.valueDefinition.typeDefinition.typeSpecification.name.base = mson::ArrayTypeName;
            if (g.chance(10))
                p.valueDefinition.typeDefinition.typeSpecification.name.symbol.variable = true;
            if (g.chance(10))
                p.valueDefinition.typeDefinition.typeSpecification.nestedTypes.push_back(mson::TypeName());
            if (g.chance(15))
                p.sections.push_back(mson::TypeSection());
            Empty e{ c };
            e.one(p, "empty-property");
            e.one(static_cast<const mson::ValueMember&>(p), "empty-value");
            mson::NamedType t;
            t.typeDefinition = p.valueDefinition.typeDefinition;
            t.sections = p.sections;
            if (g.chance(15))
                t.name.symbol.literal = "T";
            e.one(t, "empty-type");
            mson::TypeSection s;
            if (g.chance(30))
                s.klass = mson::TypeSection::SampleClass;
            if (g.chance(15))
                s.content.value = "v";
            if (g.chance(15))
                s.content.description = "v";
            if (g.chance(15))
                s.content.elements().push_back(mson::Element());
            e.one(s, "empty-section");
        }
        c.mark(d);
    }
}

int main(int argc, char** argv)
{
    if (!docs::load(argc, argv))
        return 3;
    return vh::run(argc, argv, { { "parallel", 2, parallel }, { "copies", 2, copies }, { "empties", 1, empties } });
}
