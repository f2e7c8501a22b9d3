// An independent, plain model of an element tree: generator, builder through
// the public element API, and a reader that walks a real tree completely.
#ifndef VH_EL_H
#define VH_EL_H
#include "vh.h"
#include <memory>
#include "refract/Element.h"
#include "refract/InfoElements.h"
#include "refract/Utils.h"
#include "refract/Visitor.h"

namespace el
{
    using namespace refract;

    enum Kind { KNull, KHolder, KString, KNumber, KBoolean, KArray, KMember, KObject, KEnum, KRef, KExtend, KOption, KSelect, KCount };
    static const char* const kindName[] = { "Null", "Holder", "String", "Number", "Boolean", "Array", "Member", "Object", "Enum",
        "Ref", "Extend", "Option", "Select" };
    static const char* const defName[] = { "null", "", "string", "number", "boolean", "array", "member", "object", "enum", "ref",
        "extend", "option", "select" };

    struct Node;
    using P = std::shared_ptr<Node>;
    using Info = std::vector<std::pair<std::string, P> >;

    struct Node {
        Kind kind = KNull;
        std::string name;
        bool has = false;
        std::string text;    // String, Number, Ref, Boolean ("1"/"0")
        std::vector<P> kids; // containers; Member: key, value (may be null); Holder/Enum: one, may be null
        Info meta, attr;
        const void* addr = nullptr; // where read() saw it
    };

    inline P mk(Kind k)
    {
        auto n = std::make_shared<Node>();
        n->kind = k;
        n->name = defName[k];
        return n;
    }
    inline P str(const std::string& s)
    {
        auto n = mk(KString);
        n->has = true;
        n->text = s;
        return n;
    }
    inline P copy(const P& p)
    {
        if (!p)
            return p;
        auto n = std::make_shared<Node>(*p);
        for (auto& k : n->kids)
            k = copy(k);
        for (auto& k : n->meta)
            k.second = copy(k.second);
        for (auto& k : n->attr)
            k.second = copy(k.second);
        return n;
    }

    struct DumpOpt {
        bool names = true;
    };

    inline void dump(std::string& o, const P& n, const DumpOpt& d = DumpOpt())
    {
        if (!n) {
            o += "<null>";
            return;
        }
        o += kindName[n->kind];
        if (d.names && n->name != defName[n->kind])
            o += ":" + vh::quote(n->name);
        if (!n->meta.empty()) {
            o += "{M";
            for (auto& m : n->meta) {
                o += " " + m.first + "=";
                dump(o, m.second, d);
            }
            o += "}";
        }
        if (!n->attr.empty()) {
            o += "{A";
            for (auto& m : n->attr) {
                o += " " + m.first + "=";
                dump(o, m.second, d);
            }
            o += "}";
        }
        if (!n->has) {
            o += "~";
            return;
        }
        switch (n->kind) {
            case KNull:
                o += "()";
                break;
            case KString:
            case KNumber:
            case KBoolean:
            case KRef:
                o += "(" + vh::quote(n->text) + ")";
                break;
            default: {
                o += "[";
                bool first = true;
                for (auto& k : n->kids) {
                    if (!first)
                        o += ", ";
                    first = false;
                    dump(o, k, d);
                }
                o += "]";
            }
        }
    }
    inline std::string dump(const P& n, const DumpOpt& d = DumpOpt())
    {
        std::string o;
        dump(o, n, d);
        return o;
    }

    // ------------------------------------------------------------- builder
    inline std::unique_ptr<IElement> build(const P& n);

    template <typename E>
    std::unique_ptr<IElement> finish(std::unique_ptr<E> e, const P& n)
    {
        e->element(n->name);
        for (auto& m : n->meta)
            e->meta().set(m.first, build(m.second));
        for (auto& m : n->attr)
            e->attributes().set(m.first, build(m.second));
        return std::unique_ptr<IElement>(std::move(e));
    }
    template <typename E>
    std::unique_ptr<IElement> buildc(const P& n)
    {
        auto e = make_empty<E>();
        if (n->has) {
            e->set();
            for (auto& k : n->kids)
                e->get().insert(e->get().end(), build(k));
        }
        return finish(std::move(e), n);
    }
    inline std::unique_ptr<IElement> build(const P& n)
    {
        if (!n)
            return nullptr;
        switch (n->kind) {
            case KNull: {
                auto e = make_empty<NullElement>();
                if (n->has)
                    e->set();
                return finish(std::move(e), n);
            }
            case KHolder: {
                auto e = make_empty<HolderElement>();
                if (n->has)
                    e->set(n->kids.empty() || !n->kids[0] ? dsd::Holder{} : dsd::Holder{ build(n->kids[0]) });
                return finish(std::move(e), n);
            }
            case KString: {
                auto e = make_empty<StringElement>();
                if (n->has)
                    e->set(dsd::String{ n->text });
                return finish(std::move(e), n);
            }
            case KNumber: {
                auto e = make_empty<NumberElement>();
                if (n->has)
                    e->set(dsd::Number{ n->text });
                return finish(std::move(e), n);
            }
            case KBoolean: {
                auto e = make_empty<BooleanElement>();
                if (n->has)
                    e->set(dsd::Boolean{ n->text == "1" });
                return finish(std::move(e), n);
            }
            case KArray:
                return buildc<ArrayElement>(n);
            case KObject:
                return buildc<ObjectElement>(n);
            case KExtend:
                return buildc<ExtendElement>(n);
            case KOption:
                return buildc<OptionElement>(n);
            case KSelect: {
                auto e = make_empty<SelectElement>();
                if (n->has) {
                    e->set();
                    for (auto& k : n->kids)
                        e->get().insert(
                            e->get().end(), std::unique_ptr<OptionElement>(static_cast<OptionElement*>(build(k).release())));
                }
                return finish(std::move(e), n);
            }
            case KMember: {
                auto e = make_empty<MemberElement>();
                if (n->has) {
                    if (n->kids[0])
                        e->set(dsd::Member{ build(n->kids[0]), build(n->kids[1]) });
                    else
                        e->set(dsd::Member{});
                }
                return finish(std::move(e), n);
            }
            case KEnum: {
                auto e = make_empty<EnumElement>();
                if (n->has)
                    e->set(n->kids.empty() || !n->kids[0] ? dsd::Enum{} : dsd::Enum{ build(n->kids[0]) });
                return finish(std::move(e), n);
            }
            case KRef: {
                auto e = make_empty<RefElement>();
                if (n->has)
                    e->set(dsd::Ref{ n->text });
                return finish(std::move(e), n);
            }
            default:
                abort();
        }
    }

    // -------------------------------------------------------------- reader
    inline P read(const IElement* e);

    struct Reader {
        P n;
        template <typename E>
        void base(Kind k, const E& e)
        {
            n->kind = k;
            n->name = e.element();
            n->addr = static_cast<const IElement*>(&e);
            for (const auto& m : e.meta())
                n->meta.emplace_back(m.first, read(m.second.get()));
            for (const auto& m : e.attributes())
                n->attr.emplace_back(m.first, read(m.second.get()));
            n->has = !e.empty();
        }
        template <typename E>
        void cont(Kind k, const E& e)
        {
            base(k, e);
            if (n->has)
                for (const auto& c : e.get())
                    n->kids.push_back(read(c.get()));
        }
        void operator()(const NullElement& e)
        {
            base(KNull, e);
        }
        void operator()(const HolderElement& e)
        {
            base(KHolder, e);
            if (n->has)
                n->kids.push_back(read(e.get().data()));
        }
        void operator()(const StringElement& e)
        {
            base(KString, e);
            if (n->has)
                n->text = e.get().get();
        }
        void operator()(const NumberElement& e)
        {
            base(KNumber, e);
            if (n->has)
                n->text = e.get().get();
        }
        void operator()(const BooleanElement& e)
        {
            base(KBoolean, e);
            if (n->has)
                n->text = e.get().get() ? "1" : "0";
        }
        void operator()(const ArrayElement& e)
        {
            cont(KArray, e);
        }
        void operator()(const EnumElement& e)
        {
            base(KEnum, e);
            if (n->has)
                n->kids.push_back(read(e.get().value()));
        }
        void operator()(const MemberElement& e)
        {
            base(KMember, e);
            if (n->has) {
                n->kids.push_back(read(e.get().key()));
                n->kids.push_back(read(e.get().value()));
            }
        }
        void operator()(const ObjectElement& e)
        {
            cont(KObject, e);
        }
        void operator()(const RefElement& e)
        {
            base(KRef, e);
            if (n->has)
                n->text = e.get().symbol();
        }
        void operator()(const ExtendElement& e)
        {
            cont(KExtend, e);
        }
        void operator()(const OptionElement& e)
        {
            cont(KOption, e);
        }
        void operator()(const SelectElement& e)
        {
            cont(KSelect, e);
        }
    };

    struct ReaderRef {
        Reader* r;
        template <typename E>
        void operator()(const E& e)
        {
            (*r)(e);
        }
    };

    inline P read(const IElement* e)
    {
        if (!e)
            return nullptr;
        Reader r;
        r.n = std::make_shared<Node>();
        refract::visit(*e, ReaderRef{ &r });
        return r.n;
    }
    inline P read(const IElement& e)
    {
        return read(&e);
    }
    inline std::string show(const IElement* e)
    {
        return dump(read(e));
    }
    inline std::string show(const IElement& e)
    {
        return dump(read(&e));
    }

    inline void addresses(const P& n, std::set<const void*>& out)
    {
        if (!n)
            return;
        out.insert(n->addr);
        for (auto& k : n->kids)
            addresses(k, out);
        for (auto& k : n->meta)
            addresses(k.second, out);
        for (auto& k : n->attr)
            addresses(k.second, out);
    }
    inline size_t count(const P& n)
    {
        if (!n)
            return 0;
        size_t c = 1;
        for (auto& k : n->kids)
            c += count(k);
        for (auto& k : n->meta)
            c += count(k.second);
        for (auto& k : n->attr)
            c += count(k.second);
        return c;
    }

    // ----------------------------------------------------------- generator
    struct Gen {
        vh::Rng& r;
        bool nullEnumValue = false; // Enum/Holder with a value set but no element in it
        bool oddMembers = true;     // member without a value
        bool customNames = true;
        int infoPercent = 35;
        explicit Gen(vh::Rng& rng) : r(rng) {}

        std::string word()
        {
            static const char* const w[] = { "a", "b", "c", "id", "x", "abc", "", "ab", "A", "\xc3\xa9" };
            return w[r.below(10)];
        }
        std::string typeName()
        {
            static const char* const w[] = { "T1", "T2", "Person", "strin", "strings", "copy", "asset", "A" };
            return w[r.below(8)];
        }
        std::string infoKey()
        {
            static const char* const w[] = { "id", "description", "title", "ref", "k", "sourceMap", "typeAttributes", "samples",
                "default", "classes" };
            return w[r.below(10)];
        }
        void info(Info& i, int depth)
        {
            int n = r.range(1, 3);
            for (int k = 0; k < n; k++) {
                auto key = infoKey();
                bool dup = false;
                for (auto& x : i)
                    dup = dup || x.first == key;
                if (!dup)
                    i.emplace_back(key, any(depth - 1));
            }
        }
        P any(int depth)
        {
            static const Kind leaf[] = { KString, KNumber, KBoolean, KNull, KRef, KString };
            return of(depth <= 0 ? leaf[r.below(6)] : (Kind)r.below(KCount), depth);
        }
        P of(Kind k, int depth)
        {
            auto n = mk(k);
            if (customNames && r.chance(12))
                n->name = typeName();
            n->has = r.chance(85);
            if (depth > 0 && r.chance(infoPercent))
                info(n->meta, depth);
            if (depth > 0 && r.chance(infoPercent))
                info(n->attr, depth);
            if (!n->has)
                return n;
            switch (k) {
                case KString:
                    n->text = word();
                    break;
                case KNumber: {
                    static const char* const w[] = { "0", "1", "-1", "42", "3.14", "1e5", "007" };
                    n->text = w[r.below(7)];
                    break;
                }
                case KBoolean:
                    n->text = r.chance(50) ? "1" : "0";
                    break;
                case KRef:
                    n->text = r.chance(50) ? typeName() : word();
                    break;
                case KArray:
                case KExtend:
                case KOption:
                case KObject: {
                    int c = r.range(0, 3);
                    for (int i = 0; i < c; i++)
                        n->kids.push_back(k == KObject || k == KOption ? (r.chance(75) ? of(KMember, depth - 1) : any(depth - 1))
                                                                       : any(depth - 1));
                    break;
                }
                case KSelect: {
                    int c = r.range(0, 3);
                    for (int i = 0; i < c; i++)
                        n->kids.push_back(of(KOption, depth - 1));
                    break;
                }
                case KMember: {
                    bool nokey = oddMembers && r.chance(5);
                    n->kids.push_back(nokey ? nullptr : (r.chance(85) ? str(word()) : any(depth - 1)));
                    n->kids.push_back((nokey || (oddMembers && r.chance(10))) ? nullptr : any(depth - 1));
                    break;
                }
                case KEnum:
                case KHolder:
                    n->kids.push_back(nullEnumValue && r.chance(15) ? nullptr : any(depth - 1));
                    break;
                default:
                    break;
            }
            return n;
        }
    };
}
#endif
