// A plain model of merging the elements of an inheritance chain.
#ifndef VH_MERGEMODEL_H
#define VH_MERGEMODEL_H
#include "el.h"
namespace mergemodel
{
    using namespace el;

    struct Refused {
    };

    inline P* info(Info& i, const std::string& k)
    {
        for (auto& x : i)
            if (x.first == k)
                return &x.second;
        return nullptr;
    }
    inline void set(Info& i, const std::string& k, P v)
    {
        if (P* p = info(i, k))
            *p = v;
        else
            i.emplace_back(k, v);
    }
    inline bool same(const P& a, const P& b)
    {
        DumpOpt d;
        d.names = false;
        return dump(a, d) == dump(b, d);
    }

    static bool keepsLost = false; // set: array items added to an array without a value are lost (known finding)
    static bool sawLost = false;

    inline P merge(const std::vector<P>& all);

    inline std::string keyOf(const P& m)
    {
        if (!m->has || !m->kids[0] || !m->kids[0]->has)
            return "";
        P k = m->kids[0];
        if (k->kind == KString)
            return k->text;
        if (k->kind == KExtend) {
            P x = merge(k->kids);
            if (!x || x->kind != KString)
                return "";
            if (x->has)
                return x->text;
            if (P* s = info(x->attr, "samples"))
                if ((*s)->kind == KArray && (*s)->has && !(*s)->kids.empty() && (*s)->kids[0]->kind == KString)
                    return (*s)->kids[0]->has ? (*s)->kids[0]->text : "";
            if (P* s = info(x->attr, "default"))
                if ((*s)->kind == KString)
                    return (*s)->has ? (*s)->text : "";
        }
        return "";
    }

    inline void into(P& t, const P& a)
    {
        if (t->kind != a->kind)
            throw Refused();
        switch (t->kind) {
            case KString:
            case KNumber:
            case KBoolean:
            case KArray:
            case KObject:
            case KEnum:
            case KRef:
                break;
            default:
                throw Refused();
        }
        for (auto& m : a->meta)
            if (m.first != "id" && m.first != "prefix" && m.first != "namespace")
                set(t->meta, m.first, copy(m.second));
        for (auto& m : a->attr) {
            if (t->kind == KEnum && m.first == "enumerations")
                continue;
            set(t->attr, m.first, copy(m.second));
        }
        if (t->kind == KEnum)
            if (P* ae = info(const_cast<Info&>(a->attr), "enumerations"))
                if ((*ae)->has && !(*ae)->kids.empty()) {
                    P* te = info(t->attr, "enumerations");
                    if (!te)
                        set(t->attr, "enumerations", copy(*ae));
                    else
                        for (auto& x : (*ae)->kids) {
                            auto& k = (*te)->kids;
                            for (size_t i = 0; i < k.size(); i++)
                                if (same(k[i], x)) {
                                    k.erase(k.begin() + i);
                                    break;
                                }
                            k.push_back(copy(x));
                        }
                }
        if (!a->has)
            return;
        if (t->kind == KArray) {
            if (!t->has) {
                sawLost = true;
                if (keepsLost)
                    return;
            }
            t->has = true;
            for (auto& k : a->kids)
                t->kids.push_back(copy(k));
        } else if (t->kind == KObject) {
            for (auto& m : a->kids) {
                t->has = true;
                size_t at = t->kids.size();
                for (size_t i = 0; i < t->kids.size() && at == t->kids.size(); i++) {
                    const P& e = t->kids[i];
                    if (m->kind == KMember) {
                        std::string k = keyOf(m);
                        if (e->kind == KMember && keyOf(e) == k)
                            at = i;
                        else if (e->kind == KSelect && e->has) {
                            for (auto& o : e->kids)
                                if (o->has)
                                    for (auto& x : o->kids)
                                        if (x->kind == KMember && keyOf(x) == k)
                                            at = i;
                        }
                    } else if (m->kind == KRef && e->kind == KRef && e->text == m->text)
                        at = i;
                }
                if (at < t->kids.size())
                    t->kids[at] = copy(m);
                else
                    t->kids.push_back(copy(m));
            }
        } else {
            t->has = true;
            t->text = a->text;
            t->kids.clear();
            for (auto& k : a->kids)
                t->kids.push_back(copy(k));
        }
    }

    inline P merge(const std::vector<P>& all)
    {
        P t;
        for (auto& a : all) {
            if (!t)
                t = copy(a);
            else
                into(t, a);
        }
        return t;
    }
}
#endif
