// The documents of a workload, packed by lib/corpus.py, and reference outputs.
#ifndef DOCS_H
#define DOCS_H
#include "vh.h"
#include "drafter.h"

namespace docs
{
    inline std::vector<std::string>& all()
    {
        static std::vector<std::string> d;
        return d;
    }
    inline bool load(int argc, char** argv)
    {
        for (int i = 1; i + 1 < argc; i += 2)
            if (std::string(argv[i]) == "--docs") {
                FILE* f = fopen(argv[i + 1], "rb");
                uint32_t n;
                while (f && fread(&n, 4, 1, f) == 1) {
                    std::string s(n, '\0');
                    if (n && fread(&s[0], 1, n, f) != n)
                        return false;
                    all().push_back(s.c_str());
                }
                if (f)
                    fclose(f);
            }
        return !all().empty();
    }

    enum { Name = 1, NoBody = 2, NoSchema = 4 };
    enum { Json = 1, Maps = 2 };

    inline void set(drafter_parse_options* o, int flag)
    {
        if (flag & Name)
            drafter_set_name_required(o);
        if (flag & NoBody)
            drafter_set_skip_gen_bodies(o);
        if (flag & NoSchema)
            drafter_set_skip_gen_body_schemas(o);
    }
    inline void set(drafter_serialize_options* o, int flag)
    {
        if (flag & Maps)
            drafter_set_sourcemaps_included(o);
        drafter_set_format(o, flag & Json ? DRAFTER_SERIALIZE_JSON : DRAFTER_SERIALIZE_YAML);
    }

    inline std::string text(drafter_result* r, int flags)
    {
        drafter_serialize_options* o = drafter_init_serialize_options();
        set(o, flags);
        char* s = drafter_serialize(r, o);
        drafter_free_serialize_options(o);
        std::string t = s ? s : "(null)";
        free(s);
        return t;
    }

    struct Ref {
        int rc;
        std::string text;
        bool operator==(const Ref& o) const
        {
            return rc == o.rc && text == o.text;
        }
    };

    // one document on its own, with options of its own
    inline Ref alone(size_t doc, int pf, int sf)
    {
        drafter_parse_options* o = drafter_init_parse_options();
        set(o, pf);
        drafter_result* r = nullptr;
        Ref ref;
        ref.rc = drafter_parse_blueprint(all()[doc].c_str(), &r, o);
        drafter_free_parse_options(o);
        ref.text = text(r, sf);
        drafter_free_result(r);
        return ref;
    }

    inline const Ref& expected(size_t doc, int pf, int sf)
    {
        static std::map<std::pair<size_t, int>, Ref> cache;
        auto k = std::make_pair(doc, pf * 16 + sf);
        auto it = cache.find(k);
        if (it == cache.end())
            it = cache.emplace(k, alone(doc, pf, sf)).first;
        return it->second;
    }

    inline std::string differ(const std::string& a, const std::string& b)
    {
        size_t i = 0;
        while (i < a.size() && i < b.size() && a[i] == b[i])
            i++;
        size_t f = i > 60 ? i - 60 : 0;
        return "at " + std::to_string(i) + ": " + vh::quote(a.substr(f, 160)) + " instead of " + vh::quote(b.substr(f, 160));
    }
}
#endif
