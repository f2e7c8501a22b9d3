// Serves the public C interface over stdin/stdout, so that the oracles can be
// written elsewhere while the code under test runs under the sanitizers.
//
// request : u32 flags, u32 n, n bytes of source
// response: u32 count, then count times (u32 length, bytes); length 0xffffffff is NULL
//           [0] a line of numbers: parse-rc parse_to-rc check-rc alloc-balance ...
//           the rest depends on the flags, in the order of the bits below
#include "drafter.h"
#include "live.h"
#include "utils/so/JsonIo.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>

enum {
    F_NAME = 1,        // require name
    F_NOBODY = 2,      // skip generated bodies
    F_NOSCHEMA = 4,    // skip generated schemas
    F_NULLOPT = 8,     // NULL parse options (other option bits ignored)
    F_JSON = 16,
    F_JSON_SM = 32,
    F_YAML = 64,
    F_YAML_SM = 128,
    F_CHECK = 256,     // drafter_check_blueprint -> JSON with source maps
    F_TO = 512,        // drafter_parse_blueprint_to -> JSON with source maps
    F_TO_NULL = 1024,  // drafter_parse_blueprint_to with NULL serialize options
    F_BALANCE = 2048,  // live heap blocks before/after
    F_NULLS = 4096,    // the NULL-argument contract
    F_CHECK_NULL = 8192 // drafter_check_blueprint without anywhere to put the result
};

struct Out {
    std::vector<std::pair<bool, std::string> > v;
    void put(const char* s)
    {
        v.emplace_back(s != nullptr, s ? s : "");
    }
};

struct Opts {
    drafter_serialize_options* o;
    Opts(drafter_format f, bool sm) : o(drafter_init_serialize_options())
    {
        drafter_set_format(o, f);
        if (sm)
            drafter_set_sourcemaps_included(o);
    }
    ~Opts()
    {
        drafter_free_serialize_options(o);
    }
};

static void serial(Out& out, drafter_result* r, drafter_format f, bool sm)
{
    Opts o(f, sm);
    char* s = drafter_serialize(r, o.o);
    out.put(s);
    free(s);
}

static void work(uint32_t fl, const std::string& src, Out& out, std::string& nums)
{
    drafter_parse_options* po = nullptr;
    if (!(fl & F_NULLOPT)) {
        po = drafter_init_parse_options();
        if (fl & F_NAME)
            drafter_set_name_required(po);
        if (fl & F_NOBODY)
            drafter_set_skip_gen_bodies(po);
        if (fl & F_NOSCHEMA)
            drafter_set_skip_gen_body_schemas(po);
    }
    drafter_result* r = nullptr;
    long rc = drafter_parse_blueprint(src.c_str(), &r, po), rcTo = 0, rcCheck = 0, rcCheckNull = 0;
    long got = r != nullptr;
    if (fl & F_JSON)
        serial(out, r, DRAFTER_SERIALIZE_JSON, false);
    if (fl & F_JSON_SM)
        serial(out, r, DRAFTER_SERIALIZE_JSON, true);
    if (fl & F_YAML)
        serial(out, r, DRAFTER_SERIALIZE_YAML, false);
    if (fl & F_YAML_SM)
        serial(out, r, DRAFTER_SERIALIZE_YAML, true);
    drafter_free_result(r);
    if (fl & F_CHECK) {
        drafter_result* c = nullptr;
        rcCheck = drafter_check_blueprint(src.c_str(), &c, po);
        if (c)
            serial(out, c, DRAFTER_SERIALIZE_JSON, true);
        else
            out.put(nullptr);
        drafter_free_result(c);
    }
    if (fl & F_TO) {
        char* s = nullptr;
        Opts o(DRAFTER_SERIALIZE_JSON, true);
        rcTo = drafter_parse_blueprint_to(src.c_str(), &s, po, o.o);
        out.put(s);
        free(s);
    }
    long rcToNull = 0;
    if (fl & F_TO_NULL) {
        char* s = nullptr;
        rcToNull = drafter_parse_blueprint_to(src.c_str(), &s, po, nullptr);
        out.put(s);
        free(s);
    }
    if (fl & F_CHECK_NULL)
        rcCheckNull = drafter_check_blueprint(src.c_str(), nullptr, po);
    std::ostringstream o;
    o << rc << ' ' << rcTo << ' ' << rcCheck << ' ' << rcToNull << ' ' << rcCheckNull << ' ' << got;
    if (fl & F_NULLS) {
        drafter_result* x = nullptr;
        char* s = nullptr;
        long a = drafter_parse_blueprint(nullptr, &x, po), b = drafter_parse_blueprint_to(nullptr, &s, po, nullptr),
             c = drafter_check_blueprint(nullptr, &x, po);
        long d = drafter_parse_blueprint(src.c_str(), nullptr, po);
        long e = drafter_parse_blueprint_to(src.c_str(), nullptr, po, nullptr);
        char* n = drafter_serialize(nullptr, nullptr);
        drafter_free_result(nullptr);
        drafter_free_parse_options(nullptr);
        drafter_free_serialize_options(nullptr);
        o << ' ' << a << ' ' << b << ' ' << c << ' ' << d << ' ' << e << ' ' << (x == nullptr && s == nullptr && n == nullptr);
        free(n);
    }
    nums = o.str();
    drafter_free_parse_options(po);
}

static bool rd(void* p, size_t n)
{
    return fread(p, 1, n, stdin) == n;
}

int main()
{
    vh::countAllocations();
    for (;;) {
        uint32_t h[2];
        if (!rd(h, 8))
            return 0;
        // exactly-sized heap copy: reads past the end are seen
        std::string src(h[1], '\0');
        if (h[1] && !rd(&src[0], h[1]))
            return 0;
        src.shrink_to_fit();
        Out out;
        std::string nums, exc;
        long diff = 0;
        try {
            work(h[0], src, out, nums);
        } catch (const std::exception& e) {
            exc = std::string(typeid(e).name()) + ": " + e.what();
        } catch (...) {
            exc = "unknown exception";
        }
        if (exc.empty() && (h[0] & F_BALANCE)) {
            // the first run warmed up whatever is cached for good
            for (int k = 0; k < 2; k++) {
                long a = vh::live();
                {
                    Out o2;
                    std::string n2;
                    work(h[0], src, o2, n2);
                }
                diff = vh::live() - a;
                if (!diff)
                    break;
            }
        }
        std::string head = exc.empty() ? nums + " " + std::to_string(diff) : "EXC " + exc;
        uint32_t n = (uint32_t)out.v.size() + 1, l = (uint32_t)head.size();
        fwrite(&n, 4, 1, stdout);
        fwrite(&l, 4, 1, stdout);
        fwrite(head.data(), 1, head.size(), stdout);
        for (auto& x : out.v) {
            l = x.first ? (uint32_t)x.second.size() : 0xffffffffu;
            fwrite(&l, 4, 1, stdout);
            if (x.first)
                fwrite(x.second.data(), 1, x.second.size(), stdout);
        }
        fflush(stdout);
    }
}
