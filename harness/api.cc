// Histories of the public interface: several results and sets of options live at
// once, changed, used and freed in any order; each text must be the one the
// document yields on its own.
#include "docs.h"
#include "live.h"
using vh::Case;

namespace
{
    struct PO {
        drafter_parse_options* o;
        int flags;
    };
    struct SO {
        drafter_serialize_options* o;
        int flags;
    };
    struct Res {
        drafter_result* r;
        size_t doc;
        int flags;
    };

    void history(Case& c)
    {
        vh::Rng& r = c.rng;
        std::vector<size_t> mine;
        for (int k = r.range(1, 4); k--;)
            mine.push_back(r.below(docs::all().size()));
        // what the history needs is computed before the blocks are counted
        for (auto d : mine)
            for (int f = 0; f < 8; f++)
                (void)0;
        struct Op {
            int what;
            size_t a, b;
            int f;
        };
        std::vector<Op> ops;
        for (int n = r.range(8, 30); n--;)
            ops.push_back({ (int)r.below(12), r.next(), r.next(), (int)r.below(8) });
        std::string log;
        for (auto d : mine)
            log += "doc " + std::to_string(d) + ": " + vh::quote(docs::all()[d].substr(0, 200)) + "\n";
        std::string bad, badKey;
        uint64_t texts = 0, results = 0, frees = 0;
        auto run = [&](bool warm) {
            std::vector<PO> po;
            std::vector<SO> so;
            std::vector<Res> rs;
            std::string trace;
            auto parseFlags = [&](size_t i) { return i < po.size() ? po[i].flags : 0; };
            for (auto& op : ops) {
                switch (op.what) {
                    case 0:
                        po.push_back({ drafter_init_parse_options(), 0 });
                        break;
                    case 1:
                        so.push_back({ drafter_init_serialize_options(), 0 });
                        break;
                    case 2:
                        if (!po.empty()) {
                            PO& p = po[op.a % po.size()];
                            int f = 1 << (op.f % 3);
                            docs::set(p.o, f);
                            p.flags |= f;
                        }
                        break;
                    case 3:
                        if (!so.empty()) {
                            SO& s = so[op.a % so.size()];
                            if (op.f & 1) {
                                drafter_set_sourcemaps_included(s.o);
                                s.flags |= docs::Maps;
                            } else {
                                drafter_set_format(s.o, op.f & 2 ? DRAFTER_SERIALIZE_JSON : DRAFTER_SERIALIZE_YAML);
                                s.flags = (s.flags & ~docs::Json) | (op.f & 2 ? docs::Json : 0);
                            }
                        }
                        break;
                    case 4:
                    case 5:
                    case 6: {
                        size_t d = mine[op.b % mine.size()], k = op.a % (po.size() + 1);
                        int f = parseFlags(k);
                        drafter_result* x = nullptr;
                        int rc = drafter_parse_blueprint(docs::all()[d].c_str(), &x, k < po.size() ? po[k].o : nullptr);
                        rs.push_back({ x, d, f });
                        results++;
                        if (bad.empty() && rc != docs::expected(d, f, 0).rc) {
                            badKey = "code";
                            bad = "code " + std::to_string(rc) + " instead of " + std::to_string(docs::expected(d, f, 0).rc);
                        }
                        break;
                    }
                    case 7:
                    case 8:
                    case 9:
                        if (!rs.empty()) {
                            Res& x = rs[op.a % rs.size()];
                            size_t k = op.b % (so.size() + 1);
                            int f = k < so.size() ? so[k].flags : 0;
                            char* s = drafter_serialize(x.r, k < so.size() ? so[k].o : nullptr);
                            std::string t = s ? s : "(null)";
                            free(s);
                            texts++;
                            const docs::Ref& e = docs::expected(x.doc, x.flags, f);
                            if (bad.empty() && t != e.text) {
                                badKey = "text";
                                bad = "document " + std::to_string(x.doc) + ", parse flags " + std::to_string(x.flags) + ", output flags "
                                    + std::to_string(f) + ", " + docs::differ(t, e.text);
                            }
                        }
                        break;
                    case 10:
                        if (!rs.empty() && op.f < 5) {
                            size_t k = op.a % rs.size();
                            drafter_free_result(rs[k].r);
                            rs.erase(rs.begin() + k);
                            frees++;
                        } else if (!po.empty()) {
                            size_t k = op.a % po.size();
                            drafter_free_parse_options(po[k].o);
                            po.erase(po.begin() + k);
                        } else if (!so.empty()) {
                            size_t k = op.a % so.size();
                            drafter_free_serialize_options(so[k].o);
                            so.erase(so.begin() + k);
                        }
                        break;
                    default: {
                        size_t d = mine[op.b % mine.size()], k = op.a % (po.size() + 1);
                        drafter_result* x = nullptr;
                        drafter_check_blueprint(docs::all()[d].c_str(), &x, k < po.size() ? po[k].o : nullptr);
                        drafter_free_result(x);
                    }
                }
            }
            for (auto& x : rs)
                drafter_free_result(x.r);
            for (auto& x : po)
                drafter_free_parse_options(x.o);
            for (auto& x : so)
                drafter_free_serialize_options(x.o);
            (void)warm;
        };
        for (auto& op : ops)
            log += std::to_string(op.what) + "." + std::to_string(op.a % 97) + "." + std::to_string(op.b % 97) + "." + std::to_string(op.f) + " ";
        c << log;
        run(true);
        c.check(bad.empty(), badKey.empty() ? "text" : badKey.c_str(), bad);
        texts = results = frees = 0;
        long before = vh::live();
        run(false);
        long after = vh::live();
        c.eq(after, before, "leak", "live heap blocks after the history");
        c.check(bad.empty(), badKey.empty() ? "text" : badKey.c_str(), bad);
        c.saw("texts", texts);
        c.saw("results", results);
        c.saw("freed_early", frees);
        if (texts)
            c.mark(log);
    }
}

int main(int argc, char** argv)
{
    vh::countAllocations();
    if (!docs::load(argc, argv))
        return 3;
    return vh::run(argc, argv, { { "history", 1, history } });
}
