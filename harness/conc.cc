// Documents parsed and written by many threads at once: each thread must get what
// the document yields alone, and the thread sanitizer watches.
#include "docs.h"
#include <atomic>
#include <thread>
using vh::Case;

namespace
{
    void threads(Case& c)
    {
        vh::Rng& r = c.rng;
        struct Job {
            size_t doc;
            int pf, sf, how, pause;
            docs::Ref got;
        };
        bool shared = r.chance(30); // all threads on the same document
        size_t one = r.below(docs::all().size());
        std::vector<std::vector<Job> > jobs(2 + r.below(5));
        std::string id;
        for (auto& j : jobs)
            for (size_t n = 1 + r.below(4); n--;) {
                Job x{ shared ? one : r.below(docs::all().size()), (int)r.below(8), (int)r.below(4), (int)r.below(4), (int)r.below(20000), {} };
                id += std::to_string(x.doc) + "." + std::to_string(x.pf) + "." + std::to_string(x.sf) + "." + std::to_string(x.how) + " ";
                j.push_back(x);
            }
        c << id;
        std::atomic<int> go{ 0 };
        std::atomic<int> inside{ 0 }, most{ 0 };
        std::vector<std::thread> ts;
        for (auto& j : jobs)
            ts.emplace_back([&] {
                go++;
                while (go < (int)jobs.size())
                    std::this_thread::yield();
                for (auto& x : j) {
                    for (volatile int k = 0; k < x.pause; k++) {
                    }
                    int now = ++inside, m = most;
                    while (now > m && !most.compare_exchange_weak(m, now)) {
                    }
                    if (x.how == 0) { // in one go
                        drafter_parse_options* o = drafter_init_parse_options();
                        docs::set(o, x.pf);
                        drafter_serialize_options* so = drafter_init_serialize_options();
                        docs::set(so, x.sf);
                        char* s = nullptr;
                        x.got.rc = drafter_parse_blueprint_to(docs::all()[x.doc].c_str(), &s, o, so);
                        x.got.text = s ? s : "(null)";
                        free(s);
                        drafter_free_parse_options(o);
                        drafter_free_serialize_options(so);
                    } else
                        x.got = docs::alone(x.doc, x.pf, x.sf);
                    inside--;
                }
            });
        for (auto& t : ts)
            t.join();
        for (auto& j : jobs)
            for (auto& x : j) {
                const docs::Ref& e = docs::expected(x.doc, x.pf, x.sf);
                c.eq(x.got.rc, e.rc, "code", "document " + std::to_string(x.doc));
                c.check(x.got.text == e.text, "text", "document " + std::to_string(x.doc) + " " + docs::differ(x.got.text, e.text));
                c.saw("texts");
            }
        c.saw("overlap", (uint64_t)most);
        if (most > 1)
            c.saw("cases_overlapping");
        c.mark(id);
    }
}

int main(int argc, char** argv)
{
    if (!docs::load(argc, argv))
        return 3;
    return vh::run(argc, argv, { { "threads", 1, threads } });
}
