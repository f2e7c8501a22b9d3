// The trivial log, built with logging on: entries written by many threads come
// out whole, once and in each thread's order.
#define LOGGING
#include "utils/log/Trivial.cc"
#include "vh.h"
#include <atomic>
#include <sys/stat.h>
using vh::Case;

namespace
{
    using namespace drafter::utils::log;

    bool lastEnabled = false;
    size_t readSoFar = 0;

    std::string tail()
    {
        if (auto* o = trivial_log::instance().out())
            o->flush();
        std::ifstream f("drafter.log", std::ios::binary);
        f.seekg((std::streamoff)readSoFar);
        std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        readSoFar += s.size();
        return s;
    }

    struct Plan {
        int sev;
        std::string text;
        int pause;
        bool manipulate;
    };

    void threads(Case& c)
    {
        vh::Rng& r = c.rng;
        bool enabled = lastEnabled;
        int enablers = lastEnabled ? (int)r.below(2) : r.chance(60) ? 1 + (int)r.below(2) : 0;
        bool during = r.chance(40);
        std::vector<std::vector<Plan> > plans(2 + r.below(7));
        int serial = 0;
        for (auto& p : plans)
            for (size_t n = 1 + r.below(30); n--;) {
                std::string t = "#" + std::to_string(serial++) + "#";
                while (r.chance(50))
                    t += (char)(' ' + r.below(95));
                p.push_back({ r.chance(25) ? 0 : 1 + (int)r.below(3), t, r.chance(70) ? 0 : (int)r.below(200), r.chance(20) });
            }
        c << plans.size() << " threads, " << serial << " entries, enabled before: " << enabled << ", by " << enablers << (during ? " meanwhile" : " first");
        if (enablers && !during) {
            trivial_log::instance().enable();
            enabled = true;
        }
        bool unknown = enablers && during && !lastEnabled; // entries before the log is open are not kept
        std::atomic<int> go{ 0 };
        std::vector<std::thread> ts;
        for (auto& p : plans)
            ts.emplace_back([&] {
                go++;
                while (go < (int)plans.size())
                    std::this_thread::yield();
                for (auto& e : p) {
                    for (volatile int k = 0; k < e.pause; k++) {
                    }
                    std::string a = e.text.substr(0, e.text.size() / 2), b = e.text.substr(e.text.size() / 2);
                    switch (e.sev) {
                        case 0:
                            LOG(debug) << a << b;
                            break;
                        case 1:
                            LOG(info) << a << b << 17 << 'x';
                            break;
                        case 2:
                            LOG(warning) << a << b << 17 << 'x';
                            break;
                        default:
                            LOG(error) << a << b << 17 << 'x';
                    }
                    if (e.manipulate)
                        std::this_thread::yield();
                }
            });
        if (enablers && during)
            for (int k = 0; k < enablers; k++)
                ts.emplace_back([] { trivial_log::instance().enable(); });
        for (auto& t : ts)
            t.join();
        if (enablers)
            lastEnabled = true;
        std::string out = tail();
        if (!enabled && !unknown) {
            c.eq(out, "", "written-when-off");
            c.check(trivial_log::instance().out() == nullptr, "on-without-enable", "the log is on");
            c.saw("cases_off");
            return;
        }
        if (unknown)
            c.saw("cases_enabled_meanwhile");
        // every line is one entry
        std::map<std::string, std::pair<int, int> > where;
        for (size_t t = 0; t < plans.size(); t++)
            for (size_t k = 0; k < plans[t].size(); k++) {
                auto& e = plans[t][k];
                where[e.text + "17x"] = { (int)t, (int)k };
                if (!e.sev)
                    where.erase(e.text + "17x");
            }
        static const char* names[] = { "[DEBUG][", "[INFO ][", "[WARN ][", "[ERROR][" };
        std::vector<int> last(plans.size(), -1), got(plans.size(), 0), first(plans.size(), -1), begun(plans.size(), -1);
        std::map<int, std::string> ids;
        std::string order;
        std::istringstream in(out);
        std::string line;
        c.check(out.empty() || out.back() == '\n', "cut-line", vh::quote(out.substr(out.size() > 200 ? out.size() - 200 : 0)));
        while (std::getline(in, line)) {
            size_t at = line.find("] #");
            c.check(at != line.npos, "not-an-entry", vh::quote(line));
            auto w = where.find(line.substr(at + 2));
            c.check(w != where.end(), "unknown-entry", vh::quote(line));
            int t = w->second.first, k = w->second.second;
            c.check(line.compare(0, 8, names[plans[t][k].sev]) == 0, "severity", vh::quote(line));
            c.check(last[t] < k, "order-or-twice", vh::quote(line));
            std::string id = line.substr(8, line.find(']', 8) - 8);
            c.check(ids.emplace(t, id).first->second == id, "thread-changed", vh::quote(line));
            c.check(line.find("log.cc:") != line.npos, "place", vh::quote(line));
            if (!got[t])
                begun[t] = k;
            last[t] = k;
            got[t]++;
            order += (char)('a' + t);
            c.saw("lines");
        }
        for (size_t t = 0; t < plans.size(); t++) {
            int want = 0;
            for (auto& e : plans[t])
                want += e.sev != 0;
            if (!unknown)
                c.eq(got[t], want, "lost-entries", "entries of a thread");
            else { // what is missing is what came before the log was open
                int kept = 0;
                for (int k = (int)plans[t].size(); k-- && kept < got[t];)
                    if (plans[t][k].sev) {
                        kept++;
                        first[t] = k;
                    }
                c.check(!got[t] || begun[t] == first[t], "lost-entries-after-enable", "entries are missing after the first one written");
            }
        }
        size_t switches = 0;
        for (size_t i = 1; i < order.size(); i++)
            switches += order[i] != order[i - 1];
        c.saw("thread_switches", switches);
        c.saw("cases_on");
        c.mark(order);
    }
}

int main(int argc, char** argv)
{
    for (int i = 1; i + 1 < argc; i += 2)
        if (std::string(argv[i]) == "--out") {
            std::string d = std::string(argv[i + 1]) + ".d";
            mkdir(d.c_str(), 0755);
            if (chdir(d.c_str()))
                return 3;
        }
    return vh::run(argc, argv, { { "threads", 1, threads } });
}
