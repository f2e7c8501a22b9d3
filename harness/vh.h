// Small runtime for the C++ monitors: deterministic cases by (seed, index),
// counters of what was observed, failure records, and a note of the case in
// flight so that a sanitizer report can be tied to its input.
#ifndef VH_H
#define VH_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#include <typeinfo>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace vh
{
    struct Rng {
        uint64_t s;
        explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull)
        {
            next();
            next();
        }
        uint64_t next()
        {
            uint64_t z = (s += 0x9E3779B97F4A7C15ull);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
        uint64_t below(uint64_t n)
        {
            return n ? next() % n : 0;
        }
        int range(int lo, int hi)
        {
            return lo + (int)below((uint64_t)(hi - lo + 1));
        }
        bool chance(int percent)
        {
            return (int)below(100) < percent;
        }
        template <typename C>
        const typename C::value_type& pick(const C& c)
        {
            return c[below(c.size())];
        }
        template <typename T, size_t N>
        const T& pick(const T (&c)[N])
        {
            return c[below(N)];
        }
    };

    inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull)
    {
        for (unsigned char c : s) {
            h ^= c;
            h *= 1099511628211ull;
        }
        return h;
    }

    inline std::string quote(const std::string& s)
    {
        std::string o = "\"";
        char b[8];
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') {
                o += '\\';
                o += c;
            } else if (c == '\n')
                o += "\\n";
            else if (c < 0x20 || c >= 0x7f) {
                snprintf(b, sizeof b, "\\u%04x", c);
                o += b;
            } else
                o += c;
        }
        return o + "\"";
    }

    struct Failure : std::exception {
        std::string key, msg;
        Failure(std::string k, std::string m) : key(std::move(k)), msg(std::move(m)) {}
        const char* what() const noexcept override
        {
            return msg.c_str();
        }
    };

    struct State {
        std::map<std::string, uint64_t> counters;
        std::unordered_set<uint64_t> distinct;
        std::vector<std::string> samples;
        std::string desc;
        std::string section;
        uint64_t index = 0;
        int descfd = -1;
        volatile uint64_t* cur = nullptr;
    };
    inline State& st()
    {
        static State* s = new State;
        return *s;
    }

    struct Case {
        uint64_t index;
        Rng rng;
        Case(uint64_t seed, uint64_t i) : index(i), rng(seed * 1000003ull + i * 7919ull + 17) {}

        // describe the case; kept for the failure record and for samples
        template <typename T>
        Case& operator<<(const T& t)
        {
            std::ostringstream o;
            o << t;
            if (st().desc.size() < 20000)
                st().desc += o.str();
            return *this;
        }
        void saw(const char* what, uint64_t n = 1)
        {
            st().counters[what] += n;
        }
        // declare the case non-trivial, with what identifies it
        void mark(const std::string& id)
        {
            st().distinct.insert(fnv(st().section + "|" + id));
        }
        void fail(const std::string& key, const std::string& msg)
        {
            throw Failure(key, msg);
        }
        void check(bool ok, const char* key, const std::string& msg)
        {
            st().counters["assertions"]++;
            if (!ok)
                throw Failure(key, msg);
        }
        template <typename A, typename B>
        void eq(const A& got, const B& want, const char* key, const std::string& what = "")
        {
            st().counters["assertions"]++;
            if (!(got == want)) {
                std::ostringstream o;
                o << what << ": got " << got << ", expected " << want;
                throw Failure(key, o.str());
            }
        }
    };

    struct Section {
        const char* name;
        int weight;
        void (*fn)(Case&);
    };

    inline void death()
    {
        State& s = st();
        if (s.descfd >= 0) {
            std::string t = s.section + "\n" + s.desc;
            ssize_t r = pwrite(s.descfd, t.data(), t.size(), 0);
            (void)r;
        }
    }

    inline int run(int argc, char** argv, const std::vector<Section>& sections)
    {
        std::map<std::string, std::string> a;
        for (int i = 1; i + 1 < argc; i += 2)
            a[argv[i]] = argv[i + 1];
        uint64_t seed = strtoull(a["--seed"].c_str(), 0, 10), from = strtoull(a["--from"].c_str(), 0, 10),
                 to = strtoull(a["--to"].c_str(), 0, 10);
        std::string out = a["--out"];
        State& s = st();
        {
            int fd = open((out + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
            if (ftruncate(fd, 64))
                return 3;
            s.cur = (volatile uint64_t*)mmap(0, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            s.descfd = open((out + ".desc").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        }
        if (__sanitizer_set_death_callback)
            __sanitizer_set_death_callback(death);
        FILE* f = fopen((out + ".jsonl").c_str(), "a");
        int total = 0;
        for (auto& x : sections)
            total += x.weight;
        uint64_t evals = 0;
        std::map<std::string, int> fails; // per key, so that one kind cannot crowd out another
        for (uint64_t i = from; i < to; i++) {
            int w = (int)(i % total);
            const Section* sec = &sections[0];
            for (auto& x : sections) {
                if (w < x.weight) {
                    sec = &x;
                    break;
                }
                w -= x.weight;
            }
            if (!a["--section"].empty() && a["--section"] != sec->name)
                continue;
            s.cur[0] = i + 1;
            s.desc.clear();
            s.section = sec->name;
            s.index = i;
            Case c(seed, i);
            evals++;
            s.counters[std::string("cases:") + sec->name]++;
            bool failed = false;
            std::string key, msg;
            try {
                sec->fn(c);
            } catch (const Failure& e) {
                failed = true;
                key = e.key;
                msg = e.msg;
            } catch (const std::exception& e) {
                failed = true;
                key = std::string(sec->name) + ":exception";
                msg = std::string("exception ") + typeid(e).name() + ": " + e.what();
            }
            if (failed && fails[key]++ < 12) {
                fprintf(f, "{\"fail\":{\"case\":%llu,\"section\":%s,\"key\":%s,\"msg\":%s,\"desc\":%s}}\n",
                    (unsigned long long)i, quote(sec->name).c_str(), quote(key).c_str(), quote(msg).c_str(),
                    quote(s.desc).c_str());
                fflush(f);
            }
            if (s.samples.size() < 3 && !s.desc.empty() && s.desc.size() < 1500 && (i - from) % 37 == 5)
                s.samples.push_back(std::string(sec->name) + ": " + s.desc);
        }
        s.cur[0] = 0;
        std::string line = "{\"done\":{\"evaluations\":" + std::to_string(evals) + ",\"counters\":{";
        bool first = true;
        for (auto& kv : s.counters) {
            line += (first ? "" : ",") + quote(kv.first) + ":" + std::to_string(kv.second);
            first = false;
        }
        line += "},\"samples\":[";
        first = true;
        for (auto& x : s.samples) {
            line += (first ? "" : ",") + quote(x);
            first = false;
        }
        line += "]}}\n";
        fputs(line.c_str(), f);
        fclose(f);
        FILE* h = fopen((out + ".hash").c_str(), "ab");
        for (uint64_t x : s.distinct)
            fwrite(&x, 8, 1, h);
        fclose(h);
        return 0;
    }
}
#endif
