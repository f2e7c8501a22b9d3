// Stand-in for the absent ext/cmdline submodule (tanakh cmdline, BSD).  Written
// for this verification harness: it offers the part of the public interface
// that drafter's config.cc uses, with the documented behaviour (long and short
// options, "--name=value", "--name value", "-x value", bundled flags, "--" is
// not special, unknown option / missing value / bad value are errors that print
// the usage and exit 1; --help prints the usage and exits 0).
#ifndef VERIF_SHIM_CMDLINE_H
#define VERIF_SHIM_CMDLINE_H
#include <cstdlib>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace cmdline
{
    struct cmdline_error : std::runtime_error {
        using std::runtime_error::runtime_error;
    };

    template <typename T>
    struct default_reader {
        bool operator()(const std::string&) const
        {
            return true;
        }
    };

    template <typename T>
    struct oneof_reader {
        std::vector<std::string> alternatives;
        bool operator()(const std::string& s) const
        {
            for (const auto& a : alternatives)
                if (a == s)
                    return true;
            return false;
        }
    };

    template <typename T, typename... A>
    oneof_reader<T> oneof(A... a)
    {
        return oneof_reader<T>{ { a... } };
    }

    class parser
    {
        struct option {
            std::string name;
            char short_name = 0;
            std::string desc;
            bool has_value = false;
            bool need = false;
            bool has = false;
            std::string value;
            std::vector<std::string> allowed;
        };
        std::vector<option> options_;
        std::vector<std::string> rest_;
        std::vector<std::string> errors_;
        std::string prog_, footer_;

        option* find(const std::string& n)
        {
            for (auto& o : options_)
                if (o.name == n)
                    return &o;
            return nullptr;
        }
        const option* find(const std::string& n) const
        {
            return const_cast<parser*>(this)->find(n);
        }
        option* find(char c)
        {
            for (auto& o : options_)
                if (c && o.short_name == c)
                    return &o;
            return nullptr;
        }
        void set(option& o, const std::string& v)
        {
            if (!o.allowed.empty()) {
                bool ok = false;
                for (const auto& a : o.allowed)
                    ok = ok || a == v;
                if (!ok) {
                    errors_.push_back("option value is invalid: --" + o.name + "=" + v);
                    return;
                }
            }
            o.has = true;
            o.value = v;
        }

    public:
        void set_program_name(const std::string& n)
        {
            prog_ = n;
        }
        void footer(const std::string& f)
        {
            footer_ = f;
        }
        void add(const std::string& name, char s = 0, const std::string& desc = "")
        {
            option o;
            o.name = name;
            o.short_name = s;
            o.desc = desc;
            options_.push_back(o);
        }
        template <typename T>
        void add(const std::string& name, char s = 0, const std::string& desc = "", bool need = true,
            const T def = T())
        {
            option o;
            o.name = name;
            o.short_name = s;
            o.desc = desc;
            o.has_value = true;
            o.need = need;
            o.value = def;
            options_.push_back(o);
        }
        template <typename T>
        void add(const std::string& name, char s, const std::string& desc, bool need, const T def,
            oneof_reader<T> reader)
        {
            add<T>(name, s, desc, need, def);
            options_.back().allowed = reader.alternatives;
        }
        bool exist(const std::string& n) const
        {
            const option* o = find(n);
            if (!o)
                throw cmdline_error("there is no flag: --" + n);
            return o->has;
        }
        template <typename T>
        const T& get(const std::string& n) const
        {
            const option* o = find(n);
            if (!o)
                throw cmdline_error("there is no flag: --" + n);
            return o->value;
        }
        const std::vector<std::string>& rest() const
        {
            return rest_;
        }
        std::string usage() const
        {
            std::ostringstream oss;
            oss << "usage: " << prog_ << " [options] ... " << footer_ << "\noptions:\n";
            for (const auto& o : options_)
                oss << "  " << (o.short_name ? std::string("-") + o.short_name + ", " : std::string("    ")) << "--"
                    << o.name << "    " << o.desc << "\n";
            return oss.str();
        }
        bool parse(int argc, const char* const argv[])
        {
            errors_.clear();
            rest_.clear();
            for (int i = 1; i < argc; i++) {
                std::string a = argv[i];
                if (a.compare(0, 2, "--") == 0) {
                    auto eq = a.find('=');
                    std::string name = a.substr(2, eq == std::string::npos ? std::string::npos : eq - 2);
                    option* o = find(name);
                    if (!o) {
                        errors_.push_back("undefined option: --" + name);
                    } else if (eq != std::string::npos) {
                        set(*o, a.substr(eq + 1));
                    } else if (o->has_value) {
                        if (i + 1 >= argc)
                            errors_.push_back("option needs value: --" + name);
                        else
                            set(*o, argv[++i]);
                    } else
                        o->has = true;
                } else if (a.size() > 1 && a[0] == '-') {
                    for (size_t k = 1; k < a.size(); k++) {
                        option* o = find(a[k]);
                        if (!o) {
                            errors_.push_back(std::string("undefined short option: -") + a[k]);
                        } else if (o->has_value) {
                            if (k + 1 < a.size()) {
                                errors_.push_back("option needs value: --" + o->name);
                            } else if (i + 1 >= argc)
                                errors_.push_back("option needs value: --" + o->name);
                            else {
                                set(*o, argv[++i]);
                                break;
                            }
                        } else
                            o->has = true;
                    }
                } else
                    rest_.push_back(a);
            }
            for (auto& o : options_)
                if (o.has_value && o.need && !o.has)
                    errors_.push_back("need option: --" + o.name);
            return errors_.empty();
        }
        void parse_check(int argc, const char* const argv[])
        {
            bool ok = parse(argc, argv);
            if (find(std::string("help")) && exist("help")) {
                std::cerr << usage();
                exit(0);
            }
            if (!ok) {
                std::cerr << errors_.front() << std::endl << usage();
                exit(1);
            }
        }
    };
}
#endif
