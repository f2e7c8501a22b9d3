// Stand-in for the absent submodule packages/PEGTL (taocpp/PEGTL 2.8): the subset of its rules, actions and inputs
// which packages/apib-parser uses, with the semantics documented for version 2.8.  Compiles as C++14 with gcc (if constexpr and fold expressions are accepted there).
#ifndef VERIF_SHIM_TAO_PEGTL_HPP
#define VERIF_SHIM_TAO_PEGTL_HPP

#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cxxabi.h>
#include <initializer_list>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>
#include <map>

namespace tao
{
    namespace pegtl
    {
        enum class apply_mode : bool
        {
            action = true,
            nothing = false
        };

        enum class rewind_mode : char
        {
            active,
            required,
            dontcare
        };

        struct position {
            std::size_t byte = 0;
            std::size_t line = 1;
            std::size_t byte_in_line = 0;
            std::string source;
        };

        inline std::string to_string(const position& p)
        {
            return p.source + ':' + std::to_string(p.line) + ':' + std::to_string(p.byte_in_line) + '('
                + std::to_string(p.byte) + ')';
        }

        struct parse_error : std::runtime_error {
            std::vector<position> positions;
            parse_error(const std::string& msg, position p)
                : std::runtime_error(to_string(p) + ": " + msg), positions{ std::move(p) }
            {
            }
        };

        // What an action sees: the matched part of the input.
        class action_input
        {
            const char* b_;
            const char* e_;
            position p_;

        public:
            action_input(const char* b, const char* e, position p) : b_(b), e_(e), p_(std::move(p)) {}
            const char* begin() const
            {
                return b_;
            }
            const char* end() const
            {
                return e_;
            }
            std::size_t size() const
            {
                return static_cast<std::size_t>(e_ - b_);
            }
            bool empty() const
            {
                return b_ == e_;
            }
            std::string string() const
            {
                return std::string(b_, e_);
            }
            pegtl::position position() const
            {
                return p_;
            }
        };

        enum class tracking_mode : bool
        {
            eager,
            lazy
        };

        template <tracking_mode M = tracking_mode::eager>
        class memory_input
        {
            std::string data_;
            std::string source_;
            std::size_t pos_ = 0;

        public:
            template <typename S>
            memory_input(const std::string& data, S&& source) : data_(data), source_(std::forward<S>(source))
            {
            }
            template <typename S>
            memory_input(const char* data, S&& source) : data_(data), source_(std::forward<S>(source))
            {
            }
            template <typename S>
            memory_input(const char* data, std::size_t n, S&& source) : data_(data, n), source_(std::forward<S>(source))
            {
            }
            memory_input(const memory_input&) = delete;
            memory_input& operator=(const memory_input&) = delete;

            const char* current() const
            {
                return data_.data() + pos_;
            }
            std::size_t size(std::size_t = 0) const
            {
                return data_.size() - pos_;
            }
            bool empty() const
            {
                return pos_ == data_.size();
            }
            unsigned char peek(std::size_t i = 0) const
            {
                return static_cast<unsigned char>(data_[pos_ + i]);
            }
            void bump(std::size_t n)
            {
                pos_ += n;
            }
            std::size_t offset() const
            {
                return pos_;
            }
            void reset(std::size_t p)
            {
                pos_ = p;
            }
            const char* at(std::size_t p) const
            {
                return data_.data() + p;
            }
            pegtl::position position_at(std::size_t p) const
            {
                pegtl::position r;
                r.byte = p;
                r.source = source_;
                for (std::size_t i = 0; i < p; ++i) {
                    if (data_[i] == '\n') {
                        ++r.line;
                        r.byte_in_line = 0;
                    } else {
                        ++r.byte_in_line;
                    }
                }
                return r;
            }
            pegtl::position position() const
            {
                return position_at(pos_);
            }
        };

        template <typename Rule>
        struct nothing {
        };

        struct maybe_nothing {
        };

        template <typename Rule>
        struct normal;

        namespace internal
        {
            template <typename...>
            struct make_void {
                using type = void;
            };
            template <typename... T>
            using void_t = typename make_void<T...>::type;

            template <typename F, typename T, std::size_t... I>
            bool apply_tuple(F&& f, T& t, std::index_sequence<I...>)
            {
                return f(std::get<I>(t)...);
            }

            template <typename T>
            std::string demangle()
            {
                int status = 0;
                std::unique_ptr<char, void (*)(void*)> p(
                    abi::__cxa_demangle(typeid(T).name(), nullptr, nullptr, &status), std::free);
                return status == 0 ? std::string(p.get()) : std::string(typeid(T).name());
            }

            template <typename, typename Rule, template <typename...> class Action, template <typename...> class Control,
                typename In, typename... S>
            struct has_match : std::false_type {
            };
            template <typename Rule, template <typename...> class Action, template <typename...> class Control,
                typename In, typename... S>
            struct has_match<void_t<decltype(
                                 Action<Rule>::template match<Rule, apply_mode::action, rewind_mode::required, Action,
                                     Control>(std::declval<In&>(), std::declval<S&>()...))>,
                Rule, Action, Control, In, S...> : std::true_type {
            };

            template <typename, typename A, typename... S>
            struct has_apply : std::false_type {
            };
            template <typename A, typename... S>
            struct has_apply<void_t<decltype(
                                 A::apply(std::declval<const action_input&>(), std::declval<S&>()...))>,
                A, S...> : std::true_type {
            };

            template <typename, typename A, typename... S>
            struct has_apply0 : std::false_type {
            };
            template <typename A, typename... S>
            struct has_apply0<void_t<decltype(A::apply0(std::declval<S&>()...))>, A, S...> : std::true_type {
            };
        }

        // The raw match: the rule itself, then its apply or apply0 when it has one for these states.
        template <typename Rule, apply_mode A, rewind_mode M, template <typename...> class Action,
            template <typename...> class Control, typename In, typename... S>
        bool match(In& in, S&&... st)
        {
            const std::size_t start = in.offset();
            bool ok = Rule::template match<A, M, Action, Control>(in, st...);
            if (!ok) {
                in.reset(start);
                return false;
            }
            if constexpr (A == apply_mode::action) {
                using Act = Action<Rule>;
                if constexpr (internal::has_apply<void, Act, S...>::value) {
                    action_input ai(in.at(start), in.at(in.offset()), in.position_at(start));
                    using R = decltype(Act::apply(ai, st...));
                    if constexpr (std::is_same<R, bool>::value) {
                        if (!Act::apply(ai, st...)) {
                            in.reset(start);
                            return false;
                        }
                    } else {
                        Act::apply(ai, st...);
                    }
                } else if constexpr (internal::has_apply0<void, Act, S...>::value) {
                    using R = decltype(Act::apply0(st...));
                    if constexpr (std::is_same<R, bool>::value) {
                        if (!Act::apply0(st...)) {
                            in.reset(start);
                            return false;
                        }
                    } else {
                        Act::apply0(st...);
                    }
                }
            }
            return true;
        }

        template <typename Rule>
        struct normal {
            template <apply_mode A, rewind_mode M, template <typename...> class Action,
                template <typename...> class Control, typename In, typename... S>
            static bool match(In& in, S&&... st)
            {
                if constexpr (internal::has_match<void, Rule, Action, Control, In, S...>::value)
                    return Action<Rule>::template match<Rule, A, M, Action, Control>(in, st...);
                else
                    return pegtl::match<Rule, A, M, Action, Control>(in, st...);
            }

            template <typename In, typename... S>
            [[noreturn]] static void raise(const In& in, S&&...)
            {
                throw parse_error("parse error matching " + internal::demangle<Rule>(), in.position());
            }
        };

        template <typename Rule, template <typename...> class Action = nothing,
            template <typename...> class Control = normal, typename In, typename... S>
        bool parse(In& in, S&&... st)
        {
            return Control<Rule>::template match<apply_mode::action, rewind_mode::required, Action, Control>(in, st...);
        }

        template <typename NewState>
        struct change_state : maybe_nothing {
            template <typename Rule, apply_mode A, rewind_mode M, template <typename...> class Action,
                template <typename...> class Control, typename In, typename... S>
            static bool match(In& in, S&&... st)
            {
                NewState s(static_cast<const In&>(in), st...);
                if (pegtl::match<Rule, A, M, Action, Control>(in, s)) {
                    s.success(static_cast<const In&>(in), st...);
                    return true;
                }
                return false;
            }
        };

        template <typename... NewStates>
        struct change_states : maybe_nothing {
            template <typename Rule, apply_mode A, rewind_mode M, template <typename...> class Action,
                template <typename...> class Control, typename In, typename... S>
            static bool match(In& in, S&&... st)
            {
                std::tuple<NewStates...> t;
                return internal::apply_tuple(
                    [&](auto&... ns) {
                        if (pegtl::match<Rule, A, M, Action, Control>(in, ns...)) {
                            Action<Rule>::success(static_cast<const In&>(in), ns..., st...);
                            return true;
                        }
                        return false;
                    },
                    t,
                    std::index_sequence_for<NewStates...>());
            }
        };

#define VERIF_PEGTL_MATCH                                                                                              \
    template <apply_mode A, rewind_mode M, template <typename...> class Action, template <typename...> class Control,  \
        typename In, typename... S>                                                                                    \
    static bool match(In& in, S&&... st)

#define VERIF_PEGTL_SUB(R, MODE) Control<R>::template match<MODE, rewind_mode::required, Action, Control>(in, st...)

        template <typename... R>
        struct seq {
            VERIF_PEGTL_MATCH
            {
                const std::size_t start = in.offset();
                const bool ok = (VERIF_PEGTL_SUB(R, A) && ...);
                (void)start;
                if (!ok)
                    in.reset(start);
                return ok;
            }
        };

        template <>
        struct seq<> {
            template <apply_mode A, rewind_mode M, template <typename...> class Action,
                template <typename...> class Control, typename In, typename... S>
            static bool match(In&, S&&...)
            {
                return true;
            }
        };

        struct success : seq<> {
        };

        template <typename... R>
        struct sor {
            VERIF_PEGTL_MATCH
            {
                return (VERIF_PEGTL_SUB(R, A) || ...);
            }
        };

        template <typename... R>
        struct opt {
            VERIF_PEGTL_MATCH
            {
                (void)(VERIF_PEGTL_SUB(seq<R...>, A));
                return true;
            }
        };

        template <typename... R>
        struct star {
            VERIF_PEGTL_MATCH
            {
                while (VERIF_PEGTL_SUB(seq<R...>, A)) {
                }
                return true;
            }
        };

        template <typename... R>
        struct plus {
            VERIF_PEGTL_MATCH
            {
                if (!(VERIF_PEGTL_SUB(seq<R...>, A)))
                    return false;
                while (VERIF_PEGTL_SUB(seq<R...>, A)) {
                }
                return true;
            }
        };

        template <typename... R>
        struct at {
            VERIF_PEGTL_MATCH
            {
                const std::size_t start = in.offset();
                const bool ok = VERIF_PEGTL_SUB(seq<R...>, apply_mode::nothing);
                in.reset(start);
                return ok;
            }
        };

        template <typename... R>
        struct not_at {
            VERIF_PEGTL_MATCH
            {
                const std::size_t start = in.offset();
                const bool ok = VERIF_PEGTL_SUB(seq<R...>, apply_mode::nothing);
                in.reset(start);
                return !ok;
            }
        };

        template <unsigned Min, unsigned Max, typename... R>
        struct rep_min_max {
            VERIF_PEGTL_MATCH
            {
                for (unsigned i = 0; i != Min; ++i)
                    if (!(VERIF_PEGTL_SUB(seq<R...>, A)))
                        return false;
                for (unsigned i = Min; i != Max; ++i)
                    if (!(VERIF_PEGTL_SUB(seq<R...>, A)))
                        return true;
                return VERIF_PEGTL_SUB(not_at<R...>, A);
            }
        };

        template <unsigned Max, typename... R>
        struct rep_max : rep_min_max<0, Max, R...> {
        };

        namespace internal
        {
            template <typename R>
            struct must1 {
                VERIF_PEGTL_MATCH
                {
                    if (!(VERIF_PEGTL_SUB(R, A)))
                        Control<R>::raise(static_cast<const In&>(in), st...);
                    return true;
                }
            };
        }

        template <typename... R>
        struct must : seq<internal::must1<R>...> {
        };

        template <typename Cond, typename... R>
        struct if_must : seq<Cond, must<R...>> {
        };

        template <typename... R>
        struct try_catch {
            VERIF_PEGTL_MATCH
            {
                const std::size_t start = in.offset();
                try {
                    return VERIF_PEGTL_SUB(seq<R...>, A);
                } catch (const parse_error&) {
                    in.reset(start);
                    return false;
                }
            }
        };

        template <typename R, typename Sep>
        struct list : seq<R, star<Sep, R>> {
        };

        namespace ascii
        {
            struct any {
                VERIF_PEGTL_MATCH
                {
                    if (in.empty())
                        return false;
                    in.bump(1);
                    return true;
                }
            };

            namespace impl
            {
                template <typename Derived>
                struct peek {
                    VERIF_PEGTL_MATCH
                    {
                        if (in.empty() || !Derived::test(static_cast<char>(in.peek())))
                            return false;
                        in.bump(1);
                        return true;
                    }
                };
            }

            template <char... C>
            struct one : impl::peek<one<C...>> {
                static bool test(char c)
                {
                    return ((c == C) || ...);
                }
            };

            template <char... C>
            struct not_one : impl::peek<not_one<C...>> {
                static bool test(char c)
                {
                    return !((c == C) || ...);
                }
            };

            template <char Lo, char Hi>
            struct range : impl::peek<range<Lo, Hi>> {
                static bool test(char c)
                {
                    return Lo <= c && c <= Hi;
                }
            };

            template <char Lo, char Hi>
            struct not_range : impl::peek<not_range<Lo, Hi>> {
                static bool test(char c)
                {
                    return c < Lo || Hi < c;
                }
            };

            template <char... C>
            struct ranges : impl::peek<ranges<C...>> {
                static bool test(char c)
                {
                    constexpr char cs[] = { C... };
                    std::size_t i = 0;
                    for (; i + 1 < sizeof...(C); i += 2)
                        if (cs[i] <= c && c <= cs[i + 1])
                            return true;
                    return i < sizeof...(C) && cs[i] == c;
                }
            };

            struct digit : range<'0', '9'> {
            };
            struct alpha : ranges<'a', 'z', 'A', 'Z'> {
            };
            struct alnum : ranges<'a', 'z', 'A', 'Z', '0', '9'> {
            };

            struct eol {
                VERIF_PEGTL_MATCH
                {
                    if (in.size() >= 1 && in.peek() == '\n') {
                        in.bump(1);
                        return true;
                    }
                    if (in.size() >= 2 && in.peek() == '\r' && in.peek(1) == '\n') {
                        in.bump(2);
                        return true;
                    }
                    return false;
                }
            };
        }

        struct eof {
            VERIF_PEGTL_MATCH
            {
                return in.empty();
            }
        };

        using ascii::alnum;
        using ascii::alpha;
        using ascii::any;
        using ascii::digit;
        using ascii::eol;
        using ascii::not_one;
        using ascii::not_range;
        using ascii::one;
        using ascii::range;
        using ascii::ranges;

        struct eolf : sor<eof, eol> {
        };

        namespace ascii
        {
            using pegtl::eolf;
        }

        namespace utf8
        {
            namespace impl
            {
                // The code point at the start of the input and its length, length 0 when there is none.
                template <typename In>
                std::pair<char32_t, std::size_t> peek(const In& in)
                {
                    const std::pair<char32_t, std::size_t> bad{ 0, 0 };
                    const std::size_t n = in.size();
                    if (n == 0)
                        return bad;
                    const char32_t c0 = in.peek(0);
                    if ((c0 & 0x80) == 0)
                        return { c0, 1 };
                    if ((c0 & 0xE0) == 0xC0) {
                        if (n >= 2 && (in.peek(1) & 0xC0) == 0x80) {
                            const char32_t c = ((c0 & 0x1F) << 6) | (in.peek(1) & 0x3F);
                            if (c >= 0x80)
                                return { c, 2 };
                        }
                    } else if ((c0 & 0xF0) == 0xE0) {
                        if (n >= 3 && (in.peek(1) & 0xC0) == 0x80 && (in.peek(2) & 0xC0) == 0x80) {
                            const char32_t c
                                = ((c0 & 0x0F) << 12) | ((in.peek(1) & 0x3F) << 6) | (in.peek(2) & 0x3F);
                            if (c >= 0x800 && !(c >= 0xD800 && c <= 0xDFFF))
                                return { c, 3 };
                        }
                    } else if ((c0 & 0xF8) == 0xF0) {
                        if (n >= 4 && (in.peek(1) & 0xC0) == 0x80 && (in.peek(2) & 0xC0) == 0x80
                            && (in.peek(3) & 0xC0) == 0x80) {
                            const char32_t c = ((c0 & 0x07) << 18) | ((in.peek(1) & 0x3F) << 12)
                                | ((in.peek(2) & 0x3F) << 6) | (in.peek(3) & 0x3F);
                            if (c >= 0x10000 && c <= 0x10FFFF)
                                return { c, 4 };
                        }
                    }
                    return bad;
                }
            }

            struct any {
                VERIF_PEGTL_MATCH
                {
                    const auto p = impl::peek(in);
                    if (!p.second)
                        return false;
                    in.bump(p.second);
                    return true;
                }
            };

            template <char32_t... C>
            struct ranges {
                VERIF_PEGTL_MATCH
                {
                    const auto p = impl::peek(in);
                    if (!p.second)
                        return false;
                    constexpr char32_t cs[] = { C... };
                    std::size_t i = 0;
                    bool ok = false;
                    for (; i + 1 < sizeof...(C); i += 2)
                        ok = ok || (cs[i] <= p.first && p.first <= cs[i + 1]);
                    ok = ok || (i < sizeof...(C) && cs[i] == p.first);
                    if (ok)
                        in.bump(p.second);
                    return ok;
                }
            };
        }

#undef VERIF_PEGTL_SUB
#undef VERIF_PEGTL_MATCH
    }
}

#endif
