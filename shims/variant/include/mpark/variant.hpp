// Stand-in for the absent submodule packages/variant (mpark/variant), in C++14: the subset of its interface which the
// repository's sources use.
#ifndef VERIF_SHIM_MPARK_VARIANT_HPP
#define VERIF_SHIM_MPARK_VARIANT_HPP

#include <cstddef>
#include <exception>
#include <new>
#include <type_traits>
#include <utility>

namespace mpark
{
    struct bad_variant_access : std::exception {
        const char* what() const noexcept override
        {
            return "bad_variant_access";
        }
    };

    struct monostate {
    };
    inline bool operator==(monostate, monostate)
    {
        return true;
    }
    inline bool operator!=(monostate, monostate)
    {
        return false;
    }
    inline bool operator<(monostate, monostate)
    {
        return false;
    }

    template <typename T>
    struct in_place_type_t {
        explicit in_place_type_t() = default;
    };

    template <std::size_t I>
    struct in_place_index_t {
        explicit in_place_index_t() = default;
    };

    constexpr std::size_t variant_npos = static_cast<std::size_t>(-1);

    namespace detail
    {
        template <std::size_t I, typename... Ts>
        struct nth;
        template <typename T, typename... Ts>
        struct nth<0, T, Ts...> {
            using type = T;
        };
        template <std::size_t I, typename T, typename... Ts>
        struct nth<I, T, Ts...> : nth<I - 1, Ts...> {
        };

        template <typename T, typename... Ts>
        struct index_of;
        template <typename T, typename... Ts>
        struct index_of<T, T, Ts...> : std::integral_constant<std::size_t, 0> {
        };
        template <typename T, typename U, typename... Ts>
        struct index_of<T, U, Ts...> : std::integral_constant<std::size_t, 1 + index_of<T, Ts...>::value> {
        };

        template <std::size_t... Vs>
        struct max_of;
        template <std::size_t V>
        struct max_of<V> : std::integral_constant<std::size_t, V> {
        };
        template <std::size_t V, std::size_t W, std::size_t... Vs>
        struct max_of<V, W, Vs...> : max_of<(V > W ? V : W), Vs...> {
        };

        // overload resolution of the converting constructor
        template <typename... Ts>
        struct overload;
        template <>
        struct overload<> {
            void operator()() const;
        };
        template <typename T, typename... Ts>
        struct overload<T, Ts...> : overload<Ts...> {
            using overload<Ts...>::operator();
            T operator()(T) const;
        };
        template <typename T, typename... Ts>
        using best_match = decltype(std::declval<overload<Ts...> >()(std::declval<T>()));
    }

    template <typename... Ts>
    class variant
    {
        typename std::aligned_storage<detail::max_of<sizeof(Ts)...>::value, detail::max_of<alignof(Ts)...>::value>::type
            storage_;
        std::size_t index_ = variant_npos;

        void* raw() noexcept
        {
            return &storage_;
        }
        const void* raw() const noexcept
        {
            return &storage_;
        }

        template <typename T>
        static void destroy_(void* p)
        {
            static_cast<T*>(p)->~T();
        }
        template <typename T>
        static void copy_(void* to, const void* from)
        {
            ::new (to) T(*static_cast<const T*>(from));
        }
        template <typename T>
        static void move_(void* to, void* from)
        {
            ::new (to) T(std::move(*static_cast<T*>(from)));
        }
        void reset() noexcept
        {
            using F = void (*)(void*);
            static const F table[] = { &destroy_<Ts>... };
            if (index_ != variant_npos)
                table[index_](raw());
            index_ = variant_npos;
        }
        void construct(const variant& rhs)
        {
            using F = void (*)(void*, const void*);
            static const F table[] = { &copy_<Ts>... };
            if (rhs.index_ != variant_npos)
                table[rhs.index_](raw(), rhs.raw());
            index_ = rhs.index_;
        }
        void construct(variant&& rhs)
        {
            using F = void (*)(void*, void*);
            static const F table[] = { &move_<Ts>... };
            if (rhs.index_ != variant_npos)
                table[rhs.index_](raw(), rhs.raw());
            index_ = rhs.index_;
        }

    public:
        variant()
        {
            using T = typename detail::nth<0, Ts...>::type;
            ::new (raw()) T();
            index_ = 0;
        }
        variant(const variant& rhs)
        {
            construct(rhs);
        }
        variant(variant&& rhs) noexcept
        {
            construct(std::move(rhs));
        }
        template <typename T,
            typename = typename std::enable_if<!std::is_same<typename std::decay<T>::type, variant>::value>::type,
            typename B = detail::best_match<T&&, Ts...> >
        variant(T&& t)
        {
            ::new (raw()) B(std::forward<T>(t));
            index_ = detail::index_of<B, Ts...>::value;
        }
        template <typename T, typename... Args>
        explicit variant(in_place_type_t<T>, Args&&... args)
        {
            ::new (raw()) T(std::forward<Args>(args)...);
            index_ = detail::index_of<T, Ts...>::value;
        }
        ~variant()
        {
            reset();
        }
        variant& operator=(const variant& rhs)
        {
            if (this != &rhs) {
                variant copy(rhs);
                reset();
                construct(std::move(copy));
            }
            return *this;
        }
        variant& operator=(variant&& rhs) noexcept
        {
            if (this != &rhs) {
                variant held(std::move(rhs)); // rhs may live inside *this
                reset();
                construct(std::move(held));
            }
            return *this;
        }
        template <typename T,
            typename = typename std::enable_if<!std::is_same<typename std::decay<T>::type, variant>::value>::type,
            typename B = detail::best_match<T&&, Ts...> >
        variant& operator=(T&& t)
        {
            variant copy(std::forward<T>(t));
            reset();
            construct(std::move(copy));
            return *this;
        }
        template <typename T, typename... Args>
        T& emplace(Args&&... args)
        {
            reset();
            ::new (raw()) T(std::forward<Args>(args)...);
            index_ = detail::index_of<T, Ts...>::value;
            return *static_cast<T*>(raw());
        }
        std::size_t index() const noexcept
        {
            return index_;
        }
        bool valueless_by_exception() const noexcept
        {
            return index_ == variant_npos;
        }
        void* verif_raw() noexcept
        {
            return raw();
        }
        const void* verif_raw() const noexcept
        {
            return raw();
        }
        void swap(variant& rhs)
        {
            std::swap(*this, rhs);
        }
    };

    template <typename T, typename... Ts>
    bool holds_alternative(const variant<Ts...>& v) noexcept
    {
        return v.index() == detail::index_of<T, Ts...>::value;
    }
    template <typename T, typename... Ts>
    T* get_if(variant<Ts...>* v) noexcept
    {
        return v && holds_alternative<T>(*v) ? static_cast<T*>(v->verif_raw()) : nullptr;
    }
    template <typename T, typename... Ts>
    const T* get_if(const variant<Ts...>* v) noexcept
    {
        return v && holds_alternative<T>(*v) ? static_cast<const T*>(v->verif_raw()) : nullptr;
    }
    template <typename T, typename... Ts>
    T& get(variant<Ts...>& v)
    {
        if (!holds_alternative<T>(v))
            throw bad_variant_access();
        return *static_cast<T*>(v.verif_raw());
    }
    template <typename T, typename... Ts>
    const T& get(const variant<Ts...>& v)
    {
        if (!holds_alternative<T>(v))
            throw bad_variant_access();
        return *static_cast<const T*>(v.verif_raw());
    }
    template <typename T, typename... Ts>
    T&& get(variant<Ts...>&& v)
    {
        return std::move(get<T>(v));
    }

    namespace detail
    {
        template <typename R, typename F, typename T>
        R call_(F& f, void* p)
        {
            return f(*static_cast<T*>(p));
        }
        template <typename R, typename F, typename T>
        R call_const_(F& f, const void* p)
        {
            return f(*static_cast<const T*>(p));
        }
    }

    template <typename F, typename T0, typename... Ts>
    auto visit(F&& f, variant<T0, Ts...>& v) -> decltype(f(std::declval<T0&>()))
    {
        using R = decltype(f(std::declval<T0&>()));
        using G = typename std::remove_reference<F>::type;
        using P = R (*)(G&, void*);
        static const P table[] = { &detail::call_<R, G, T0>, &detail::call_<R, G, Ts>... };
        if (v.index() == variant_npos)
            throw bad_variant_access();
        return table[v.index()](f, v.verif_raw());
    }
    template <typename F, typename T0, typename... Ts>
    auto visit(F&& f, const variant<T0, Ts...>& v) -> decltype(f(std::declval<const T0&>()))
    {
        using R = decltype(f(std::declval<const T0&>()));
        using G = typename std::remove_reference<F>::type;
        using P = R (*)(G&, const void*);
        static const P table[] = { &detail::call_const_<R, G, T0>, &detail::call_const_<R, G, Ts>... };
        if (v.index() == variant_npos)
            throw bad_variant_access();
        return table[v.index()](f, v.verif_raw());
    }

    namespace detail
    {
        template <typename V>
        struct equal_to_ {
            const V& rhs;
            template <typename T>
            bool operator()(const T& lhs) const
            {
                return lhs == get<T>(rhs);
            }
        };
    }
    template <typename... Ts>
    bool operator==(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
    {
        return lhs.index() == rhs.index() && visit(detail::equal_to_<variant<Ts...> >{ rhs }, lhs);
    }
    template <typename... Ts>
    bool operator!=(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
    {
        return !(lhs == rhs);
    }
}

#endif
