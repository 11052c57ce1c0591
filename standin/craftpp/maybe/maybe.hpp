// Stand-in for craftpp; see types/unit.hpp
#pragma once

#include <cstdlib>
#include <functional>
#include <optional>
#include <type_traits>
#include <utility>

#include <craftpp/types/unit.hpp>
#include <craftpp/error/error.hpp>

namespace craftpp::result { template<typename T> class Result; }

namespace craftpp::maybe {

struct None {
    constexpr bool operator==(const None&) const noexcept = default;
};

constexpr None none() noexcept { return None{}; }

template<typename T> class Maybe;

namespace details {
template<typename F, typename A>
decltype(auto) call(F&& f, A&& a) {
    if constexpr (std::is_invocable_v<F, A&&>) {
        return std::invoke(std::forward<F>(f), std::forward<A>(a));
    } else {
        return std::invoke(std::forward<F>(f), a);
    }
}
template<typename F, typename A>
using call_result_t = decltype(call(std::declval<F>(), std::declval<A>()));
}

template<typename T> struct is_maybe : std::false_type {};
template<typename T> struct is_maybe<Maybe<T>> : std::true_type {};
template<typename T> inline constexpr bool is_maybe_v = is_maybe<std::decay_t<T>>::value;

template<typename T>
class Maybe {
public:
    using Value = T;

    Maybe() noexcept {}
    Maybe(None) noexcept {}
    Maybe(std::nullopt_t) noexcept {}
    Maybe(const T& v) : m_v(v) {}
    Maybe(T&& v) : m_v(std::move(v)) {}
    template<typename U,
             typename = std::enable_if_t<
                 !std::is_same_v<std::decay_t<U>, T>
                 && !is_maybe_v<U>
                 && !std::is_same_v<std::decay_t<U>, None>
                 && !std::is_same_v<std::decay_t<U>, std::nullopt_t>
                 && std::is_convertible_v<U&&, T>>>
    Maybe(U&& u) : m_v(T(std::forward<U>(u))) {}
    template<typename U,
             typename = std::enable_if_t<
                 !std::is_same_v<U, T>
                 && std::is_convertible_v<const U&, T>>>
    Maybe(const Maybe<U>& o) { if (o.is_some()) m_v.emplace(o.unwrap()); }

    Maybe(const Maybe&) = default;
    Maybe(Maybe&&) = default;
    Maybe& operator=(const Maybe&) = default;
    Maybe& operator=(Maybe&&) = default;

    static Maybe none() noexcept { return Maybe(); }
    static Maybe move_from(T&& v) { return Maybe(std::move(v)); }
    static Maybe copy_from(const T& v) { return Maybe(v); }
    static Maybe some(T v) { return Maybe(std::move(v)); }

    bool is_some() const noexcept { return m_v.has_value(); }
    bool is_none() const noexcept { return !m_v.has_value(); }
    bool has_value() const noexcept { return m_v.has_value(); }

    T& unwrap() & { check(); return *m_v; }
    const T& unwrap() const & { check(); return *m_v; }
    T&& unwrap() && { check(); return std::move(*m_v); }
    T& value() & { return unwrap(); }
    const T& value() const & { return unwrap(); }

    template<typename F> auto fmap(F&& f) & { return do_fmap(*this, std::forward<F>(f)); }
    template<typename F> auto fmap(F&& f) const & { return do_fmap(*this, std::forward<F>(f)); }
    template<typename F> auto fmap(F&& f) && { return do_fmap(std::move(*this), std::forward<F>(f)); }

    template<typename F> auto bind(F&& f) & { return do_bind(*this, std::forward<F>(f)); }
    template<typename F> auto bind(F&& f) const & { return do_bind(*this, std::forward<F>(f)); }
    template<typename F> auto bind(F&& f) && { return do_bind(std::move(*this), std::forward<F>(f)); }

    template<typename F> Maybe& with_inner(F&& f) & { if (m_v) { std::invoke(std::forward<F>(f), *m_v); } return *this; }
    template<typename F> const Maybe& with_inner(F&& f) const & { if (m_v) { std::invoke(std::forward<F>(f), *m_v); } return *this; }
    template<typename F> void with_inner(F&& f) && { if (m_v) { std::invoke(std::forward<F>(f), std::move(*m_v)); } }

    template<typename U> T value_or(U&& u) const & {
        if (m_v) { return *m_v; }
        return T(std::forward<U>(u));
    }
    template<typename U> T value_or(U&& u) && {
        if (m_v) { return std::move(*m_v); }
        return T(std::forward<U>(u));
    }
    T value_or(T&& u) const & {
        if (m_v) { return *m_v; }
        return std::move(u);
    }
    T value_or(T&& u) && {
        if (m_v) { return std::move(*m_v); }
        return std::move(u);
    }
    template<typename U> T unwrap_or(U&& u) const & { return value_or(std::forward<U>(u)); }
    template<typename U> T unwrap_or(U&& u) && { return std::move(*this).value_or(std::forward<U>(u)); }
    template<typename F> T value_or_call(F&& f) const & {
        if (m_v) { return *m_v; }
        return T(std::invoke(std::forward<F>(f)));
    }
    template<typename F> T value_or_call(F&& f) && {
        if (m_v) { return std::move(*m_v); }
        return T(std::invoke(std::forward<F>(f)));
    }

    // Result with an error when there is no value (defined in result.hpp)
    result::Result<T> require() const &;
    result::Result<T> require() &&;

    // Context for Maybe<Result<X>>
    template<typename... C> Maybe add_context(C&&... c) && {
        if (m_v) { return Maybe(std::move(*m_v).add_context(std::forward<C>(c)...)); }
        return Maybe();
    }

    friend bool operator==(const Maybe& a, const Maybe& b) noexcept requires requires(const T& x) { x == x; } {
        if (a.m_v.has_value() != b.m_v.has_value()) { return false; }
        return !a.m_v || *a.m_v == *b.m_v;
    }
private:
    void check() const { if (!m_v) { std::abort(); } }

    template<typename M, typename F> static auto do_fmap(M&& m, F&& f) {
        using Raw = details::call_result_t<F, decltype(*std::forward<M>(m).m_v)>;
        if constexpr (std::is_void_v<Raw>) {
            using R = Maybe<types::Unit>;
            if (m.m_v) { details::call(std::forward<F>(f), *std::forward<M>(m).m_v); return R(types::Unit::create()); }
            return R();
        } else {
            using R = Maybe<std::decay_t<Raw>>;
            if (!m.m_v) { return R(); }
            return R::move_from(std::decay_t<Raw>(details::call(std::forward<F>(f), *std::forward<M>(m).m_v)));
        }
    }
    template<typename M, typename F> static auto do_bind(M&& m, F&& f) {
        using R = std::decay_t<details::call_result_t<F, decltype(*std::forward<M>(m).m_v)>>;
        static_assert(is_maybe_v<R>, "function for Maybe::bind must return Maybe");
        if (!m.m_v) { return R(); }
        return R(details::call(std::forward<F>(f), *std::forward<M>(m).m_v));
    }
    std::optional<T> m_v;
};

}

#include <craftpp/result/result.hpp>
