// Stand-in for craftpp; see types/unit.hpp
#pragma once

#include <cstdlib>
#include <functional>
#include <string>
#include <system_error>
#include <type_traits>
#include <utility>
#include <variant>

#include <craftpp/types/unit.hpp>
#include <craftpp/error/error.hpp>
#include <craftpp/maybe/maybe.hpp>

namespace craftpp::result {

using error::Error;

template<typename T> class Result;

template<typename T> struct is_result : std::false_type {};
template<typename T> struct is_result<Result<T>> : std::true_type {};
template<typename T> inline constexpr bool is_result_v = is_result<std::decay_t<T>>::value;
template<typename T> inline constexpr bool is_error_like_v =
    std::is_same_v<std::decay_t<T>, Error> || std::is_same_v<std::decay_t<T>, std::error_code>;

namespace details {
// Functions get rvalues of rvalue results; a function that insists on
// lvalue references (auto&) gets lvalues.
template<typename F, typename... Args>
decltype(auto) call(F&& f, Args&&... args) {
    if constexpr (std::is_invocable_v<F, Args&&...>) {
        return std::invoke(std::forward<F>(f), std::forward<Args>(args)...);
    } else {
        return std::invoke(std::forward<F>(f), args...);
    }
}
template<typename F, typename... Args>
using call_result_t = decltype(call(std::declval<F>(), std::declval<Args>()...));
}

template<typename T>
class Result {
public:
    using Value = T;

    Result(const T& v) : m_v(std::in_place_index<0>, v) {}
    Result(T&& v) : m_v(std::in_place_index<0>, std::move(v)) {}
    Result(const Error& e) : m_v(std::in_place_index<1>, e) {}
    Result(Error&& e) : m_v(std::in_place_index<1>, std::move(e)) {}
    Result(std::error_code ec) : m_v(std::in_place_index<1>, ec) {}
    template<typename U,
             typename = std::enable_if_t<
                 !std::is_same_v<std::decay_t<U>, T>
                 && !is_result_v<U> && !is_error_like_v<U>
                 && std::is_convertible_v<U&&, T>>>
    Result(U&& u) : m_v(std::in_place_index<0>, T(std::forward<U>(u))) {}

    Result(const Result&) = default;
    Result(Result&&) = default;
    Result& operator=(const Result&) = default;
    Result& operator=(Result&&) = default;

    bool is_ok() const noexcept { return m_v.index() == 0; }
    bool is_err() const noexcept { return m_v.index() == 1; }

    T& unwrap() & { check_ok(); return *std::get_if<0>(&m_v); }
    const T& unwrap() const & { check_ok(); return *std::get_if<0>(&m_v); }
    T&& unwrap() && { check_ok(); return std::move(*std::get_if<0>(&m_v)); }
    Error& unwrap_err() & { check_err(); return *std::get_if<1>(&m_v); }
    const Error& unwrap_err() const & { check_err(); return *std::get_if<1>(&m_v); }
    Error&& unwrap_err() && { check_err(); return std::move(*std::get_if<1>(&m_v)); }

    template<typename U> T unwrap_or(U&& u) const & {
        if (is_ok()) { return *std::get_if<0>(&m_v); }
        return T(std::forward<U>(u));
    }
    template<typename U> T unwrap_or(U&& u) && {
        if (is_ok()) { return std::move(*std::get_if<0>(&m_v)); }
        return T(std::forward<U>(u));
    }
    template<typename U> T value_or(U&& u) const & { return unwrap_or(std::forward<U>(u)); }
    template<typename U> T value_or(U&& u) && { return std::move(*this).unwrap_or(std::forward<U>(u)); }

    maybe::Maybe<T> to_maybe() const & { return is_ok() ? maybe::Maybe<T>(unwrap()) : maybe::Maybe<T>(); }

    template<typename F> auto fmap(F&& f) & { return do_fmap(*this, std::forward<F>(f)); }
    template<typename F> auto fmap(F&& f) const & { return do_fmap(*this, std::forward<F>(f)); }
    template<typename F> auto fmap(F&& f) && { return do_fmap(std::move(*this), std::forward<F>(f)); }

    template<typename F> auto bind(F&& f) & { return do_bind(*this, std::forward<F>(f)); }
    template<typename F> auto bind(F&& f) const & { return do_bind(*this, std::forward<F>(f)); }
    template<typename F> auto bind(F&& f) && { return do_bind(std::move(*this), std::forward<F>(f)); }

    template<typename F> Result bind_err(F&& f) & { return do_bind_err(*this, std::forward<F>(f)); }
    template<typename F> Result bind_err(F&& f) const & { return do_bind_err(*this, std::forward<F>(f)); }
    template<typename F> Result bind_err(F&& f) && { return do_bind_err(std::move(*this), std::forward<F>(f)); }

    template<typename F> Result& with_inner(F&& f) & { if (is_ok()) { std::invoke(std::forward<F>(f), unwrap()); } return *this; }
    template<typename F> const Result& with_inner(F&& f) const & { if (is_ok()) { std::invoke(std::forward<F>(f), unwrap()); } return *this; }

    template<typename... C> Result add_context(C&&... c) const & {
        Result copy(*this);
        if (copy.is_err()) { copy.unwrap_err().add_context(std::forward<C>(c)...); }
        return copy;
    }
    template<typename... C> Result add_context(C&&... c) && {
        if (is_err()) { std::get_if<1>(&m_v)->add_context(std::forward<C>(c)...); }
        return std::move(*this);
    }
private:
    void check_ok() const { if (!is_ok()) { std::abort(); } }
    void check_err() const { if (!is_err()) { std::abort(); } }

    template<typename S, typename F> static auto do_fmap(S&& s, F&& f) {
        using Raw = details::call_result_t<F, decltype(std::forward<S>(s).unwrap())>;
        if constexpr (std::is_void_v<Raw>) {
            using R = Result<types::Unit>;
            if (s.is_err()) { return R(std::forward<S>(s).unwrap_err()); }
            details::call(std::forward<F>(f), std::forward<S>(s).unwrap());
            return R(types::Unit::create());
        } else {
            using V = std::decay_t<Raw>;
            using R = Result<V>;
            if (s.is_err()) { return R(std::forward<S>(s).unwrap_err()); }
            return R(V(details::call(std::forward<F>(f), std::forward<S>(s).unwrap())));
        }
    }
    template<typename S, typename F> static auto do_bind(S&& s, F&& f) {
        using R = std::decay_t<details::call_result_t<F, decltype(std::forward<S>(s).unwrap())>>;
        static_assert(is_result_v<R>, "function for Result::bind must return Result");
        if (s.is_err()) { return R(std::forward<S>(s).unwrap_err()); }
        return R(details::call(std::forward<F>(f), std::forward<S>(s).unwrap()));
    }
    template<typename S, typename F> static Result do_bind_err(S&& s, F&& f) {
        if (s.is_ok()) { return Result(std::forward<S>(s)); }
        return Result(std::invoke(std::forward<F>(f), std::forward<S>(s).unwrap_err()));
    }
    std::variant<T, Error> m_v;
};

using MaybeError = Result<types::Unit>;

inline MaybeError success() { return MaybeError(types::Unit::create()); }

template<typename T>
inline Result<std::decay_t<T>> success(T&& v) { return Result<std::decay_t<T>>(std::forward<T>(v)); }

template<typename T>
inline Result<std::decay_t<T>> return_value(T&& v) { return Result<std::decay_t<T>>(std::forward<T>(v)); }

namespace details {
inline const Error *first_error() { return nullptr; }
template<typename R, typename... Rs>
const Error *first_error(const R& r, const Rs&... rest) {
    if (r.is_err()) { return &r.unwrap_err(); }
    return first_error(rest...);
}
}

// First error (in order of arguments) wins, otherwise result of the function.
template<typename F, typename... Rs>
    requires (sizeof...(Rs) > 0 && (is_result_v<Rs> && ...))
auto combine(F&& f, Rs&&... rs) {
    using R = std::decay_t<details::call_result_t<F, decltype(std::forward<Rs>(rs).unwrap())...>>;
    static_assert(is_result_v<R>, "function for combine must return Result");
    if (const Error *e = details::first_error(rs...); e != nullptr) { return R(*e); }
    return R(details::call(std::forward<F>(f), std::forward<Rs>(rs).unwrap()...));
}

template<typename... Rs>
    requires (sizeof...(Rs) > 0 && (is_result_v<Rs> && ...))
MaybeError any_is_err(const Rs&... rs) {
    if (const Error *e = details::first_error(rs...); e != nullptr) { return MaybeError(*e); }
    return success();
}

}

namespace craftpp::maybe {

namespace details {
class MaybeErrorCategory : public std::error_category {
public:
    const char *name() const noexcept override { return "maybe"; }
    std::string message(int) const override { return "value is required"; }
};
inline std::error_code value_required() noexcept {
    static const MaybeErrorCategory cat;
    return std::error_code(1, cat);
}
}

template<typename T>
result::Result<T> Maybe<T>::require() const & {
    if (m_v) { return result::Result<T>(*m_v); }
    return result::Result<T>(details::value_required());
}
template<typename T>
result::Result<T> Maybe<T>::require() && {
    if (m_v) { return result::Result<T>(std::move(*m_v)); }
    return result::Result<T>(details::value_required());
}

}
