// Stand-in for craftpp; see types/unit.hpp
#pragma once

#include <ostream>
#include <sstream>
#include <string>
#include <system_error>
#include <utility>
#include <vector>

namespace craftpp::error {

class Error {
public:
    Error(std::error_code ec) : m_ec(ec) {}
    template<typename E, typename = std::enable_if_t<std::is_error_code_enum_v<E>>>
    Error(E e) : m_ec(make_error_code(e)) {}

    const std::error_code& code() const noexcept { return m_ec; }
    int value() const noexcept { return m_ec.value(); }
    const std::error_category& category() const noexcept { return m_ec.category(); }
    std::string message() const {
        std::string m;
        for (auto it = m_context.rbegin(); it != m_context.rend(); ++it) {
            m += *it;
            m += ": ";
        }
        return m + m_ec.message();
    }

    template<typename... Ctx>
    Error& add_context(Ctx&&... ctx) & {
        push_context(std::forward<Ctx>(ctx)...);
        return *this;
    }
    template<typename... Ctx>
    Error&& add_context(Ctx&&... ctx) && {
        push_context(std::forward<Ctx>(ctx)...);
        return std::move(*this);
    }
    template<typename... Ctx>
    Error add_context(Ctx&&... ctx) const & {
        Error copy(*this);
        copy.push_context(std::forward<Ctx>(ctx)...);
        return copy;
    }

    bool operator==(const Error& o) const noexcept { return m_ec == o.m_ec; }
    friend bool operator==(const Error& e, const std::error_code& ec) noexcept { return e.m_ec == ec; }
    friend std::ostream& operator<<(std::ostream& os, const Error& e) { return os << e.message(); }
private:
    template<typename... Ctx>
    void push_context(Ctx&&... ctx) {
        std::ostringstream s;
        const char *sep = "";
        ((s << sep << ctx, sep = " "), ...);
        m_context.emplace_back(s.str());
    }
    std::error_code m_ec;
    std::vector<std::string> m_context;
};

}
