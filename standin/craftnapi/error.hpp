// Stand-in for craftnapi; see env.hpp
#pragma once

#include <string>
#include <system_error>

namespace craftnapi {

// What Node-API reports when a JavaScript value is not of the type asked for
enum class Error {
    ok = 0,
    invalid_arg,
    object_expected,
    string_expected,
    number_expected,
    boolean_expected,
    bigint_expected,
    buffer_expected,
    function_expected,
    array_expected,
    generic_failure
};

namespace details {
class ErrorCategory : public std::error_category {
public:
    const char *name() const noexcept override { return "napi"; }
    std::string message(int c) const override {
        static const char *m[] = {"success", "invalid argument", "an object was expected", "a string was expected", "a number was expected",
                                  "a boolean was expected", "a bigint was expected", "a buffer was expected", "a function was expected",
                                  "an array was expected", "unknown failure"};
        return c >= 0 && c < int(sizeof m / sizeof *m) ? m[c] : "error";
    }
};
}

inline std::error_code make_error_code(Error e) {
    static const details::ErrorCategory cat;
    return std::error_code(int(e), cat);
}

}

template<> struct std::is_error_code_enum<craftnapi::Error> : std::true_type {};
