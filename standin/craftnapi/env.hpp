// Stand-in for craftnapi (github.com/poroh/craftnapi), the wrapper of Node-API
// the bindings in /repo/node are written against and which the pinned tree
// fetches from the network. Instead of a JavaScript engine it keeps the values
// in a plain C++ heap, with the semantics of Node-API: type errors are
// reported, absent properties read as undefined, numbers convert to int32 the
// way napi_get_value_int32 does, strings are well-formed Unicode, buffers are
// copies, wrapped objects live as long as their wrapper. Written from the uses
// in /repo/node; see DESIGN.md.
#pragma once

#include <cmath>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <typeinfo>
#include <utility>
#include <vector>

#include <craftpp/maybe/maybe.hpp>
#include <craftpp/result/result.hpp>
#include <craftpp/binary/const_view.hpp>
#include <craftnapi/error.hpp>

namespace craftnapi {

using craftpp::binary::ConstView;
using craftpp::maybe::Maybe;
using craftpp::maybe::None;
using craftpp::maybe::none;
using craftpp::result::MaybeError;
using craftpp::result::Result;
using craftpp::result::success;

class Env;
class Value;
class Object;
class CallbackInfo;
using Function = std::function<Result<Value>(Env&, const CallbackInfo&)>;

namespace js {

enum class Kind { Undefined, Null, Boolean, Number, BigInt, String, Buffer, Array, Object, Function };

struct Cell {
    Kind kind = Kind::Undefined;
    bool boolean = false;
    double number = 0;
    uint64_t bigint = 0;                     // 64 bit, unsigned or two's complement
    bool bigint_negative = false, bigint_huge = false;
    std::string string;                      // well-formed UTF-8
    std::unique_ptr<std::vector<uint8_t>> buffer;
    std::vector<std::shared_ptr<Cell>> array;
    std::vector<std::pair<std::string, std::shared_ptr<Cell>>> props;
    std::set<std::string> throwing;          // properties whose getter throws
    Function function;
    Function constructor;                    // of a class
    std::vector<std::pair<std::string, Function>> methods;
    std::shared_ptr<void> wrapped;
    const std::type_info *wrapped_type = nullptr;
};
using Ref = std::shared_ptr<Cell>;

inline Ref make(Kind k) { auto c = std::make_shared<Cell>(); c->kind = k; return c; }

// What JavaScript makes of bytes that are meant to be UTF-8
inline std::string well_formed(std::string_view s) {
    std::string o;
    size_t i = 0;
    auto byte = [&](size_t k) { return k < s.size() ? uint8_t(s[k]) : 0; };
    while (i < s.size()) {
        const uint8_t b = byte(i);
        size_t n = b < 0x80 ? 1 : b >= 0xC2 && b <= 0xDF ? 2 : b >= 0xE0 && b <= 0xEF ? 3 : b >= 0xF0 && b <= 0xF4 ? 4 : 0;
        size_t good = n ? 1 : 0;
        for (size_t k = 1; k < n; ++k) {
            const uint8_t c = byte(i + k);
            uint8_t lo = 0x80, hi = 0xBF;
            if (k == 1) {
                if (b == 0xE0) { lo = 0xA0; }
                if (b == 0xED) { hi = 0x9F; }
                if (b == 0xF0) { lo = 0x90; }
                if (b == 0xF4) { hi = 0x8F; }
            }
            if (i + k >= s.size() || c < lo || c > hi) { break; }
            good++;
        }
        if (n && good == n) { o.append(s.substr(i, n)); i += n; }
        else { o += "\xEF\xBF\xBD"; i += good ? good : 1; }
    }
    return o;
}

}

class Value {
public:
    explicit Value(js::Ref c) : m_c(std::move(c)) {}
    const js::Ref& cell() const noexcept { return m_c; }

    Result<Object> as_object() const;
    Result<std::string> as_string() const {
        if (m_c->kind != js::Kind::String) { return make_error_code(Error::string_expected); }
        return m_c->string;
    }
    Result<int32_t> as_int32() const {
        if (m_c->kind != js::Kind::Number) { return make_error_code(Error::number_expected); }
        return int32_t(low32());
    }
    Result<uint32_t> as_uint32() const {
        if (m_c->kind != js::Kind::Number) { return make_error_code(Error::number_expected); }
        return low32();
    }
    Result<int64_t> as_int64() const {
        if (m_c->kind != js::Kind::Number) { return make_error_code(Error::number_expected); }
        const double d = m_c->number;
        if (!std::isfinite(d)) { return int64_t(0); }
        if (d >= 9223372036854775808.0) { return INT64_MAX; }
        if (d <= -9223372036854775808.0) { return INT64_MIN; }
        return int64_t(d);
    }
    Result<double> as_double() const {
        if (m_c->kind != js::Kind::Number) { return make_error_code(Error::number_expected); }
        return m_c->number;
    }
    Result<bool> as_boolean() const {
        if (m_c->kind != js::Kind::Boolean) { return make_error_code(Error::boolean_expected); }
        return m_c->boolean;
    }
    Result<ConstView> as_buffer() const {
        if (m_c->kind != js::Kind::Buffer) { return make_error_code(Error::buffer_expected); }
        return ConstView(m_c->buffer->data(), m_c->buffer->size());
    }
    bool is_undefined() const noexcept { return m_c->kind == js::Kind::Undefined; }
    bool is_null() const noexcept { return m_c->kind == js::Kind::Null; }

    template<typename T>
    Result<std::reference_wrapper<T>> unwrap() const {
        if (!m_c->wrapped) { return make_error_code(Error::invalid_arg); }
        if (*m_c->wrapped_type != typeid(T)) { return make_error_code(Error::invalid_arg); }
        return std::ref(*static_cast<T *>(m_c->wrapped.get()));
    }

    static Result<Object> to_object(const Value&);
    static Result<std::string> to_string(const Value& v) { return v.as_string(); }
    static Result<int32_t> to_int32(const Value& v) { return v.as_int32(); }
    static Result<uint32_t> to_uint32(const Value& v) { return v.as_uint32(); }
    static Result<int64_t> to_int64(const Value& v) { return v.as_int64(); }
    static Result<bool> to_boolean(const Value& v) { return v.as_boolean(); }
    static Result<ConstView> to_buffer(const Value& v) { return v.as_buffer(); }
private:
    uint32_t low32() const noexcept {
        const double d = m_c->number;
        if (!std::isfinite(d)) { return 0; }
        double t = std::fmod(std::trunc(d), 4294967296.0);
        if (t < 0) { t += 4294967296.0; }
        return uint32_t(t);
    }
    js::Ref m_c;
};

class Object {
public:
    explicit Object(js::Ref c) : m_c(std::move(c)) {}
    const js::Ref& cell() const noexcept { return m_c; }
    Value to_value() const { return Value(m_c); }
    static Value fmap_to_value(const Object& o) { return o.to_value(); }

    Result<Value> named_property(std::string_view name) const {
        if (m_c->throwing.count(std::string(name))) { return make_error_code(Error::generic_failure); }
        for (auto& [k, v] : m_c->props) { if (k == name) { return Value(v); } }
        return Value(js::make(js::Kind::Undefined));
    }
    Result<Maybe<Value>> maybe_named_property(std::string_view name) const {
        auto v = named_property(name);
        if (v.is_err()) { return v.unwrap_err(); }
        if (v.unwrap().is_undefined()) { return Maybe<Value>(); }
        return Maybe<Value>(v.unwrap());
    }
    template<typename T>
    Result<Value> wrap(std::unique_ptr<T>&& p) const {
        if (m_c->wrapped) { return make_error_code(Error::invalid_arg); }
        m_c->wrapped = std::shared_ptr<T>(std::move(p));
        m_c->wrapped_type = &typeid(T);
        return Value(m_c);
    }
    template<typename T>
    Result<std::reference_wrapper<T>> unwrap() const { return to_value().template unwrap<T>(); }
private:
    js::Ref m_c;
};

inline Result<Object> Value::as_object() const {
    if (m_c->kind != js::Kind::Object && m_c->kind != js::Kind::Array && m_c->kind != js::Kind::Buffer && m_c->kind != js::Kind::Function) {
        return make_error_code(Error::object_expected);
    }
    return Object(m_c);
}
inline Result<Object> Value::to_object(const Value& v) { return v.as_object(); }

class CallbackInfo {
public:
    CallbackInfo(Value self, std::vector<Value> a) : this_arg(std::move(self)), args(std::move(a)) {}
    Result<Value> operator[](size_t i) const {
        if (i < args.size()) { return args[i]; }
        return Value(js::make(js::Kind::Undefined));
    }
    size_t size() const noexcept { return args.size(); }
    Value this_arg;
    std::vector<Value> args;
};

class Env {
public:
    // A property to create: a value, an error, or nothing at all
    struct Property {
        Property(const Result<Value>& v) : value(v) {}
        Property(const Result<Object>& v) : value(v.fmap(Object::fmap_to_value)) {}
        Property(const Maybe<Result<Value>>& v) : value(absent()), present(v.is_some()) { if (present) { value = v.unwrap(); } }
        Property(const Maybe<Result<Object>>& v) : value(absent()), present(v.is_some()) { if (present) { value = v.unwrap().fmap(Object::fmap_to_value); } }
        Property(const Value& v) : value(v) {}
        Property(const Object& v) : value(v.to_value()) {}
        static Result<Value> absent() { return Value(js::make(js::Kind::Undefined)); }
        Result<Value> value;
        bool present = true;
    };
    using PropertyInit = std::initializer_list<std::pair<std::string, Property>>;

    Result<Object> create_object(PropertyInit l = {}) const {
        auto c = js::make(js::Kind::Object);
        for (auto& [k, p] : l) {
            if (!p.present) { continue; }
            if (p.value.is_err()) { return p.value.unwrap_err(); }
            bool found = false;
            for (auto& [n, v] : c->props) { if (n == k) { v = p.value.unwrap().cell(); found = true; } }
            if (!found) { c->props.emplace_back(k, p.value.unwrap().cell()); }
        }
        return Object(c);
    }
    Result<Value> create_string(std::string_view s) const { auto c = js::make(js::Kind::String); c->string = js::well_formed(s); return Value(c); }
    Result<Value> create_buffer(const ConstView& v) const {
        auto c = js::make(js::Kind::Buffer);
        c->buffer = std::make_unique<std::vector<uint8_t>>(v.begin(), v.end());
        return Value(c);
    }
    Result<Value> create_int32(int32_t v) const { return number(v); }
    Result<Value> create_uint32(uint32_t v) const { return number(v); }
    Result<Value> create_int64(int64_t v) const { return number(double(v)); }
    Result<Value> create_double(double v) const { return number(v); }
    Result<Value> create_bigint_uint64(uint64_t v) const { auto c = js::make(js::Kind::BigInt); c->bigint = v; return Value(c); }
    Result<Value> create_bigint_int64(int64_t v) const {
        auto c = js::make(js::Kind::BigInt);
        c->bigint = uint64_t(v);
        c->bigint_negative = v < 0;
        return Value(c);
    }
    Result<Value> create_boolean(bool b) const { auto c = js::make(js::Kind::Boolean); c->boolean = b; return Value(c); }
    Result<Value> create_null() const { return Value(js::make(js::Kind::Null)); }
    Result<Value> create_undefined() const { return Value(js::make(js::Kind::Undefined)); }
    Result<Value> create_function(Function f) const { auto c = js::make(js::Kind::Function); c->function = std::move(f); return Value(c); }

    template<typename C, typename F>
    Result<Value> create_array(const C& items, F&& f) const {
        auto c = js::make(js::Kind::Array);
        for (const auto& i : items) {
            Property p(f(i));
            if (p.value.is_err()) { return p.value.unwrap_err(); }
            c->array.push_back(p.value.unwrap().cell());
        }
        return Value(c);
    }

    Result<Value> create_class(std::string_view, Function constructor, std::initializer_list<std::pair<std::string, Function>> methods) const {
        auto c = js::make(js::Kind::Function);
        c->constructor = std::move(constructor);
        for (auto& m : methods) { c->methods.push_back(m); }
        return Value(c);
    }
private:
    static Result<Value> number(double d) { auto c = js::make(js::Kind::Number); c->number = d; return Value(c); }
};

}
