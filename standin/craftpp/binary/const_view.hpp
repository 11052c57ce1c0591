// Stand-in for craftpp; see types/unit.hpp
#pragma once

#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <string_view>
#include <vector>

#include <craftpp/maybe/maybe.hpp>
#include <craftpp/binary/endian.hpp>

namespace craftpp::binary {

class ConstView {
public:
    using ByteVec = std::vector<uint8_t>;
    using const_iterator = const uint8_t *;
    struct Interval {
        size_t offset;
        size_t count;
        bool operator==(const Interval&) const noexcept = default;
    };

    ConstView(const void *data, size_t size) noexcept
        : m_data(static_cast<const uint8_t *>(data)), m_size(size) {}
    explicit ConstView(const ByteVec& v) noexcept : m_data(v.data()), m_size(v.size()) {}
    template<size_t N>
    explicit ConstView(const std::array<uint8_t, N>& v) noexcept : m_data(v.data()), m_size(v.size()) {}

    size_t size() const noexcept { return m_size; }
    bool empty() const noexcept { return m_size == 0; }
    const uint8_t *data() const noexcept { return m_data; }
    const_iterator begin() const noexcept { return m_data; }
    const_iterator end() const noexcept { return m_data + m_size; }
    const_iterator cbegin() const noexcept { return begin(); }
    const_iterator cend() const noexcept { return end(); }

    bool contains(const Interval& i) const noexcept {
        return i.offset <= m_size && i.count <= m_size - i.offset;
    }

    maybe::Maybe<ConstView> subview(size_t offset) const noexcept {
        if (offset > m_size) { return maybe::none(); }
        return ConstView(m_data + offset, m_size - offset);
    }
    maybe::Maybe<ConstView> subview(size_t offset, size_t count) const noexcept {
        return subview(Interval{offset, count});
    }
    maybe::Maybe<ConstView> subview(const Interval& i) const noexcept {
        if (!contains(i)) { return maybe::none(); }
        return ConstView(m_data + i.offset, i.count);
    }

    maybe::Maybe<uint8_t> read_u8(size_t off) const noexcept { return read<uint8_t>(off); }
    maybe::Maybe<uint16_t> read_u16be(size_t off) const noexcept { return read<uint16_t>(off); }
    maybe::Maybe<uint32_t> read_u32be(size_t off) const noexcept { return read<uint32_t>(off); }
    maybe::Maybe<uint64_t> read_u64be(size_t off) const noexcept { return read<uint64_t>(off); }

    // The caller vouches for the bounds.  The stand-in reads exactly where it
    // is told so that a sanitizer sees a caller that was wrong.
    uint8_t assured_read_u8(size_t off) const noexcept { return assured<uint8_t>(off); }
    uint16_t assured_read_u16be(size_t off) const noexcept { return assured<uint16_t>(off); }
    uint32_t assured_read_u32be(size_t off) const noexcept { return assured<uint32_t>(off); }
    uint64_t assured_read_u64be(size_t off) const noexcept { return assured<uint64_t>(off); }
    ConstView assured_subview(size_t offset, size_t count) const noexcept { return ConstView(m_data + offset, count); }
    ConstView assured_subview(size_t offset) const noexcept { return ConstView(m_data + offset, m_size - offset); }

    static ByteVec concat(const std::vector<ConstView>& views) {
        size_t total = 0;
        for (const auto& v : views) { total += v.size(); }
        ByteVec r;
        r.reserve(total);
        for (const auto& v : views) { r.insert(r.end(), v.begin(), v.end()); }
        return r;
    }

    bool operator==(const ConstView& o) const noexcept {
        return m_size == o.m_size && (m_size == 0 || std::memcmp(m_data, o.m_data, m_size) == 0);
    }
private:
    template<typename V> maybe::Maybe<V> read(size_t off) const noexcept {
        if (!contains({off, sizeof(V)})) { return maybe::none(); }
        return assured<V>(off);
    }
    template<typename V> V assured(size_t off) const noexcept {
        V r = 0;
        for (size_t i = 0; i < sizeof(V); ++i) {
            r = static_cast<V>((static_cast<uint64_t>(r) << 8) | m_data[off + i]);
        }
        return r;
    }
    const uint8_t *m_data;
    size_t m_size;
};

}
