// Stand-in for craftpp; see types/unit.hpp
#pragma once

#include <bit>
#include <cstdint>

namespace craftpp::binary {

inline constexpr uint16_t swap_to_net(uint16_t v) noexcept {
    return std::endian::native == std::endian::little ? __builtin_bswap16(v) : v;
}
inline constexpr uint32_t swap_to_net(uint32_t v) noexcept {
    return std::endian::native == std::endian::little ? __builtin_bswap32(v) : v;
}
inline constexpr uint64_t swap_to_net(uint64_t v) noexcept {
    return std::endian::native == std::endian::little ? __builtin_bswap64(v) : v;
}

inline constexpr uint16_t host_to_network_u16(uint16_t v) noexcept { return swap_to_net(v); }
inline constexpr uint32_t host_to_network_u32(uint32_t v) noexcept { return swap_to_net(v); }
inline constexpr uint64_t host_to_network_u64(uint64_t v) noexcept { return swap_to_net(v); }
inline constexpr uint16_t network_to_host_u16(uint16_t v) noexcept { return swap_to_net(v); }
inline constexpr uint32_t network_to_host_u32(uint32_t v) noexcept { return swap_to_net(v); }
inline constexpr uint64_t network_to_host_u64(uint64_t v) noexcept { return swap_to_net(v); }

}
