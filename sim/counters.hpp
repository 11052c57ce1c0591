// Sums over the counters a statistics structure is made of.
#pragma once

#include <algorithm>
#include <cstdint>
#include <initializer_list>

#include "stat/stat_counter.hpp"

namespace sim {

template<class S>
inline constexpr bool counters_only = sizeof(S) % sizeof(freewebrtc::stat::Counter) == 0 && alignof(S) == alignof(freewebrtc::stat::Counter);

template<class S>
uint64_t sum_counters(const S& s, std::initializer_list<const freewebrtc::stat::Counter *> without) {
    if constexpr (!counters_only<S>) { return 0; }
    else {
        const auto *c = reinterpret_cast<const freewebrtc::stat::Counter *>(&s);
        uint64_t n = 0;
        for (size_t i = 0; i < sizeof s / sizeof *c; ++i) {
            if (std::find(without.begin(), without.end(), c + i) == without.end()) { n += c[i].count(); }
        }
        return n;
    }
}

}
