// Stand-in for craftpp (github.com/poroh/craftpp), which the pinned tree
// fetches from the network.  Written from the uses in /repo; see DESIGN.md.
#pragma once

namespace craftpp::types {

class Unit {
public:
    static constexpr Unit create() noexcept { return Unit{}; }
    constexpr bool operator==(const Unit&) const noexcept = default;
};

}
