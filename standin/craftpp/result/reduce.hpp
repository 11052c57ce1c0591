// Stand-in for craftpp; see types/unit.hpp
#pragma once

#include <craftpp/result/result.hpp>

namespace craftpp::result {

// Call function for each element until the first error
template<typename It, typename F>
MaybeError reduce(It b, It e, F&& f) {
    for (; b != e; ++b) {
        auto r = f(*b);
        if (r.is_err()) { return MaybeError(std::move(r).unwrap_err()); }
    }
    return success();
}

// Fold with function (Init&&, elem) -> Result<Init> until the first error
template<typename It, typename Init, typename F>
Result<std::decay_t<Init>> reduce(It b, It e, Init&& init, F&& f) {
    using R = Result<std::decay_t<Init>>;
    R acc(std::decay_t<Init>(std::forward<Init>(init)));
    for (; b != e; ++b) {
        acc = R(f(std::move(acc).unwrap(), *b));
        if (acc.is_err()) { break; }
    }
    return acc;
}

}
