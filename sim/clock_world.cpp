// T01: histories of library time points in lock step with modular 64-bit
//      arithmetic carried out in 128 bits.
// T02: standard clocks whose source is driven by the simulator (tiny steps,
//      long gaps, steps backwards, any origin), converted to library time; the
//      process wide steady clock is replaced by the simulated one, and its
//      readers are real threads released one at a time by the simulator.
#include "core.hpp"

#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>

#include "clock/clock_std.hpp"
#include "clock/clock_timepoint.hpp"

using i128 = __int128;

// ------------------------------------------------ the simulated system clock
static std::int64_t g_steady = 0;          // ns, only changed by the simulator
static std::int64_t g_steady_step = 0;     // and every reading takes that long
#ifndef SIM_INVISIBLE
#define SIM_INVISIBLE
#endif
namespace std::chrono { inline namespace _V2 {
SIM_INVISIBLE steady_clock::time_point steady_clock::now() noexcept {
    const auto v = g_steady;
    g_steady += g_steady_step;
    return time_point(duration(v));
}
}}

namespace kw {

namespace fw = freewebrtc;
using fw::clock::Timepoint;
using sim::Choices;
using sim::Run;
using sim::strf;

static uint64_t pos(const Timepoint& t) { return uint64_t((t - Timepoint::epoch()).count()); }
static i128 floordiv(i128 a, i128 b) { i128 q = a / b; return (a % b != 0 && (a < 0) != (b < 0)) ? q - 1 : q; }

// a magnitude with all orders of magnitude about equally likely
static int64_t magnitude(Choices& ch, int64_t max) {
    int bits = 1;
    while (bits < 63 && (int64_t(1) << bits) <= max) { bits++; }
    const unsigned b = ch.range(0, unsigned(bits));
    if (b == 0) { return 0; }
    int64_t v = int64_t(ch.range64(0, b >= 63 ? uint64_t(max) : (uint64_t(1) << b) - 1));
    switch (ch.pick(6)) {
    case 1: v = v / 1000 * 1000; break;
    case 2: v = b >= 63 ? max : (int64_t(1) << (b - 1)); break;
    case 3: v = b >= 63 ? max : (int64_t(1) << (b - 1)) - 1; break;
    default: break;
    }
    return v > max ? max : v;
}

// ----------------------------------------------------------------------- T01
class Points {
public:
    explicit Points(Run& r) : r(r), ch(r.ch) {}
    void run();
private:
    struct P { Timepoint t; uint64_t m; };
    Run& r;
    Choices& ch;
    std::vector<P> ps;
    bool check_pairs = true;

    void bad(const char *cls, const std::string& m) { r.violate({"T01"}, cls, m); }
    void check(const P& a, const P& b) {
        const uint64_t d = a.m - b.m;
        if (d == (uint64_t(1) << 63)) { r.probe("exactly-half-range-apart"); return; }
        r.eval("T01");
        const int64_t sd = int64_t(d);
        const int64_t got = (a.t - b.t).count();
        if (got != sd) { bad("difference", strf("difference of %" PRIu64 " and %" PRIu64 " is %" PRId64 " instead of %" PRId64, a.m, b.m, got, sd)); }
        const bool before = a.t.is_before(b.t), after = a.t.is_after(b.t), eq = a.t == b.t, ne = a.t != b.t;
        if (before != (sd < 0) || after != (sd > 0) || eq != (sd == 0) || ne == eq) {
            bad("order", strf("%" PRIu64 " against %" PRIu64 " (difference %" PRId64 "): before=%d after=%d equal=%d", a.m, b.m, sd, before, after, eq));
        }
        if ((a.m > b.m) != (sd > 0) && sd != 0) { r.probe("pair-across-the-wrap"); }
    }
    template<typename D>
    void advance(P& p, const char *name) {
        using Rep = typename D::rep;
        using Per = typename D::period;
        const i128 k = i128(1000000) / Per::den * Per::num;          // microseconds per unit
        i128 lim = (i128(1) << 63) / k - 1;
        if (lim > i128(std::numeric_limits<Rep>::max())) { lim = i128(std::numeric_limits<Rep>::max()); }
        int64_t v = magnitude(ch, int64_t(lim));
        if (std::numeric_limits<Rep>::is_signed && ch.pick(3) == 2) { v = -v; r.fault("step-backwards"); }
        const i128 us = i128(v) * k;
        r.log("advance %" PRId64 " %s", v, name);
        p.t = p.t.advance(D(Rep(v)));
        const uint64_t m = p.m + uint64_t(us);
        if ((us > 0 && m < p.m) || (us < 0 && m > p.m)) { r.fault("wrap-around"); }
        p.m = m;
    }
    template<typename D>
    void advance_from(P& p, const char *name) {
        using Rep = typename D::rep;
        using Per = typename D::period;
        const i128 num = i128(1000000) * Per::num, den = Per::den;   // us per unit = num/den
        i128 lim = num > den ? (i128(1) << 62) / (num / den) - 1 : (i128(1) << 62);
        if (lim > i128(std::numeric_limits<Rep>::max())) { lim = i128(std::numeric_limits<Rep>::max()); }
        int64_t v = magnitude(ch, int64_t(lim));
        if (std::numeric_limits<Rep>::is_signed && ch.pick(3) == 2) { v = -v; r.fault("step-backwards"); }
        D d{Rep(v)};
        const Timepoint was = p.t;
        p.t = p.t.advance_from(d);
        const int64_t moved = (p.t - was).count();
        const i128 left = i128(d.count());
        r.log("advance_from %" PRId64 " %s: moved %" PRId64 ", %" PRId64 " left", v, name, moved, int64_t(left));
        // conservation: exactly what was not consumed is left, and it is less than a microsecond
        if (i128(moved) * den + left * num != i128(v) * num) {
            bad("advance-from-lost", strf("advance_from(%" PRId64 " %s) moved %" PRId64 " us and left %" PRId64, v, name, moved, int64_t(left)));
        }
        const i128 al = left < 0 ? -left : left;
        if (al * num >= den) { bad("advance-from-left", strf("advance_from(%" PRId64 " %s) left %" PRId64, v, name, int64_t(left))); }
        const uint64_t m = p.m + uint64_t(moved);
        if ((moved > 0 && m < p.m) || (moved < 0 && m > p.m)) { r.fault("wrap-around"); }
        p.m = m;
        r.eval("T01");
    }
};

void Points::run() {
    const unsigned n = ch.range(2, 6), steps = ch.range(3, 60);
    ps.reserve(16);
    const uint64_t origin = ch.of<uint64_t>({0, ~0ull - 5, ~0ull - 1000000, (1ull << 63) - 3, 1ull << 63, 1ull << 62});
    const bool jitter = ch.chance(1, 2);
    for (unsigned i = 0; i < n; ++i) {
        uint64_t o = origin + (jitter ? ch.pick(10) : 0);
        // any starting point is reached by two advances
        auto t = Timepoint::epoch();
        t = t.advance(std::chrono::microseconds(int64_t(o / 2)));
        t = t.advance(std::chrono::duration<uint64_t, std::micro>(o - o / 2));
        ps.push_back(P{t, o});
    }
    std::chrono::nanoseconds carry{0};           // one remainder carried over several advances
    i128 carry_model = 0;
    for (unsigned s = 0; s < steps; ++s) {
        P& p = ps[ch.pick(uint32_t(ps.size()))];
        const auto op = ch.pick(20);
        r.step(op);
        switch (op) {
        case 0: advance<std::chrono::microseconds>(p, "us"); break;
        case 1: advance<std::chrono::milliseconds>(p, "ms"); break;
        case 2: advance<std::chrono::seconds>(p, "s"); break;
        case 3: advance<std::chrono::duration<int64_t, std::ratio<60>>>(p, "min"); break;
        case 4: advance<std::chrono::duration<int64_t, std::ratio<3600>>>(p, "h"); break;
        case 5: advance<std::chrono::duration<int32_t, std::milli>>(p, "ms (32 bit)"); break;
        case 6: advance<std::chrono::duration<uint64_t, std::micro>>(p, "us (unsigned)"); break;
        case 7:
            switch (ch.pick(7)) {
            case 0: advance<std::chrono::duration<int64_t, std::ratio<1, 10>>>(p, "1/10 s"); break;
            case 1: advance<std::chrono::duration<int16_t>>(p, "s (16 bit)"); break;
            case 2: advance<std::chrono::duration<uint32_t, std::ratio<60>>>(p, "min (unsigned 32 bit)"); break;
            case 3: advance<std::chrono::duration<int64_t, std::ratio<86400>>>(p, "days"); break;
            case 4: advance<std::chrono::duration<int64_t, std::ratio<7, 2>>>(p, "7/2 s"); break;
            case 5: advance<std::chrono::duration<int32_t, std::ratio<1, 64>>>(p, "1/64 s"); break;
            default: advance<std::chrono::duration<int64_t, std::ratio<1, 100000>>>(p, "10 us"); break;
            }
            break;
        case 8: advance_from<std::chrono::nanoseconds>(p, "ns"); break;
        case 9: advance_from<std::chrono::microseconds>(p, "us"); break;
        case 10: advance_from<std::chrono::milliseconds>(p, "ms"); break;
        case 11: advance_from<std::chrono::seconds>(p, "s"); break;
        case 12:
            switch (ch.pick(5)) {
            case 0: advance_from<std::chrono::duration<int64_t, std::ratio<1, 10000000>>>(p, "100ns"); break;
            case 1: advance_from<std::chrono::duration<int64_t, std::pico>>(p, "ps"); break;
            case 2: advance_from<std::chrono::duration<int64_t, std::ratio<3600>>>(p, "h"); break;
            case 3: advance_from<std::chrono::duration<int32_t, std::nano>>(p, "ns (32 bit)"); break;
            default: advance_from<std::chrono::duration<int64_t, std::ratio<1, 8>>>(p, "1/8 s"); break;
            }
            break;
        case 13: {                                // carried remainder
            int64_t v = magnitude(ch, int64_t(1) << 60);
            if (ch.pick(3) == 2) { v = -v; r.fault("step-backwards"); }
            carry += std::chrono::nanoseconds(v);
            carry_model += v;
            const Timepoint was = p.t;
            p.t = p.t.advance_from(carry);
            const int64_t moved = (p.t - was).count();
            carry_model -= i128(moved) * 1000;
            r.log("carry %" PRId64 " ns: moved %" PRId64 ", %" PRId64 " left", v, moved, int64_t(carry.count()));
            if (carry_model != i128(carry.count()) || carry.count() >= 1000 || carry.count() <= -1000) {
                bad("carry", strf("carried remainder is %" PRId64 " ns, should be %" PRId64, int64_t(carry.count()), int64_t(carry_model)));
            }
            p.m += uint64_t(moved);
            r.eval("T01");
            break;
        }
        case 14: p = ps[ch.pick(uint32_t(ps.size()))]; r.log("copy"); break;
        case 15: {                                // to a neighbour of another point
            const P q = ps[ch.pick(uint32_t(ps.size()))];
            const int64_t k = int64_t(ch.pick(5)) - 2;
            p = P{q.t.advance(Timepoint::Duration(k)), q.m + uint64_t(k)};
            r.log("neighbour %d", int(k));
            break;
        }
        case 16: {                                // difference carried over: b + (a - b) == a
            const P a = ps[ch.pick(uint32_t(ps.size()))], b = ps[ch.pick(uint32_t(ps.size()))];
            if (a.m - b.m == (1ull << 63)) { break; }
            const auto c = b.t.advance(a.t - b.t);
            r.log("b + (a - b)");
            if (!(c == a.t)) { bad("difference-not-inverse", strf("b + (a - b) != a for a = %" PRIu64 ", b = %" PRIu64, a.m, b.m)); }
            break;
        }
        case 17: {                                // almost half the range away from another point
            const P q = ps[ch.pick(uint32_t(ps.size()))];
            const int64_t h = (int64_t(1) << 62) + int64_t(ch.range64(0, (1ull << 62) - 1));
            const bool back = ch.pick(2);
            p = P{q.t.advance(Timepoint::Duration(back ? -h : h)), q.m + uint64_t(back ? -h : h)};
            r.log("far point %" PRId64, back ? -h : h);
            r.fault("clock-jump");
            break;
        }
        case 18: {                                // exactly at the ends of the half range
            const P q = ps[ch.pick(uint32_t(ps.size()))];
            const int64_t h = std::numeric_limits<int64_t>::max() - int64_t(ch.pick(2));
            const bool back = ch.pick(2);
            p = P{q.t.advance(Timepoint::Duration(back ? -h : h)), q.m + uint64_t(back ? -h : h)};
            r.log("end of half range %" PRId64, back ? -h : h);
            r.fault("clock-jump");
            break;
        }
        }
        if (op == 19) {                           // any number of microseconds without sign
            const uint64_t v = ch.pick(2) ? ~0ull - ch.pick(1000) : (uint64_t(ch.pick(1u << 31)) << 33) + ch.pick(1u << 31);
            r.log("advance %" PRIu64 " us (unsigned, any)", v);
            p.t = p.t.advance(std::chrono::duration<uint64_t, std::micro>(v));
            p.m += v;
        }
        for (auto& q : ps) { check(p, q); check(q, p); }
        const uint64_t want = p.m;
        if (want != (1ull << 63) && pos(p.t) != want) { bad("position", strf("point is at %" PRIu64 " instead of %" PRIu64, pos(p.t), want)); }
        r.state(sim::mix(op, p.m >> 40));
    }
}

// ----------------------------------------------------------------------- T02
// the simulated source of one standard clock type
template<typename Period, int Id, typename Rep, bool Steady>
struct SimClock {
    using rep = Rep;
    using period = Period;
    using duration = std::chrono::duration<Rep, Period>;
    using time_point = std::chrono::time_point<SimClock>;
    static constexpr bool is_steady = Steady;
    static inline int64_t ticks = 0;
    static inline int64_t step = 0;                          // time passes while the clock is read
    static time_point now() noexcept { const auto v = ticks; ticks += step; return time_point(duration(Rep(v))); }
};

// |error| < 1us of a reading against the exact source time ticks*num/den us
class Tracker {
public:
    Tracker(Run& r, i128 num, i128 den) : r(r), num(num), den(den) {}
    // the source was read at a moment between ticks and until
    void reading(const Timepoint& t, int64_t ticks, int64_t until, const char *who) {
        const i128 exact = i128(ticks) * num, exact2 = i128(until) * num;
        const i128 fl = floordiv(exact, den), fl2 = floordiv(exact2, den);
        const bool frac = exact - fl * den != 0, frac2 = exact2 - fl2 * den != 0;
        const uint64_t got = pos_of(t);
        const int64_t d = int64_t(got - uint64_t(fl)), d2 = int64_t(got - uint64_t(fl2));
        r.eval("T02");
        if (frac) { r.probe("sub-microsecond-source"); }
        if (d < 0 || d2 > (frac2 ? 1 : 0)) {
            r.violate({"T02"}, "error", strf("%s: source at %" PRId64 " ticks = %" PRId64 "%s us, clock reads %" PRId64 " us (error %" PRId64 " us)",
                who, ticks, int64_t(fl), frac ? ".x" : "", int64_t(got), d));
        }
        if (any && ticks >= last_ticks && int64_t(got - last) < 0) {
            r.violate({"T02"}, "backwards", strf("%s: source went from %" PRId64 " to %" PRId64 " but the clock went back by %" PRId64 " us", who, last_ticks, ticks, int64_t(last - got)));
        }
        any = true;
        last = got;
        last_ticks = until;
    }
private:
    static uint64_t pos_of(const Timepoint& t) {
        // t - epoch is not defined exactly half the range away: go through a point in between
        const auto mid = Timepoint::epoch().advance(std::chrono::microseconds(int64_t(1) << 61));
        if (t.is_before(Timepoint::epoch())) { return uint64_t((t - Timepoint::epoch()).count()); }
        return uint64_t((t - mid).count()) + (uint64_t(1) << 61);
    }
    Run& r;
    i128 num, den;
    bool any = false;
    uint64_t last = 0;
    int64_t last_ticks = 0;
};

// how the source moves
class Source {
public:
    Source(Run& r, i128 num, i128 den, int64_t most, bool may_go_back) : r(r), ch(r.ch), num(num), den(den) {
        i128 l = std::min(i128(1) << 61, i128(most));
        const i128 m = (i128(1) << 61) * den / num;
        if (m < l) { l = m; }
        lim = int64_t(l);
        origin = magnitude(ch, lim);
        if (ch.pick(3) == 2) { origin = -origin; }
        at = origin;
        style = ch.pick(5);
        backwards = may_go_back && ch.chance(1, 2);
    }
    int64_t next() {
        int64_t step = 0;
        switch (style) {
        case 0: step = magnitude(ch, 100000); break;
        case 1: step = ch.pick(4); break;                    // sub-microsecond steps (ns)
        case 2: step = magnitude(ch, lim / 64); break;
        case 3: step = ch.chance(1, 8) ? magnitude(ch, lim / 4) : int64_t(ch.pick(1500)); break;
        default: step = int64_t(ch.of<int>({999, 1, 1000, 1001, 0, 333, 500, 1999})); break;
        }
        if (step > 1000000000) { r.fault("clock-jump-forwards"); }
        if (backwards && ch.chance(1, 6)) {
            step = ch.pick(2) ? -step : -int64_t(ch.pick(2500));
            r.fault("clock-step-backwards");
        }
        if (step > lim - at) { step = lim - at; }
        if (step < -lim - at) { step = -lim - at; }
        at += step;
        const i128 us = i128(step) * num / den;
        if (us > 0 && us < (i128(1) << 50)) { r.now += int64_t(us); }
        return at;
    }
    // reads happen a few times per call
    int64_t clamp(int64_t step) const { return std::min(step, (lim - at) / 100); }
    int64_t at = 0, origin = 0, lim = 0;
private:
    Run& r;
    Choices& ch;
    i128 num, den;
    uint32_t style = 0;
    bool backwards = false;
};

template<typename Period, int Id, typename Rep = int64_t, bool Steady = false>
static void converter_run(Run& r, const char *name) {
    using Clk = SimClock<Period, Id, Rep, Steady>;
    using Conv = fw::clock::ChronoClockConverter<Clk>;
    auto& ch = r.ch;
    const i128 num = i128(1000000) * Period::num, den = Period::den;
    Source src(r, num, den, std::numeric_limits<Rep>::max() / 2, !Steady);
    Clk::ticks = src.at;
    Clk::step = 0;
    const bool slow = ch.chance(1, 3);
    r.log("clock with tick %s, origin %" PRId64, name, src.at);
    struct C { std::unique_ptr<Conv> conv; Tracker tr; unsigned every; };
    std::vector<C> cs;
    const unsigned steps = ch.range(2, 80), maxc = ch.range(1, 3);
    // time does not stand still during a call
    auto during = [&](auto&& f) {
        if (slow && ch.chance(1, 2)) { Clk::step = src.clamp(magnitude(ch, 5000)); r.fault("time-passes-during-a-call"); }
        const int64_t from = Clk::ticks;
        f();
        const int64_t step = std::exchange(Clk::step, 0);
        src.at = Clk::ticks;
        return std::pair{from, std::max(from, Clk::ticks - step)};
    };
    auto add = [&] {
        during([&] { cs.push_back(C{std::make_unique<Conv>(), Tracker(r, num, den), ch.range(1, 5)}); });
        r.log("converter %zu created at %" PRId64, cs.size() - 1, src.at);
    };
    add();
    auto read = [&](C& c, size_t i) {
        Timepoint t = Timepoint::epoch();
        const auto [from, until] = during([&] { t = c.conv->now(); });
        r.log("converter %zu reads %" PRId64, i, int64_t(pos(t)));
        r.step(uint32_t(i));
        c.tr.reading(t, from, until, "converted clock");
    };
    for (unsigned s = 0; s < steps; ++s) {
        Clk::ticks = src.next();
        r.log("source %" PRId64, src.at);
        if (cs.size() < maxc && ch.chance(1, 6)) { add(); }
        for (size_t i = 0; i < cs.size(); ++i) {
            if (ch.pick(cs[i].every) != 0) { continue; }        // read often or rarely
            const auto n = 1 + (ch.chance(1, 8) ? ch.pick(4) : 0);
            for (unsigned k = 0; k < n; ++k) { read(cs[i], i); }
            if (ch.chance(1, 20)) {                              // moved to another place
                r.log("converter %zu copied", i);
                cs[i].conv = std::make_unique<Conv>(*cs[i].conv);
            }
        }
        r.state(sim::mix(Id, uint64_t(src.at)));
    }
    // the error does not depend on how often it was read: all readers agree now
    for (size_t i = 0; i < cs.size(); ++i) { read(cs[i], i); }
}

// a real thread that runs only while the simulator waits for it
class Reader {
public:
    Reader() : th([this] { loop(); }) {}
    ~Reader() {
        { std::lock_guard g(m); quit = true; go = true; }
        cv.notify_all();
        th.join();
    }
    Timepoint read() {
        std::unique_lock g(m);
        go = true;
        done = false;
        cv.notify_all();
        cv.wait(g, [this] { return done; });
        return value;
    }
private:
    void loop() {
        std::unique_lock g(m);
        for (;;) {
            cv.wait(g, [this] { return go; });
            if (quit) { return; }
            go = false;
            value = fw::clock::steady_clock_now();
            done = true;
            cv.notify_all();
        }
    }
    std::mutex m;
    std::condition_variable cv;
    bool go = false, done = false, quit = false;
    Timepoint value = Timepoint::epoch();
    std::thread th;
};

static void steady_run(Run& r) {
    auto& ch = r.ch;
    const i128 num = 1000000, den = 1000000000;
    Source src(r, num, den, INT64_MAX, true);
    // the system's steady clock never goes backwards: only the origin is arbitrary
    g_steady = src.at;
    g_steady_step = 0;
    const bool slow = ch.chance(1, 3);
    const unsigned nthreads = ch.range(1, 3), steps = ch.range(2, 50);
    struct T { std::unique_ptr<Reader> rd; Tracker tr; unsigned every; };
    std::vector<std::unique_ptr<T>> ts;
    r.log("steady clock, origin %" PRId64 " ns", src.at);
    for (unsigned s = 0; s < steps; ++s) {
        const int64_t v = src.next();
        if (v > g_steady) { g_steady = v; }
        r.log("source %" PRId64, g_steady);
        if (ts.empty() || (ts.size() < nthreads && ch.chance(1, 5))) {
            ts.push_back(std::make_unique<T>(std::make_unique<Reader>(), Tracker(r, num, den), ch.range(1, 4)));
            r.probe("thread-started");
        }
        for (size_t i = 0; i < ts.size(); ++i) {
            if (ch.pick(ts[i]->every) != 0) { continue; }
            if (slow && ch.chance(1, 2)) { g_steady_step = src.clamp(magnitude(ch, 5000)); r.fault("time-passes-during-a-call"); }
            const int64_t from = g_steady;
            const auto t = ts[i]->rd->read();
            const int64_t until = std::max(from, g_steady - std::exchange(g_steady_step, 0));
            r.log("thread %zu reads %" PRId64, i, int64_t(pos(t)));
            r.step(uint32_t(100 + i));
            ts[i]->tr.reading(t, from, until, "steady clock");
        }
        if (ts.size() > 1 && ch.chance(1, 25)) {
            const auto i = ch.pick(uint32_t(ts.size()));
            r.log("thread %u ends", i);
            ts.erase(ts.begin() + long(i));
            r.fault("thread-crash-and-restart");
        }
        r.state(sim::mix(77, uint64_t(g_steady)));
    }
}

static void scenario(Run& r) {
    if (r.prop == "T01") { Points(r).run(); return; }
    switch (r.ch.pick(13)) {
    case 0: converter_run<std::nano, 0>(r, "1 ns"); break;
    case 1: converter_run<std::ratio<1, 10000000>, 1>(r, "100 ns"); break;
    case 2: converter_run<std::micro, 2>(r, "1 us"); break;
    case 3: converter_run<std::milli, 3>(r, "1 ms"); break;
    case 4: converter_run<std::centi, 4>(r, "10 ms"); break;
    case 5: converter_run<std::deci, 5>(r, "100 ms"); break;
    case 6: converter_run<std::ratio<1>, 6>(r, "1 s"); break;
    case 7: converter_run<std::ratio<1, 100000000>, 7>(r, "10 ns"); break;
    case 8: converter_run<std::pico, 8>(r, "1 ps"); break;
    case 9: converter_run<std::milli, 9, int32_t>(r, "1 ms (32 bit)"); break;
    case 10: converter_run<std::nano, 10, int64_t, true>(r, "1 ns (steady)"); break;
    default: steady_run(r); break;
    }
}

}

int main(int argc, char **argv) { return sim::sim_main(argc, argv, kw::scenario); }
