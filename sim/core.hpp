// Deterministic simulation core: choice source, event log, violations,
// coverage counters and the command line protocol of the simulators.
//
// Everything a run decides (configuration, schedule, faults, data) is a
// sequence of choices "pick(n)". A run is therefore a pure function of its
// choice sequence and of the code under test. Choice 0 is always the
// simplest / most benign alternative, an exhausted sequence yields zeros.
#pragma once

#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace sim {

using Bytes = std::vector<uint8_t>;

struct Violation {
    std::string prop;
    std::string cls;  // class of the violation: stays the same during minimisation
    std::string msg;
};
struct Abandon {
    std::string why;
};

// ---------------------------------------------------------------- choices
class Choices {
public:
    static Choices prng(uint64_t seed) {
        Choices c;
        c.m_replay = false;
        c.m_s = seed;
        return c;
    }
    static Choices replay(std::vector<uint32_t> v) {
        Choices c;
        c.m_replay = true;
        c.m_rec = std::move(v);
        return c;
    }
    uint32_t pick(uint32_t n) {
        if (n <= 1) { return 0; }
        if (m_on_pick) { m_on_pick(); }
        uint32_t r;
        if (m_replay) {
            r = m_pos < m_rec.size() ? m_rec[m_pos] : 0;
            if (r >= n) { r = n - 1; }
            m_pos++;
            m_ret.push_back(r);
        } else {
            r = uint32_t((uint64_t(uint32_t(next64() >> 32)) * n) >> 32);
            m_rec.push_back(r);
            if (m_tee) { fprintf(m_tee, "%u\n", r); fflush(m_tee); }
            m_pos++;
        }
        return r;
    }
    // true with probability num/den, false is the simple case
    bool chance(uint32_t num, uint32_t den) {
        if (num == 0) { return false; }
        return pick(den) >= den - num;
    }
    uint32_t range(uint32_t lo, uint32_t hi) { return lo + pick(hi - lo + 1); }
    uint64_t range64(uint64_t lo, uint64_t hi) {
        uint64_t span = hi - lo;
        if (span < 0xFFFFFFFFull) { return lo + pick(uint32_t(span) + 1); }
        uint64_t v = (uint64_t(pick(0xFFFFFFFFu)) << 32) | pick(0xFFFFFFFFu);
        return span == ~0ull ? v : lo + v % (span + 1);
    }
    size_t weighted(std::initializer_list<uint32_t> w) {
        uint32_t sum = 0;
        for (auto x : w) { sum += x; }
        uint32_t r = pick(sum);
        size_t i = 0;
        for (auto x : w) {
            if (r < x) { return i; }
            r -= x;
            i++;
        }
        return 0;
    }
    template<typename T> T of(std::initializer_list<T> l) { return *(l.begin() + pick(uint32_t(l.size()))); }
    uint8_t byte() { return uint8_t(pick(256)); }
    uint32_t u32() { return (pick(65536) << 16) | pick(65536); }
    Bytes bytes(size_t n) {
        Bytes b(n);
        for (auto& x : b) { x = byte(); }
        return b;
    }
    // n pseudo-random bytes derived from one choice (for bulk data)
    Bytes bulk(size_t n) {
        uint64_t s = pick(65536);
        Bytes b(n);
        for (auto& x : b) { s = s * 6364136223846793005ull + 1442695040888963407ull; x = s ? uint8_t(s >> 56) : 0; }
        return b;
    }
    const std::vector<uint32_t>& record() const { return m_rec; }
    size_t used() const { return m_pos; }
    // the values handed out since the given position
    std::vector<uint32_t> returned(size_t from) const {
        const auto& v = m_replay ? m_ret : m_rec;
        return std::vector<uint32_t>(v.begin() + long(std::min(from, v.size())), v.end());
    }
    void tee(FILE *f) { m_tee = f; }
    void on_pick(void (*f)()) { m_on_pick = f; }   // before every choice
private:
    Choices() = default;
    uint64_t next64() {  // splitmix64
        uint64_t z = (m_s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    bool m_replay = false;
    uint64_t m_s = 0;
    std::vector<uint32_t> m_rec, m_ret;
    size_t m_pos = 0;
    FILE *m_tee = nullptr;
    void (*m_on_pick)() = nullptr;
};

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    auto *b = static_cast<const uint8_t *>(p);
    for (size_t i = 0; i < n; ++i) { h = (h ^ b[i]) * 1099511628211ull; }
    return h;
}
inline uint64_t mix(uint64_t h, uint64_t v) { return fnv(&v, sizeof v, h); }

inline std::string hex(const uint8_t *p, size_t n, size_t max = 4096) {
    static const char *d = "0123456789abcdef";
    std::string s;
    for (size_t i = 0; i < n && i < max; ++i) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
    if (n > max) { s += "..."; }
    return s;
}
inline std::string hex(const Bytes& b, size_t max = 4096) { return hex(b.data(), b.size(), max); }

inline std::string strf(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string strf(const char *f, ...) {
    char buf[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

// Work: bytes of heap asked for since the process started. Unlike time it is
// the same in every repetition of a run.
uint64_t heap_bytes();
uint64_t freed_bytes();   // likewise, bytes given back
// One datagram of n bytes must not cost more than this (in proportion to its
// size with a wide margin; what grows with the square of it exceeds it)
inline uint64_t work_limit(size_t n) { return (2u << 20) + 4000 * uint64_t(n); }

// -------------------------------------------------------------- run context
struct Totals {
    uint64_t runs = 0, abandoned = 0, events = 0, relevant_runs = 0;
    double sim_seconds = 0;
    std::map<std::string, uint64_t> faults, probes, evals, abandon_why;
    std::unordered_set<uint64_t> traces, relevant_traces, states;
};

class Run {
public:
    Run(Choices& c, std::string prop, Totals& t, bool text)
        : ch(c), prop(std::move(prop)), tot(t), text(text) {}
    Choices& ch;
    const std::string prop;
    Totals& tot;
    const bool text;

    int64_t now = 0;  // simulated microseconds

    void log(const char *f, ...) __attribute__((format(printf, 2, 3))) {
        char buf[1024];
        va_list ap;
        va_start(ap, f);
        int n = vsnprintf(buf, sizeof buf, f, ap);
        va_end(ap);
        if (n < 0) { n = 0; }
        if (n >= int(sizeof buf)) { n = sizeof buf - 1; }
        m_log_hash = fnv(buf, size_t(n), mix(m_log_hash, uint64_t(now)));
        m_events++;
        if (text) { fprintf(stdout, "%14.6f  %s\n", double(now) / 1e6, buf); fflush(stdout); }
        if (keep_lines) { lines.push_back(strf("%" PRId64 " ", now) + buf); }
    }
    // kind of event for the measure of distinct interleavings
    void step(uint32_t kind) { m_trace = mix(m_trace, kind); }
    void state(uint64_t s) { m_states.push_back(s); }
    void fault(const char *kind) { tot.faults[kind]++; m_faults++; }
    void probe(const char *name) { tot.probes[name]++; }
    // an oracle for property p was evaluated in a situation where it matters
    void eval(const char *p) {
        m_evals[p]++;
    }
    bool wants(const char *p) const { return prop == p; }

    // Report a violation. tags: the properties whose statements it breaks.
    // The run goes on only if it is not the property this check decides.
    bool violate(std::initializer_list<const char *> tags, const char *cls, const std::string& msg) {
        std::string t;
        for (auto *x : tags) { t += x; t += ' '; }
        log("!! [%s] %s: %s", t.c_str(), cls, msg.c_str());
        for (auto *x : tags) {
            if (prop == x || prop == "ALL") { throw Violation{x, cls, msg}; }
        }
        return false;
    }
    void violate_v(const std::vector<const char *>& tags, const char *cls, const std::string& msg) {
        std::string t;
        for (auto *x : tags) { t += x; t += ' '; }
        log("!! [%s] %s: %s", t.c_str(), cls, msg.c_str());
        for (auto *x : tags) {
            if (prop == x || prop == "ALL") { throw Violation{x, cls, msg}; }
        }
    }
    void work(const char *who, size_t n, uint64_t before) {
        const uint64_t used = heap_bytes() - before;
        eval("W03");
        if (used > work_limit(n)) {
            violate({"W03"}, "disproportionate-work", strf("%s asks for %" PRIu64 " bytes of heap to process a datagram of %zu bytes", who, used, n));
        }
    }
    [[noreturn]] void abandon(const std::string& why) { throw Abandon{why}; }

    uint64_t log_hash() const { return m_log_hash; }
    void finish() {
        tot.runs++;
        tot.events += m_events;
        tot.sim_seconds += double(now) / 1e6;
        tot.traces.insert(m_trace);
        for (auto s : m_states) { if (tot.states.size() < 2000000) { tot.states.insert(s); } }
        auto it = m_evals.find(prop);
        if (prop == "ALL" || (it != m_evals.end() && it->second > 0)) {
            tot.relevant_runs++;
            tot.relevant_traces.insert(m_trace);
        }
        for (auto& [k, v] : m_evals) { tot.evals[k] += v; }
    }
    bool keep_lines = false;
    std::vector<std::string> lines;
private:
    uint64_t m_log_hash = 1469598103934665603ull;
    uint64_t m_trace = 1469598103934665603ull;
    uint64_t m_events = 0, m_faults = 0;
    std::vector<uint64_t> m_states;
    std::map<std::string, uint64_t> m_evals;
};

// Implemented by each simulator: one complete simulated execution.
using Scenario = std::function<void(Run&)>;

int sim_main(int argc, char **argv, const Scenario&);

}
