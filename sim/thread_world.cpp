// P01: several users of the library in one process, each on a thread of its
// own and sharing nothing. Every user is one complete simulated world (STUN
// clients and servers, RTP receivers, ICE agents, lists, time points) or reads
// the steady clock; the simulator decides after every few choices of a user
// (also in the middle of a call, when the library asks for randomness) which
// thread goes on. Only one thread runs at a time, but the hand-over is
// invisible to the race detector: an access two users make to the same memory
// without synchronisation of the library's own is reported in every schedule.
#define main stun_main
#include "stun_world.cpp"
#undef main
#define main rtp_main
#include "rtp_world.cpp"
#undef main
#define main ice_main
#include "ice_world.cpp"
#undef main
#define main ilist_main
#include "ilist_world.cpp"
#undef main
#define main clock_main
#define SIM_INVISIBLE __attribute__((no_sanitize("thread"), noinline))
#include "clock_world.cpp"
#undef main

#include <linux/futex.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace tw {

using sim::Choices;
using sim::Run;
using sim::Totals;
using sim::strf;

// ------------------------------------------------- what nobody else may see
static int g_turn = -1;                     // whose turn it is; -1: the simulator's
static int g_left[8];                       // choices until the user has to pause
static bool g_done[8];
static thread_local int t_me = -1;

SIM_INVISIBLE static void futex(int op, int v) { syscall(SYS_futex, &g_turn, op, v, nullptr, nullptr, 0); }
SIM_INVISIBLE static void pass(int to) {
    __atomic_store_n(&g_turn, to, __ATOMIC_SEQ_CST);
    futex(FUTEX_WAKE_PRIVATE, 1 << 20);
}
SIM_INVISIBLE static void await(int me) {
    for (;;) {
        const int v = __atomic_load_n(&g_turn, __ATOMIC_SEQ_CST);
        if (v == me) { return; }
        futex(FUTEX_WAIT_PRIVATE, v);
    }
}
SIM_INVISIBLE static void start_slice(int i, int n) { g_left[i] = n; }
SIM_INVISIBLE static void set_done(int i, bool d) { g_done[i] = d; }
SIM_INVISIBLE static bool is_done(int i) { return g_done[i]; }
SIM_INVISIBLE static void tick(std::int64_t by) { g_steady += by; }
SIM_INVISIBLE static std::int64_t steady() { return g_steady; }
// called by a user before each of its choices
SIM_INVISIBLE static void yield() {
    if (t_me < 0 || --g_left[t_me] > 0) { return; }
    pass(-1);
    await(t_me);
}

// --------------------------------------------------------------------- users
struct User {
    int kind = 0;
    uint64_t seed = 0;
    std::string prop;
    // outcome
    uint64_t hash = 0;
    std::string end, wrong;
    std::vector<std::string> lines;
};
static const char *const kinds[] = {"stun", "rtp", "ice", "ilist", "points", "clock"};
static const char *const stun_props[] = {"C01", "C06", "C08", "S01", "S02", "H01", "H02", "W02", "W03", "C10"};

// Reads the clock of the system: what it reads is not part of the history
static void read_clock(Run& r) {
    kw::Tracker tr(r, 1000000, 1000000000);
    for (unsigned n = r.ch.range(2, 60); n > 0; --n) {
        const auto from = steady();
        const auto t = freewebrtc::clock::steady_clock_now();
        tr.reading(t, from, steady(), "steady clock");
        r.ch.pick(2);
    }
}

static void live(User& u, bool text) {
    auto ch = Choices::prng(u.seed);
    ch.on_pick(yield);
    Totals tot;
    Run r(ch, u.prop, tot, false);
    r.keep_lines = text;
    try {
        switch (u.kind) {
        case 0: ws::scenario(r); break;
        case 1: rw::World(r).run(); break;
        case 2: iw::World(r).run(); break;
        case 3: lw::World(r).run(); break;
        case 4: kw::Points(r).run(); break;
        default: read_clock(r); break;
        }
        u.end = "end";
    } catch (sim::Violation& v) {
        u.end = v.prop + " " + v.cls + ": " + v.msg;
        if (u.kind == 5) { u.wrong = v.msg; }
    } catch (sim::Abandon& a) { u.end = "abandoned: " + a.why; }
    u.hash = r.log_hash();
    u.lines = std::move(r.lines);
}

// All users of v, one slice at a time
static void together(Run& r, std::vector<User>& v, bool alone) {
    std::vector<std::thread> ts;
    const int n = int(v.size());
    for (int i = 0; i < n; ++i) {
        set_done(i, false);
        start_slice(i, 1 << 30);
        User *u = &v[size_t(i)];
        ts.emplace_back([u, i, keep = r.text] {
            await(i);
            t_me = i;
            live(*u, keep);
            t_me = -1;
            set_done(i, true);
            pass(-1);
        });
    }
    std::vector<int> on;
    for (int i = 0; i < n; ++i) { on.push_back(i); }
    const uint32_t most = alone ? 1 : r.ch.of<uint32_t>({30, 3, 300, 3000});
    uint64_t slices = 0;
    while (!on.empty()) {
        const size_t k = alone ? 0 : r.ch.pick(uint32_t(on.size()));
        const int i = on[k];
        const int slice = alone || slices > 3000 ? 1 << 30 : int(r.ch.range(1, most));
        if (!alone) {
            slices++;
            r.step(uint32_t(i));
            r.state(sim::mix(uint64_t(i), uint64_t(v[size_t(i)].kind)));
            tick(int64_t(r.ch.pick(3000)));
            r.fault("preemption");
        }
        start_slice(i, slice);
        pass(i);
        await(-1);
        if (is_done(i)) {
            on.erase(on.begin() + long(k));
            if (!alone) { r.log("user %d is done", i); }
        }
    }
    for (auto& t : ts) { t.join(); }
    if (!alone) { r.now += int64_t(slices); }
}

static void scenario(Run& r) {
    auto& ch = r.ch;
    tick(-steady());
    tick(int64_t(ch.pick(2000000000)) * 1000);
    const unsigned n = ch.range(2, 4);
    std::vector<User> us;
    // users of the same kind are the ones that meet
    const int common = int(ch.weighted({6, 2, 2, 1, 1, 2}));
    for (unsigned i = 0; i < n; ++i) {
        User u;
        u.kind = ch.chance(1, 3) ? int(ch.pick(6)) : common;
        u.seed = ch.pick(0xFFFFFFFFu);
        u.prop = u.kind == 0 ? ch.of<const char *>({stun_props[0], stun_props[1], stun_props[2], stun_props[3], stun_props[4], stun_props[5], stun_props[6], stun_props[7], stun_props[8], stun_props[9]})
            : u.kind == 1 ? "R01" : u.kind == 2 ? ch.of<const char *>({"I01", "I02", "I03"}) : u.kind == 3 ? "L01" : u.kind == 4 ? "T01" : "T02";
        us.push_back(u);
    }
    // each one alone first
    for (auto& u : us) {
        std::vector<User> one{u};
        together(r, one, true);
        u = one[0];
    }
    auto both = us;
    together(r, both, false);
    for (unsigned i = 0; i < n; ++i) {
        r.eval("P01");
        const auto& a = us[i];
        const auto& b = both[i];
        r.log("user %u: %s seed %" PRIu64 " %s: %s %016" PRIx64, i, kinds[a.kind], a.seed, a.prop.c_str(), b.end.c_str(), b.hash);
        if (a.end != "end") { r.probe("user-that-ends-early"); }
        if (a.kind == 5) {
            if (!a.wrong.empty() || !b.wrong.empty()) { r.violate({"P01"}, "clock", "a thread reading the clock: " + (b.wrong.empty() ? a.wrong : b.wrong)); }
            continue;
        }
        if (a.hash == b.hash && a.end == b.end) { continue; }
        std::string where;
        for (size_t k = 0; k < std::min(a.lines.size(), b.lines.size()); ++k) {
            if (a.lines[k] != b.lines[k]) { where = ": alone '" + a.lines[k].substr(0, 200) + "', together '" + b.lines[k].substr(0, 200) + "'"; break; }
        }
        r.violate({"P01"}, "interference", strf("user %u (%s) does not experience what it experiences alone (%s / %s)", i, kinds[a.kind], a.end.substr(0, 200).c_str(), b.end.substr(0, 200).c_str()) + where);
    }
}

}

int main(int argc, char **argv) { return sim::sim_main(argc, argv, tw::scenario); }
