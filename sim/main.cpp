// Command line protocol of the simulators:
//   SIM run PROP --seed S --from A --step B --count N --time T --out OUT --mark MARK
//       runs number A, A+B, ... (each from its own PRNG seed), stops after N
//       runs or T seconds; OUT gets a summary (and the violation, if any),
//       MARK always names the run in progress (to attribute crashes / hangs)
//       --fork: every run in a process of its own (used when the code under
//       test turns out to carry state from one run to the next)
//   SIM one PROP --seed S --index I [--tee FILE] [--text]
//   SIM replay PROP --choices FILE [--text]
// Exit status: 0 clean, 3 violation, anything else: crash of the code under test.
#include "core.hpp"
#include <chrono>
#include <fcntl.h>
#include <fstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>

#include <unistd.h>

// of the sanitizer's runtime library
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *);

namespace sim {

#ifdef SIM_THREADS
#define PER_THREAD thread_local    // the worlds of several threads count for themselves
#else
#define PER_THREAD
#endif
static PER_THREAD uint64_t g_heap_bytes = 0, g_freed_bytes = 0;
static void on_malloc(const volatile void *, size_t n) { g_heap_bytes += n; }
static void on_free(const volatile void *p) { if (p) { g_freed_bytes += __sanitizer_get_allocated_size(p); } }
uint64_t heap_bytes() { return g_heap_bytes; }
uint64_t freed_bytes() { return g_freed_bytes; }
static int64_t live_bytes() { return int64_t(g_heap_bytes) - int64_t(g_freed_bytes); }

static uint64_t run_seed(const std::string& prop, uint64_t seed, uint64_t idx) {
    uint64_t h = fnv(prop.data(), prop.size());
    return mix(mix(h, seed), idx);
}

static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c < 32 || c > 126) { o += strf("\\u%04x", c); }
        else { o += char(c); }
    }
    return o + "\"";
}
static std::string jmap(const std::map<std::string, uint64_t>& m) {
    std::string o = "{";
    for (auto& [k, v] : m) { if (o.size() > 1) { o += ","; } o += jstr(k) + ":" + strf("%" PRIu64, v); }
    return o + "}";
}
static void dump_set(const std::string& path, const std::unordered_set<uint64_t>& s) {
    std::ofstream f(path, std::ios::binary);
    for (auto v : s) { f.write(reinterpret_cast<const char *>(&v), sizeof v); }
}

struct Outcome {
    bool violated = false, abandoned = false;
    Violation v;
    std::string why;
    uint64_t hash = 0;
};

static Outcome run_one(Choices& ch, const std::string& prop, Totals& tot, bool text, const Scenario& sc) {
    Run r(ch, prop, tot, text);
    Outcome o;
    try {
        sc(r);
    } catch (Violation& v) {
        o.violated = true;
        o.v = v;
    } catch (Abandon& a) {
        o.abandoned = true;
        o.why = a.why;
        tot.abandoned++;
        tot.abandon_why[a.why]++;
    }
    if (prop == "M01") { r.eval("M01"); }
    r.finish();
    o.hash = r.log_hash();
    return o;
}

// A run, and for M01 whether it gives back all memory: repeated until nothing
// is allocated for the first time any more, each repetition of a run that leaks
// takes the same number of bytes for good.
static Outcome run_prop(Choices& ch, const std::string& prop, Totals& tot, bool text, const Scenario& sc) {
    Outcome o = run_one(ch, prop, tot, text, sc);
    if (o.violated || prop != "M01") { return o; }
    static Totals scratch;
    const auto rec = ch.record();
    auto again = [&] {
        const int64_t before = live_bytes();
        {
            auto c = Choices::replay(rec);
            run_one(c, prop, scratch, false, sc);
        }
        return live_bytes() - before;
    };
    again();
    int64_t a = again();
    if (a <= 0) { return o; }
    a = again();
    const int64_t b = again();
    if (a > 0 && a == b) {
        o.violated = true;
        o.v = Violation{"M01", "leak", strf("%" PRId64 " bytes of heap are never returned", a)};
    }
    return o;
}

int sim_main(int argc, char **argv, const Scenario& sc) {
    if (argc < 3) { fprintf(stderr, "usage\n"); return 2; }
    if (!__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free)) { fprintf(stderr, "no malloc hooks\n"); return 2; }
    const std::string cmd = argv[1], prop = argv[2];
    std::map<std::string, std::string> o;
    bool text = false, forked = false;
    for (int i = 3; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--text") { text = true; continue; }
        if (a == "--fork") { forked = true; continue; }
        if (i + 1 < argc) { o[a] = argv[++i]; }
    }
    auto num = [&](const char *k, uint64_t d) { return o.count(k) ? strtoull(o[k].c_str(), nullptr, 10) : d; };
    Totals tot;
    if (cmd == "replay") {
        std::ifstream f(o["--choices"]);
        std::vector<uint32_t> v;
        uint32_t x;
        while (f >> x) { v.push_back(x); }
        auto ch = Choices::replay(v);
        auto out = run_prop(ch, prop, tot, text, sc);
        printf("HASH %016" PRIx64 " USED %zu\n", out.hash, ch.used());
        if (out.abandoned) { printf("ABANDONED %s\n", out.why.c_str()); }
        if (out.violated) {
            printf("VIOLATED %s %s: %s\n", out.v.prop.c_str(), out.v.cls.c_str(), out.v.msg.c_str());
            return 3;
        }
        return 0;
    }
    if (cmd == "one") {
        auto ch = Choices::prng(run_seed(prop, num("--seed", 1), num("--index", 0)));
        FILE *tee = nullptr;
        if (o.count("--tee")) { tee = fopen(o["--tee"].c_str(), "w"); ch.tee(tee); }
        auto out = run_prop(ch, prop, tot, text, sc);
        if (tee) { fclose(tee); }
        printf("HASH %016" PRIx64 " USED %zu\n", out.hash, ch.used());
        if (out.abandoned) { printf("ABANDONED %s\n", out.why.c_str()); }
        if (out.violated) {
            printf("VIOLATED %s %s: %s\n", out.v.prop.c_str(), out.v.cls.c_str(), out.v.msg.c_str());
            return 3;
        }
        return 0;
    }
    if (cmd != "run") { return 2; }
    const uint64_t seed = num("--seed", 1), from = num("--from", 0), step = num("--step", 1), count = num("--count", 1);
    const double limit = double(num("--time", 1000000));
    const std::string outp = o["--out"];
    volatile uint64_t *mark = nullptr;
    if (o.count("--mark")) {
        int fd = open(o["--mark"].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        uint64_t init[2] = {~0ull, 0};
        if (write(fd, init, sizeof init) != sizeof init) { return 2; }
        mark = static_cast<uint64_t *>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    }
    const auto t0 = std::chrono::high_resolution_clock::now();
    auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::high_resolution_clock::now() - t0).count(); };
    Outcome bad;
    uint64_t bad_idx = 0, redo = 0;
    std::vector<uint32_t> bad_choices;
    std::string hashes;
    for (uint64_t k = 0; k < count; ++k) {
        if ((k & 15) == 0 && elapsed() > limit) { break; }
        const uint64_t idx = from + k * step;
        if (mark) { mark[0] = idx; mark[1] = k; }
        if (forked) {
            const pid_t pid = fork();
            if (pid < 0) { return 2; }
            if (pid != 0) {
                int st = 0;
                while (waitpid(pid, &st, 0) < 0) {}
                tot.runs++;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { continue; }
                if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { return 3; }   // the child wrote OUT
                return 5;                                                  // crash, see MARK
            }
        }
        auto ch = Choices::prng(run_seed(prop, seed, idx));
        auto out = run_prop(ch, prop, tot, false, sc);
        if (forked && !out.violated) { _exit(0); }
        if (idx < 64) { hashes += strf("%s\"%" PRIu64 "\":\"%016" PRIx64 "\"", hashes.empty() ? "" : ",", idx, out.hash); }
        if (out.violated) { bad = out; bad_idx = idx; bad_choices = ch.record(); break; }
        if (k % 50 == 7) {  // determinism: the recorded choices replay to the same log
            Totals scratch;
            auto ch2 = Choices::replay(ch.record());
            auto out2 = run_one(ch2, prop, scratch, false, sc);
            redo++;
            if (out2.hash != out.hash) {
                fprintf(stderr, "NONDETERMINISM in run %" PRIu64 "\n", idx);
                return 4;
            }
        }
    }
    if (mark) { mark[0] = ~0ull; }
    std::ofstream f(outp);
    f << "{\"runs\":" << tot.runs << ",\"relevant_runs\":" << tot.relevant_runs << ",\"abandoned\":" << tot.abandoned
      << ",\"events\":" << tot.events << ",\"sim_seconds\":" << strf("%.3f", tot.sim_seconds)
      << ",\"wall\":" << strf("%.3f", elapsed()) << ",\"replayed_for_determinism\":" << redo
      << ",\"faults\":" << jmap(tot.faults) << ",\"probes\":" << jmap(tot.probes) << ",\"evals\":" << jmap(tot.evals)
      << ",\"abandon_why\":" << jmap(tot.abandon_why) << ",\"hashes\":{" << hashes << "}";
    if (bad.violated) {
        f << ",\"violation\":{\"index\":" << bad_idx << ",\"prop\":" << jstr(bad.v.prop) << ",\"cls\":" << jstr(bad.v.cls)
          << ",\"msg\":" << jstr(bad.v.msg) << ",\"hash\":" << jstr(strf("%016" PRIx64, bad.hash)) << "}";
        std::ofstream c(outp + ".choices");
        for (auto x : bad_choices) { c << x << "\n"; }
    }
    f << "}\n";
    dump_set(outp + ".traces", tot.relevant_traces);
    dump_set(outp + ".states", tot.states);
    f.close();
    return bad.violated ? 3 : 0;
}

}
