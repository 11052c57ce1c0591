// One STUN client under simulation: the real ClientUDP run in lock step with
// a small executable reference model of the behaviour the properties state.
#pragma once

#include "stun_common.hpp"
#include <deque>
#include <memory>

namespace ws {

using I64 = int64_t;

struct ClientConfig {
    bool fingerprint = true;
    std::optional<I64> max_rto;
    unsigned rc = 7, rm = 16;
    std::optional<I64> t5xx;
    unsigned n5xx = 4;
    I64 initial_rto = 500000;
    I64 history = 3600000000ll;
    bool allow_unauth_alternate = false;
    int tid_hash = 0;  // 0 default, 1 constant, 2 few buckets
    std::string str() const;
};

struct Credentials {
    std::string user;
    Bytes password;
};

// What an application asks for
struct RequestSpec {
    Bytes src, dst;                       // network path
    std::vector<ref::Attr> attrs;         // attributes beyond the defaults
    std::optional<Credentials> cred;
};

// A random device whose quality the simulation decides
struct SimRandom {
    Choices *ch = nullptr;
    int mode = 0;  // 0 good, 1 repeats words
    unsigned drawn = 0;
    std::vector<uint32_t> words;
    uint64_t good = 0;
    uint32_t operator()();
};

struct OutcomeM {
    enum Kind { Ok, Ucr, UnknownReported, Alternate, Code, Error, Timeout } k = Timeout;
    Addr addr;
    std::vector<uint16_t> types;
    unsigned code = 0;
    std::string reason;
    std::optional<ref::Msg> msg;
    std::optional<I64> rtt;
    bool rtt_fuzzy = false;
    std::optional<Addr> truth;  // what the answering server really saw
    std::string str() const;
};

struct TxM {
    unsigned hnd = 0;
    Bytes tid;
    bool tid_seen = false;
    std::string path;
    I64 create = 0;
    std::optional<Credentials> cred;
    RequestSpec spec;
    unsigned rtx = 0, n5 = 0;
    I64 init_rto = 0, last_to = 0, due = 0, prev_due = 0;
    bool fuzzy = false;      // its timing is not determined by the properties
    bool measured = false;   // initial timeout was learned
    bool finished = false;   // an outcome has been decided
    bool must_succeed = false;
    std::deque<std::optional<OutcomeM>> pending;  // nullopt: transmission
    Bytes data;
    std::vector<std::pair<const uint8_t *, size_t>> views;
    unsigned sends = 0;
    unsigned late = 0;       // responses between decision and delivery
    bool hash_failed = false;
    I64 bound = 0;           // worst case total of its waits
    I64 late0 = 0;           // how late the caller had polled in total when it was created
};

struct PathE {
    enum S { None, Known, Unknown } smooth = None;
    I64 srtt = 0, rttvar = 0;
    std::optional<I64> backoff;
    I64 last_update = 0;
};

// A datagram's identity in the simulation
struct Origin {
    std::optional<Addr> truth;   // honest server: source it saw for the request
    bool intact = true;          // not modified on the way
};

class ClientNode {
public:
    ClientNode(Run& r, std::string name, const ClientConfig&, I64 origin);
    ~ClientNode();

    // all times are the client's own clock readings relative to its origin
    void restart();
    bool create(I64 now, const RequestSpec&, SimRandom&, int hash_fail, bool must_succeed = false);
    void response(I64 now, const Bytes&, const Origin&, bool preparsed, int hash_fail);
    struct Polled {
        enum Kind { Send, Outcome, Sleep, Idle } k;
        unsigned hnd = 0;
        Bytes data;
        std::string path;
        I64 sleep = 0;
    };
    Polled poll(I64 now);

    bool has_pending() const;
    size_t live() const;
    bool lenient() const { return m_lenient; }
    void set_lenient() { m_lenient = true; }
    void set_hostile() { m_hostile = true; m_lenient = true; }
    bool hostile() const { return m_hostile; }
    bool deadlines_known() const { return m_max_deadline != INT64_MAX && !m_blind; }
    uint64_t state_hash(I64 now) const;
    std::optional<I64> schedule_of(unsigned hnd) const;  // sum of waits without answers
    I64 worst_bound() const;
    I64 expected_rto(const std::string& path, I64 now) const;
    const std::map<unsigned, TxM>& txs() const { return m_tx; }
    const ClientConfig& config() const { return m_cfg; }
    const std::string& name() const { return m_name; }
    size_t created = 0, succeeded = 0, failed = 0;
    std::set<unsigned> must;     // handles that have to succeed
    static std::string path_key(const RequestSpec& s) { return sim::hex(s.src) + ">" + sim::hex(s.dst); }
    void final_checks();
    void retained();             // what an idle client still holds (which ends it)
private:
    stun::ClientUDP::Timepoint tp(I64 now) const;
    void fresh();
    void mismatch(std::vector<const char *> tags, const char *cls, const std::string& msg);
    void fire(I64 now);
    void set_due(TxM&, I64 due);
    std::vector<const char *> sched_tags(const TxM&, std::initializer_list<const char *>) const;
    void check_views(const char *when);
    void check_request(const TxM&);
    void check_age(I64 now);
    void on_send(unsigned hnd, const fw::util::ConstBinaryView&, Polled&);
    void on_outcome(unsigned hnd, const OutcomeM& got, const stun::Message *msg, I64 now);
    void new_rtt(I64 now, const std::string& path, I64 rtt);
    void backoff(I64 now, const std::string& path, I64 v);
    struct RtoAnswer { I64 value; bool certain; bool measured; };
    RtoAnswer rto(const std::string& path, I64 now) const;
    void finish(TxM&, OutcomeM&&);
    std::string txlog(const TxM& t) const;

    // isolation check: the same transaction alone in a client of its own
    struct Shadow {
        std::unique_ptr<stun::ClientUDP> cl;
        unsigned hnd = 0;
        bool done = false;
        std::vector<std::string> seen, main_seen;
        Bytes tid;
    };
    std::string effect_text(const stun::ClientUDP::Effect&) const;
    void shadow_poll(I64 now);
    void shadow_compare(bool drained);

    Run& r;
    std::string m_name;
    ClientConfig m_cfg;
    I64 m_origin;
    HashProvider m_hash;
    std::unique_ptr<stun::ClientUDP> m_cl;
    std::map<unsigned, TxM> m_tx;            // not delivered yet
    std::set<unsigned> m_delivered;
    std::map<std::string, PathE> m_paths;
    std::map<unsigned, Shadow> m_shadows;
    bool m_isolated = false;
    bool m_predict = true, m_verified = false;
    bool m_blind = false;
    bool m_lenient = false, m_hostile = false;
    I64 m_max_deadline = 0;
    I64 m_worst_bound = 0;
    I64 m_last_now = 0;
    I64 m_promised = 0;      // when the caller ought to poll next
    I64 m_lateness = 0;      // how late it polled, in total
    bool m_late_said = false;
    std::set<std::string> m_paths_used;
    size_t m_peak = 0, m_made = 0, m_armed_peak = 0, m_events = 0;
    std::multiset<I64> m_armed;  // timers whose time has not come
};

}
