// The STUN world: clients behind address translation, real and scripted
// servers, a hostile and unreliable network, strangers and attackers, clocks,
// crashes and failing crypto, all decided by one choice sequence.
#include "stun_client.hpp"
#include <algorithm>
#include <queue>

namespace ws {

using sim::strf;

// ------------------------------------------------------------------ profiles
// What a run emphasises. Every run also draws its own subset of fault kinds.
struct Profile {
    unsigned auth = 35;          // % of transactions with credentials
    unsigned real = 50;          // % of servers that are the repository's
    unsigned chaos = 60;         // % chance that a given fault kind is on
    unsigned strangers = 20;     // stranger requests per run (max)
    unsigned attacks = 15;       // attacker actions per run (max)
    unsigned creates = 8;        // transactions per client (max)
    unsigned e5xx = 15;          // % of scripted errors that are 5xx
    unsigned good_resp = 45;     // % of scripted answers that are honest
    unsigned hashfail = 15;      // % chance that hash failures are on
    unsigned special_cred = 15;  // % odd user names and passwords
    unsigned poor_rng = 15;
    unsigned tidhash = 15;
    unsigned storms = 6;         // % of runs with a peer repeating one response
    unsigned builds = 3;         // builder steps (max)
    unsigned legacy = 15;        // % of strangers speaking RFC 3489
    unsigned one_path = 20;      // % runs where each client sticks to one path
    bool hostile = false;        // arbitrary bytes, clocks running backwards
    bool lossy_net = false;      // mostly no answers at all
};

static Profile profile_of(const std::string& p) {
    Profile f;
    if (p == "C01") { f.attacks = 25; f.creates = 10; }
    if (p == "C03") { f.lossy_net = true; f.strangers = 0; f.attacks = 6; }
    if (p == "C04") { f.creates = 10; f.strangers = 0; f.e5xx = 35; }
    if (p == "C05") { f.real = 10; f.e5xx = 75; f.good_resp = 10; f.strangers = 0; f.auth = 20; f.storms = 25; }
    if (p == "C06") { f.real = 70; f.good_resp = 85; f.creates = 60; f.strangers = 0; f.attacks = 3; f.chaos = 35; f.one_path = 40; f.auth = 10; }
    if (p == "C07") { f.attacks = 40; f.creates = 12; f.poor_rng = 50; f.tidhash = 50; f.strangers = 0; }
    if (p == "C08") { f.auth = 90; f.attacks = 40; f.strangers = 0; f.real = 40; }
    if (p == "C09") { f.real = 5; f.good_resp = 10; f.creates = 16; f.strangers = 0; f.chaos = 30; }
    if (p == "C10") { f.good_resp = 80; f.chaos = 40; f.strangers = 5; f.creates = 14; }
    if (p == "C11") { f.chaos = 75; f.storms = 40; }
    if (p == "S01" || p == "S03") { f.strangers = 90; f.creates = 4; f.attacks = 15; f.real = 100; }
    if (p == "S02") { f.strangers = 90; f.creates = 6; f.auth = 90; f.real = 100; }
    if (p == "S04") { f.strangers = 90; f.legacy = 80; f.creates = 3; f.real = 100; }
    if (p == "W01") { f.strangers = 40; f.attacks = 40; f.chaos = 85; f.builds = 20; }
    if (p == "W02") { f.strangers = 30; f.builds = 60; f.attacks = 30; }
    if (p == "W03") { f.hostile = true; f.strangers = 40; f.attacks = 60; f.chaos = 85; f.hashfail = 40; f.special_cred = 40; f.builds = 10; }
    if (p == "W04") { f.strangers = 60; f.attacks = 30; f.chaos = 85; f.builds = 20; }
    if (p == "H01") { f.hashfail = 100; f.auth = 90; f.strangers = 40; f.real = 80; f.chaos = 30; }
    if (p == "H02") { f.special_cred = 90; f.auth = 100; f.strangers = 30; f.real = 90; f.chaos = 25; }
    return f;
}

// -------------------------------------------------------------------- world
struct Clock {
    I64 bt = 0, bl = 0;
    int ppm = 0;
    I64 at(I64 t) const { return bl + (t - bt) + (t - bt) * ppm / 1000000; }
    I64 when(I64 l) const {  // first instant with at(t) >= l
        I64 t = bt + (l - bl) * 1000000 / (1000000 + ppm) - 2;
        if (t < bt) { t = bt; }
        while (at(t) < l) { ++t; }
        return t;
    }
    void jump(I64 t, I64 d) { bl = at(t) + d; bt = t; }
};

struct Packet {
    Bytes b;
    Addr src, dst;
    Origin org;
};

struct RealServer {
    std::unique_ptr<stun::server::Stateless> srv;
    HashProvider hash;
};

struct Server {
    bool real = true, up = true, fingerprint = true, default_settings = true;
    Addr addr;
    std::vector<Credentials> users;
    RealServer rs;
    unsigned idx = 0;
};

struct Host {
    std::unique_ptr<ClientNode> cl;
    Clock clk;
    SimRandom rnd;
    int mode = 0;
    uint64_t wake = 0;
    std::vector<Bytes> local;                 // local addresses
    std::map<std::string, Addr> nat;          // local address -> external endpoint
    unsigned polls_since_event = 0;
};

class World {
public:
    World(Run& r, std::optional<I64> origin_override)
        : r(r), ch(r.ch), pf(profile_of(r.prop == "C12x" ? "C12" : r.prop)), m_override(origin_override) {}
    void run();
    static I64 pick_origin(Choices& ch);
private:
    void setup();
    void at(I64 t, std::function<void()> f) { q.emplace(std::make_pair(std::max(t, r.now), seq++), std::move(f)); }
    I64 local(Host& h) { return h.clk.at(r.now); }
    void pump(I64 until, size_t max_events);
    // hosts
    Addr nat_addr(int v6);
    Addr stranger_addr();
    std::optional<Addr> last_stranger;
    void app_create(Host&, bool heal);
    void drive(Host&);
    void poll_later(Host&, I64 t);
    void transmit(Host&, const ClientNode::Polled&);
    void to_client(Host&, const Packet&);
    // network
    void send(Packet);
    void deliver(const Packet&);
    // servers
    std::unique_ptr<stun::server::Stateless> make_server(Server&, HashProvider *);
    void to_server(Server&, const Packet&);
    void serve_real(Server&, const Packet&, int hash_fail);
    void serve_script(Server&, const Packet&);
    struct Answer { enum K { Ignore, Error, Respond } k = Ignore; bool has_message = false; std::optional<Bytes> bytes; std::string build_error; };
    // parties
    Bytes gen_request(Server&, std::string& what);
    Bytes gen_response(const Bytes& tid, const Addr& src, const std::optional<Bytes>& key, bool& honest);
    void stranger();
    void attack();
    void storm();
    void storm_tick(Host&, unsigned hnd, Bytes tid, Packet, I64 every, unsigned left);
    void builder();
    void tap(const Bytes&);
    void flood();
    Credentials gen_cred();
    std::string other_name(std::string u);
    void register_user();
    void check_answer(Server&, const Packet&, const ref::Decoded&, const Answer&, bool trig, const stun::server::Stateless::ProcessResult&);
    bool pct(unsigned p) { return ch.chance(p, 100); }
    int hash_arm() { return m_hashfail && ch.chance(1, 4) ? int(ch.range(1, 4)) : 0; }

    Run& r;
    Choices& ch;
    Profile pf;
    std::optional<I64> m_override;
    I64 m_origin = 0;
    std::map<std::pair<I64, uint64_t>, std::function<void()>> q;
    uint64_t seq = 0;
    std::vector<std::unique_ptr<Host>> hosts;
    std::vector<std::unique_ptr<Server>> servers;
    std::vector<Bytes> captured;
    std::vector<std::pair<Bytes, unsigned>> seen_requests;  // requests on the wire, server index
    I64 U = 500000;
    bool m_heal = false, m_hashfail = false;
    I64 heal_latency = 0;
    unsigned p_loss = 0, p_dup = 0, p_bits = 0, p_trunc = 0, p_extend = 0, p_splice = 0, p_tamper = 0;
    I64 base_delay = 0, jitter = 0;
    bool partition = false;
    stun::ParseStat m_stat;
    uint64_t m_tapped = 0;
    bool m_tap_only_counts = false;
    size_t m_events = 0;
    bool m_patient = false;      // a client makes hundreds of transmissions
};

I64 World::pick_origin(Choices& ch) {
    switch (ch.pick(6)) {
    case 0: return I64(ch.pick(1000000));
    case 1: return -I64(ch.range64(1, 200000000));                        // wraps around during the run
    case 2: return -I64(ch.range64(1, 20000));
    case 3: return INT64_MAX - I64(ch.range64(0, 200000000));             // passes the middle
    case 4: return I64(uint64_t(ch.u32()) << 32 | ch.u32());
    default: return INT64_MIN + I64(ch.pick(1000000));
    }
}

Credentials World::gen_cred() {
    static const char *names[] = {"alice", "bob", "evtj:h6vY", "x", "bob2", "bo", "Bob", "bob ", "alice\x01", "b\xC3\xB6" "b"};
    Credentials c;
    if (!pct(pf.special_cred)) {
        c.user = names[ch.pick(10)];
        if (ch.chance(1, 40)) { c.user += '\0'; }
        Bytes p = ch.bytes(ch.range(1, 12));
        c.password = p;
        return c;
    }
    const uint32_t ul = ch.of<uint32_t>({1, 0, 3, 4, 63, 64, 65, 128, 200, 512});
    auto u = ch.bulk(ul);
    c.user.assign(u.begin(), u.end());
    const uint32_t pl = ch.of<uint32_t>({8, 0, 1, 63, 64, 65, 66, 127, 128, 129, 500, 2000, 20});
    c.password = ch.bulk(pl);
    if (ch.chance(1, 4)) { c.password.resize(c.password.size() + ch.range(1, 3)); }  // trailing zero bytes
    return c;
}

// A user name that is almost the given one (it may be another user's)
std::string World::other_name(std::string u) {
    switch (ch.pick(6)) {
    case 1: if (!u.empty()) { u.pop_back(); } break;
    case 2: if (!u.empty()) { u[0] = char(u[0] ^ 0x20); } break;
    case 3: u += '\0'; break;
    case 4: u = " " + u; break;
    case 5: u.clear(); break;
    default: u += 'x'; break;
    }
    return u;
}

// Somebody joins while the servers are running
void World::register_user() {
    auto c = gen_cred();
    for (auto& s : servers) {
        bool dup = false;
        for (auto& x : s->users) { dup |= x.user == c.user; }
        if (dup) { continue; }
        s->users.push_back(c);
        if (s->real && s->rs.srv) {
            auto pw = stun::Password::short_term(fw::precis::OpaqueString(std::string(c.password.begin(), c.password.end())), [](const fw::crypto::SHA1Hash::Input& in) { return fw::crypto::openssl::sha1(in); });
            if (pw.is_ok()) { s->rs.srv->add_user(fw::precis::OpaqueString(c.user), pw.unwrap()); }
        }
    }
    r.probe("user-registered-later");
    r.log("user '%s' is registered", sim::hex(Bytes(c.user.begin(), c.user.end()), 24).c_str());
}

void World::setup() {
    // Origin of all client clocks
    m_origin = I64(ch.pick(1000000)) * 1000;
    if (r.prop == "C12x" || r.wants("C11") || r.wants("C04")) { m_origin = pick_origin(ch); }
    if (m_override) { m_origin = *m_override; }

    // shared user base
    std::vector<Credentials> pool;
    for (uint32_t i = ch.range(1, 3); i > 0; --i) {
        auto c = gen_cred();
        bool dup = false;
        for (auto& x : pool) { dup |= x.user == c.user; }
        if (!dup) { pool.push_back(c); }
    }
    if (ch.chance(1, r.wants("S02") ? 25 : 60)) {  // many more users whom nobody here knows
        r.fault("many-users");
        const bool near = ch.chance(1, 2) && pool[0].user.size() < 500;
        std::set<std::string> names;
        for (auto& x : pool) { names.insert(x.user); }
        for (uint32_t i = ch.of<uint32_t>({300, 70, 130, 1000}); i > 0; --i) {
            Credentials c;
            c.user = near ? pool[0].user + strf("%u", i) : strf("user%05u", ch.pick(100000));
            const std::string pw = strf("pw%u", i);
            c.password.assign(pw.begin(), pw.end());
            if (names.insert(c.user).second) { pool.push_back(c); }
        }
    }
    // servers
    const uint32_t ns = ch.range(1, 3);
    for (uint32_t i = 0; i < ns; ++i) {
        auto s = std::make_unique<Server>();
        s->idx = i;
        s->real = i == 0 || pct(pf.real);
        s->addr = gen_addr(ch, int(ch.pick(3) == 2));
        for (auto& o : servers) { if (o->addr.ip == s->addr.ip) { s->addr.ip.back() = uint8_t(s->addr.ip.back() + 1 + i); } }
        for (auto& o : servers) { if (o->addr.ip == s->addr.ip) { s->addr.ip[1] = uint8_t(s->addr.ip[1] + 1 + i); } }
        s->users = pool;
        s->fingerprint = !ch.chance(1, 4);
        s->default_settings = s->fingerprint && ch.chance(1, 2);
        if (s->real) { s->rs.srv = make_server(*s, &s->rs.hash); }
        r.log("server %u %s at %s fp=%d users=%zu", i, s->real ? "real" : "scripted", s->addr.str().c_str(), s->fingerprint, s->users.size());
        servers.push_back(std::move(s));
    }
    // clients
    const uint32_t nc = r.wants("C06") && !ch.chance(1, 5) ? 1 : ch.range(1, 3);
    for (uint32_t i = 0; i < nc; ++i) {
        ClientConfig c;
        c.fingerprint = !ch.chance(1, 4);
        c.initial_rto = ch.of<I64>({500000, 100000, 1000, 3000000, 37, 250001, 1});
        if (ch.chance(1, 3)) { c.initial_rto = I64(ch.range(1, 2000000)); }
        c.rc = ch.of<unsigned>({7, 1, 2, 3, 4, 5, 9});
        c.rm = ch.of<unsigned>({16, 1, 2, 3, 8, 30});
        if (ch.chance(1, 2)) {
            switch (ch.pick(4)) {
            case 0: c.max_rto = c.initial_rto * I64(ch.range(1, 12)); break;
            case 1: c.max_rto = std::max<I64>(1, c.initial_rto / I64(ch.range(1, 4))); break;
            case 2: c.max_rto = I64(ch.range64(1, uint64_t(c.initial_rto) * 20)); break;
            default: c.max_rto = 8000000; break;
            }
        }
        if (pct(r.wants("C05") || r.wants("C11") ? 85 : 50)) {
            c.t5xx = ch.chance(1, 2) ? I64(ch.range64(1, uint64_t(c.initial_rto) * 8)) : c.initial_rto * ch.of<I64>({1, 2, 20, 4});
            c.n5xx = ch.of<unsigned>({4, 1, 2, 0, 3, 6});
        }
        if (ch.chance(1, 150)) {  // a client that is told never to give up early
            c.rc = ch.of<unsigned>({40, 260, 300, 257, 100});
            c.max_rto = c.initial_rto * I64(ch.range(1, 12));
            if (ch.chance(1, 3)) { c.rc = ch.range(1, 9); c.n5xx = ch.of<unsigned>({257, 260, 300}); c.t5xx = c.initial_rto; }
            m_patient = true;
        }
        c.history = r.wants("C06") ? c.initial_rto * ch.of<I64>({3, 1, 8, 20, 2, 40}) : ch.of<I64>({3600000000ll, c.initial_rto * 5, c.initial_rto * 20, c.initial_rto * 2, c.initial_rto * 60});
        if (r.wants("C06") && ch.chance(1, 8)) { c.history = 3600000000ll; }
        c.allow_unauth_alternate = ch.chance(1, 4);
        c.tid_hash = pct(pf.tidhash) ? int(ch.range(1, 2)) : 0;
        auto h = std::make_unique<Host>();
        h->cl = std::make_unique<ClientNode>(r, strf("client%u", i), c, m_origin);
        if (pf.hostile) { h->cl->set_hostile(); }
        h->mode = int(ch.weighted({5, 2, 2, 3, 2}));
        h->rnd.ch = &ch;
        h->rnd.mode = pct(pf.poor_rng) ? 1 : 0;
        h->rnd.good = 0x1234567 + i + (uint64_t(ch.pick(65536)) << 32);
        if (ch.chance(1, 3)) { h->clk.ppm = int(ch.pick(2001)) - 1000; }
        h->clk.bl = I64(ch.pick(1000));
        const uint32_t nl = pct(pf.one_path) ? 1 : ch.range(1, 3);
        for (uint32_t k = 0; k < nl; ++k) {
            for (int v6 = 0; v6 < 2; ++v6) {
                Addr a = gen_addr(ch, v6);
                a.ip[1] = uint8_t(0x40 + i * 16 + k);   // distinct
                h->local.push_back(a.ip);
                h->nat[sim::hex(a.ip)] = nat_addr(ch.chance(1, 5) ? 2 : v6);
            }
        }
        r.log("client%u %s mode=%d ppm=%d rng=%d", i, c.str().c_str(), h->mode, h->clk.ppm, h->rnd.mode);
        hosts.push_back(std::move(h));
    }
    U = hosts[0]->cl->config().initial_rto;
    // network
    base_delay = ch.of<I64>({U / 10, 0, 1, U / 3, U, U * 3});
    auto on = [&] { return pct(pf.chaos); };
    jitter = on() ? I64(ch.range64(0, uint64_t(U) * 4)) : 0;
    p_loss = pf.lossy_net ? ch.of<unsigned>({100, 100, 100, 80, 40, 10}) : on() ? ch.of<unsigned>({10, 30, 60, 90}) : 0;
    p_dup = on() ? ch.of<unsigned>({10, 30, 60}) : 0;
    p_bits = on() ? ch.of<unsigned>({5, 15, 40}) : 0;
    p_trunc = on() ? ch.of<unsigned>({5, 15}) : 0;
    p_extend = on() ? ch.of<unsigned>({5, 15}) : 0;
    p_splice = on() ? ch.of<unsigned>({5, 15}) : 0;
    p_tamper = on() ? ch.of<unsigned>({5, 15, 40}) : 0;
    m_hashfail = pct(pf.hashfail);
    r.log("network delay=%lld jitter=%lld loss=%u dup=%u bits=%u trunc=%u extend=%u splice=%u tamper=%u hashfail=%d", (long long)base_delay,
          (long long)jitter, p_loss, p_dup, p_bits, p_trunc, p_extend, p_splice, p_tamper, m_hashfail);
}

// ------------------------------------------------------------------- servers
std::unique_ptr<stun::server::Stateless> World::make_server(Server& s, HashProvider *hp) {
    using S = stun::server::Stateless;
    auto plain = [](const fw::crypto::SHA1Hash::Input& in) { return fw::crypto::openssl::sha1(in); };
    fw::crypto::SHA1Hash::Func f = hp ? hp->func() : fw::crypto::SHA1Hash::Func(plain);
    auto srv = s.default_settings ? std::make_unique<S>(f) : std::make_unique<S>(f, S::Settings{.use_fingerprint = s.fingerprint});
    for (auto& u : s.users) {
        auto pw = stun::Password::short_term(fw::precis::OpaqueString(std::string(u.password.begin(), u.password.end())), plain);
        if (pw.is_err()) {
            r.violate({"H02", "S02"}, "no-password", "deriving a password failed");
            continue;
        }
        srv->add_user(fw::precis::OpaqueString(u.user), pw.unwrap());
    }
    return srv;
}

static Bytes build_bytes(const stun::server::Stateless::Respond& rs, bool& err) {
    auto b = rs.response.build(rs.maybe_integrity);
    err = b.is_err();
    return err ? Bytes() : b.unwrap();
}

void World::to_server(Server& s, const Packet& p) {
    if (!s.up) { r.fault("server-down"); r.log("server %u is down", s.idx); return; }
    if (s.real) {
        serve_real(s, p, m_heal ? 0 : hash_arm());
    } else {
        serve_script(s, p);
    }
}

void World::serve_real(Server& s, const Packet& p, int hash_fail) {
    using S = stun::server::Stateless;
    const auto dec = ref::decode(p.b);
    auto copy = std::make_unique<uint8_t[]>(p.b.size() ? p.b.size() : 1);
    std::copy(p.b.begin(), p.b.end(), copy.get());
    const fw::util::ConstBinaryView v(copy.get(), p.b.size());
    const bool tcp = ch.chance(1, 16);
    fw::net::UdpEndpoint ue = to_ep(p.src);
    const fw::net::Endpoint ep = tcp ? fw::net::Endpoint(fw::net::TcpEndpoint{ue.address, ue.port}) : fw::net::Endpoint(ue);
    s.rs.hash.arm(hash_fail);
    const uint64_t work0 = sim::heap_bytes();
    auto res = s.rs.srv->process(ep, v);
    r.work("the server", p.b.size(), work0);
    const bool trig = s.rs.hash.triggered;
    s.rs.hash.disarm();
    if (trig) { r.fault("hash-failure"); }
    Answer a;
    bool berr = false;
    if (auto *rs = std::get_if<S::Respond>(&res)) {
        a.k = Answer::Respond;
        if (hash_fail > 2 && !trig) {
            // fail while the response is built
            s.rs.hash.arm(hash_fail - 2);
            bool e2 = false;
            build_bytes(*rs, e2);
            const bool t2 = s.rs.hash.triggered;
            s.rs.hash.disarm();
            if (t2) {
                r.fault("hash-failure");
                r.eval("H01");
                r.probe("hash-fail-build");
                if (!e2) { r.violate({"H01"}, "built-despite-hash-failure", strf("server %u: a signed response was built although the hash provider failed", s.idx)); }
            }
        }
        const uint64_t work1 = sim::heap_bytes();
        a.bytes = build_bytes(*rs, berr);
        r.work("building the answer", p.b.size(), work1);
        if (berr) { a.bytes.reset(); }
    } else if (auto *ig = std::get_if<S::Ignore>(&res)) {
        a.k = Answer::Ignore;
        a.has_message = ig->message.is_some();
    } else {
        a.k = Answer::Error;
    }
    r.log("server %u request from %s (%s) -> %s%s", s.idx, p.src.str().c_str(), dec.verdict == ref::Verdict::Accept ? strf("class %u method %u", dec.msg.cls, dec.msg.method).c_str() : dec.why,
          a.k == Answer::Respond ? "respond" : a.k == Answer::Ignore ? "ignore" : "error", trig ? " (hash failure)" : "");
    r.step(64 + unsigned(a.k));
    check_answer(s, p, dec, a, trig, res);

    // S03: a freshly started server decides the same
    if (r.wants("S03") || r.wants("H01") || r.wants("ALL")) {
        auto same = [&](S& other, const char *tag, const char *cls, const char *who) {
            auto res2 = other.process(ep, v);
            Bytes b2;
            bool e2 = false;
            if (auto *rs = std::get_if<S::Respond>(&res2)) { b2 = build_bytes(*rs, e2); }
            r.eval(tag);
            if (trig) {
                // whatever the provider's failure did, it left no trace
                ref::Decoded d2 = dec;
                Answer a2;
                a2.k = std::holds_alternative<S::Respond>(res2) ? Answer::Respond : std::holds_alternative<S::Ignore>(res2) ? Answer::Ignore : Answer::Error;
                if (auto *ig = std::get_if<S::Ignore>(&res2)) { a2.has_message = ig->message.is_some(); }
                if (a2.k == Answer::Respond && !e2) { a2.bytes = b2; }
                if (a2.k == Answer::Error) { r.violate_v({tag}, cls, strf("server %u: %s still reports an error after the hash provider recovered", s.idx, who)); }
                else { check_answer(s, p, d2, a2, false, res2); }
                return;
            }
            if (res.index() != res2.index() || (a.bytes && b2 != *a.bytes)) {
                r.violate_v({tag}, cls, strf("server %u: %s answers %s to %s", s.idx, who, sim::hex(b2, 200).c_str(), sim::hex(p.b, 200).c_str()) + " but the running one " + (a.bytes ? sim::hex(*a.bytes, 200) : "nothing"));
            }
        };
        if (r.wants("H01")) { if (trig) { same(*s.rs.srv, "H01", "no-recovery-after-hash-failure", "the server"); } }
        else {
            auto fresh = make_server(s, nullptr);
            same(*fresh, "S03", "depends-on-history", "a fresh server");
            if (trig) { same(*s.rs.srv, "S03", "depends-on-history", "the server"); }
        }
    }
    copy.reset();
    if (a.bytes) {
        Packet o{*a.bytes, s.addr, p.src, {}};
        o.org.truth = p.src;
        send(std::move(o));
    }
}

void World::check_answer(Server& s, const Packet& p, const ref::Decoded& dec, const Answer& a, bool trig, const stun::server::Stateless::ProcessResult& res) {
    using V = std::vector<const char *>;
    auto bad = [&](V tags, const char *cls, const std::string& m) {
        r.violate_v(tags, cls, strf("server %u: ", s.idx) + m + strf(" (request from %s: ", p.src.str().c_str()) + sim::hex(p.b, 250) + ")");
    };
    if (dec.verdict == ref::Verdict::Unspecified) { return; }
    r.eval("S01"); r.eval("S03");
    if (dec.verdict == ref::Verdict::Reject) {
        r.eval(dec.damage ? "W01" : "W02");
        r.probe("server-rejects-datagram");
        if (a.k != Answer::Ignore) { bad(dec.damage ? V{"W01", "S01"} : V{"S01", "W02"}, "answers-malformed", std::string("processes a datagram that is not well-formed: ") + dec.why); }
        else if (a.has_message) { bad(dec.damage ? V{"W01"} : V{"W02"}, "accepts-malformed", std::string("takes a datagram that is not well-formed for a message: ") + dec.why); }
        return;
    }
    const auto& m = dec.msg;
    if (m.rfc3489) { r.eval("S04"); r.probe("rfc3489-request"); }
    if (m.cls != ref::REQUEST) {
        if (a.k != Answer::Ignore) { bad({"S01"}, "answers-non-request", strf("answers a message of class %u", m.cls)); }
        return;
    }
    // the reference decision
    enum { Ignore, Success, Error } want;
    unsigned code = 0;
    const auto ucr = m.unknown_required();
    const auto un = m.username();
    const bool mi = m.find(ref::MI) != nullptr;
    const Credentials *user = nullptr;
    bool checked_digest = false;
    if (!ucr.empty()) { want = Error; code = 420; }
    else if (un.has_value() != mi) { want = Error; code = 400; }
    else {
        want = Success;
        if (un) {
            for (auto& u : s.users) { if (u.user == *un) { user = &u; } }
            if (!user) { want = Error; code = 401; r.probe("unknown-user"); }
            else {
                checked_digest = true;
                r.eval("H02");
                if (!ref::mi_valid(p.b, m, user->password)) { want = Error; code = 401; r.probe("wrong-digest"); }
                else { r.probe("authenticated-request"); }
            }
        }
        if (want == Success && m.method != 1) { want = Ignore; r.probe("other-method"); }
    }
    if (un || mi) { r.eval("S02"); }
    if (trig) {
        r.eval("H01");
        if (checked_digest) {
            r.probe("hash-fail-request");
            if (a.k != Answer::Error) { bad({"H01", "S02"}, "answers-despite-hash-failure", "processes a signed request although the hash provider failed"); }
            return;
        }
    }
    V auth_tags = {"S01"};
    if (un || mi) { auth_tags.push_back("S02"); }
    if (checked_digest && code == 0) { auth_tags.push_back("H02"); }
    if (checked_digest && code == 401) { auth_tags.push_back("H02"); }
    if (m.rfc3489) { auth_tags.push_back("S04"); }
    const char *got = a.k == Answer::Respond ? "answers" : a.k == Answer::Ignore ? "ignores" : "reports an error for";
    if (want == Ignore) {
        if (a.k != Answer::Ignore) { bad(auth_tags, "should-ignore", std::string(got) + " a request with another method"); }
        return;
    }
    if (a.k != Answer::Respond) { bad(auth_tags, "no-answer", std::string(got) + strf(" a request to be answered with %u", code)); return; }
    r.probe(code ? strf("answer-%u", code).c_str() : "answer-success");
    if (!a.bytes) { bad({"S01", "W02"}, "no-bytes", "its response cannot be built"); return; }
    const auto rd = ref::decode(*a.bytes, true);
    const std::string rhex = "response " + sim::hex(*a.bytes, 250);
    if (rd.verdict != ref::Verdict::Accept) { bad(m.rfc3489 ? V{"S01", "W02", "S04", "C10"} : V{"S01", "W02", "C10"}, "malformed-response", std::string("its response is not well-formed: ") + rd.why + " " + rhex); return; }
    const auto& q = rd.msg;
    V echo = {"S01"};
    if (m.rfc3489) { echo.push_back("S04"); }
    if (q.tid != m.tid || q.rfc3489 != m.rfc3489) { bad(echo, "tid-not-echoed", "the transaction identifier is not echoed: " + rhex); return; }
    if (q.method != m.method) { bad({"S01"}, "method-not-echoed", "the method is not echoed: " + rhex); return; }
    const bool success = q.cls == ref::SUCCESS;
    auto er = q.error();
    if ((want == Success) != success || (!success && (q.cls != ref::ERROR || !er || er->first != code))) {
        bad(auth_tags, "wrong-answer", strf("expected %u, got %s", code, success ? "success" : er ? strf("%u", er->first).c_str() : "an error without code") + " " + rhex);
        return;
    }
    // nobody but an authenticated peer gets a signed answer
    const bool must_sign = success && user != nullptr;
    const bool signed_ = q.find(ref::MI) != nullptr;
    if (must_sign != signed_) { bad(must_sign ? V{"S02", "H02"} : V{"S02"}, "signature-presence", std::string(signed_ ? "a response that must not be signed is" : "the response to an authenticated request is not signed") + " " + rhex); return; }
    if (must_sign && !ref::mi_valid(*a.bytes, q, user->password)) { bad({"S02", "H02"}, "wrong-response-digest", "the digest of the response is wrong: " + rhex); return; }
    if (success) {
        r.eval("C10");
        if (q.has_fp != (s.fingerprint && !m.rfc3489)) { bad(m.rfc3489 ? V{"S01", "S04"} : V{"S01"}, "fingerprint-presence", "fingerprint presence: " + rhex); return; }
        auto ad = m.rfc3489 ? q.mapped() : q.xor_mapped();
        if (!ad || !(*ad == p.src)) {
            bad(m.rfc3489 ? V{"S04", "C10"} : V{"S01", "C10"}, "wrong-mapped-address", "the source endpoint is not reported: " + (ad ? ad->str() : std::string("absent")) + " " + rhex);
            return;
        }
        if (m.rfc3489 && q.find(ref::XOR_MAPPED)) { bad({"S04"}, "xor-for-legacy", "XOR-MAPPED-ADDRESS sent to an RFC 3489 client: " + rhex); return; }
    } else if (code == 420) {
        auto ua = q.unknown_attrs();
        std::set<uint16_t> x(ucr.begin(), ucr.end()), y;
        if (ua) { y.insert(ua->begin(), ua->end()); }
        if (x != y) { bad({"S01"}, "wrong-unknown-list", "420 lists other attributes: " + rhex); return; }
    }
    if (auto *rs = std::get_if<stun::server::Stateless::Respond>(&res)) {
        auto d = diff_message(rs->request, m);
        if (!d.empty()) { bad({"W02"}, "request-misread", "request reported to the application: " + d); }
    }
}

Bytes World::gen_response(const Bytes& tid, const Addr& src, const std::optional<Bytes>& key, bool& honest) {
    ref::Msg m;
    m.tid = tid;
    ref::EncodeOpts o;
    o.fingerprint = ch.chance(1, 2);
    honest = pct(pf.good_resp);
    if (honest) {
        m.cls = ref::SUCCESS;
        const uint32_t form = ch.pick(4);
        if (form != 1) { m.attrs.push_back({ref::XOR_MAPPED, ref::enc_xor_addr(src, tid)}); }
        if (form == 1 || form == 2) { m.attrs.push_back({ref::MAPPED, ref::enc_addr(form == 2 && ch.chance(1, 2) ? gen_addr(ch, 2) : src)}); }
        if (ch.chance(1, 3)) { m.attrs.insert(m.attrs.begin() + ch.pick(uint32_t(m.attrs.size()) + 1), {ref::SOFTWARE, ch.bytes(ch.pick(10))}); }
        if (ch.chance(1, 8)) { m.attrs.push_back({uint16_t(0x8030 + ch.pick(200)), ch.bytes(ch.pick(6))}); }
        if (ch.chance(1, 4)) { o.pad = ch.byte(); }
        if (key) { o.mi_key = *key; }
        return ref::encode(m, o);
    }
    switch (ch.weighted({5, 8, 1, 1})) {
    case 0: {
        m.cls = ref::SUCCESS;
        if (ch.chance(3, 4)) { m.attrs.push_back({ref::XOR_MAPPED, ref::enc_xor_addr(gen_addr(ch, 2), tid)}); }
        if (ch.chance(1, 3)) { m.attrs.push_back({ref::MAPPED, ref::enc_addr(gen_addr(ch, 2))}); }
        break;
    }
    case 1: {
        m.cls = ref::ERROR;
        unsigned code;
        if (pct(pf.e5xx)) { code = 500 + (ch.chance(1, 2) ? 0 : ch.pick(100)); }
        else { code = ch.of<unsigned>({300, 400, 401, 420, 438, 487, 301, 399, 499, 600, 699, 200, 100, 0, 700, 300, 420, 302, 403, 404, 405, 440, 442, 446}); }
        if (ch.chance(1, 8)) { code = ch.pick(8) * 100 + ch.pick(100); }
        auto reason = ch.bytes(ch.of<uint32_t>({0, 2, 3, 4, 11}));
        if (ch.chance(1, 20)) { reason = ch.bulk(ch.of<uint32_t>({127, 128, 255, 256, 500, 763, 1500})); }
        if (!ch.chance(1, 12)) { m.attrs.push_back({ref::ERRCODE, ref::enc_error(code, std::string(reason.begin(), reason.end()), ch.chance(1, 8) ? ch.u32() : 0)}); }
        if (code == 300 ? ch.chance(4, 5) : ch.chance(1, 12)) { m.attrs.push_back({ref::ALT_SERVER, ref::enc_addr(gen_addr(ch, 2))}); }
        if (code == 420 ? ch.chance(3, 4) : ch.chance(1, 12)) {
            Bytes v;
            for (uint32_t i = ch.chance(1, 12) ? ch.range(5, 40) : ch.pick(5); i > 0; --i) { auto t = ref::u16(uint16_t(ch.pick(65536))); v.insert(v.end(), t.begin(), t.end()); }
            m.attrs.push_back({ref::UNKNOWN_ATTRS, v});
        }
        break;
    }
    case 2: m.cls = ref::INDICATION; m.attrs.push_back({ref::XOR_MAPPED, ref::enc_xor_addr(src, tid)}); break;
    default: m.cls = ref::REQUEST; m.attrs.push_back({ref::XOR_MAPPED, ref::enc_xor_addr(src, tid)}); break;
    }
    while (wire_size(m) < 30000 && ch.chance(1, 4)) { m.attrs.insert(m.attrs.begin() + ch.pick(uint32_t(m.attrs.size()) + 1), gen_attr(ch, tid, ch.chance(1, 8))); }
    if (ch.chance(1, 16)) { m.method = ch.of<unsigned>({2, 0, 3, 0x11, 0x81, 0x801, 0xFFE}); }
    if (ch.chance(1, pf.hostile ? 20 : 150)) { many_attrs(ch, m); r.probe("many-attributes"); }
    if (ch.chance(1, 4)) { o.pad = ch.byte(); }
    if (key) {
        switch (ch.weighted({7, 1, 1, 1})) {
        case 0: o.mi_key = *key; break;
        case 1: break;
        case 2: o.mi_key = ch.bytes(ch.pick(20)); break;
        default: o.mi_key = *key; o.bad_mi = true; break;
        }
    } else if (ch.chance(1, 5)) { o.mi_key = ch.bytes(4); }
    if (o.mi_key && ch.chance(1, 4)) {
        size_t n = wire_size(m);
        do { o.after_mi.push_back(gen_attr(ch, tid, ch.chance(1, 8))); n += o.after_mi.back().value.size() + 8; } while (n < 30000 && ch.chance(1, 2));
        if (n > 65000) { o.after_mi.clear(); }
        if (ch.chance(1, 3)) { o.after_mi.push_back({ref::MI, ch.bulk(20)}); }
    }
    if (o.fingerprint && ch.chance(1, 20)) { o.fp_error = 1u << ch.pick(32); }
    return ref::encode(m, o);
}

void World::serve_script(Server& s, const Packet& p) {
    const auto d = ref::decode(p.b);
    if (d.verdict != ref::Verdict::Accept || d.msg.cls != ref::REQUEST || d.msg.rfc3489) { r.log("scripted server %u drops datagram", s.idx); return; }
    std::optional<Bytes> key;
    if (auto un = d.msg.username()) {
        for (auto& u : s.users) { if (u.user == *un) { key = u.password; } }
        if (!key) { key = ch.bytes(3); }
    }
    uint32_t n = ch.weighted({1, 12, 3, 1});
    for (uint32_t i = 0; i < n; ++i) {
        bool honest = false;
        Packet o{gen_response(d.msg.tid, p.src, key, honest), s.addr, p.src, {}};
        if (honest) { o.org.truth = p.src; }
        r.log("scripted server %u answers %s", s.idx, honest ? "honestly" : "something");
        r.probe(honest ? "scripted-honest" : "scripted-other");
        if (ch.chance(1, 3)) {
            const I64 d2 = I64(ch.range64(0, uint64_t(U) * 4));
            at(r.now + d2, [this, o] { send(o); });
        } else { send(std::move(o)); }
    }
}

// ------------------------------------------------------------------- network
void World::send(Packet p) {
    if (captured.size() < 24) { captured.push_back(p.b); } else { captured[seq % 24] = p.b; }
    tap(p.b);
    if (m_heal) { at(r.now + heal_latency, [this, p] { deliver(p); }); return; }
    if (partition) { r.fault("partition-drop"); r.log("partitioned"); return; }
    if (p_loss && pct(p_loss)) { r.fault("loss"); r.log("lost"); return; }
    unsigned copies = 1;
    if (p_dup && pct(p_dup)) { copies += ch.range(1, 2); r.fault("duplicate"); }
    for (unsigned i = 0; i < copies; ++i) {
        Packet c = p;
        int kind = -1;
        if (p_bits && pct(p_bits)) { kind = int(ch.pick(2)); }
        else if (p_trunc && pct(p_trunc)) { kind = 2; }
        else if (p_extend && pct(p_extend)) { kind = 3; }
        else if (p_splice && pct(p_splice)) { kind = 4; }
        else if (p_tamper && pct(p_tamper)) { kind = 5; }
        if (kind >= 0) {
            r.fault(damage(ch, c.b, captured, kind));
            c.org.intact = c.b == p.b;
            tap(c.b);
        }
        I64 d = base_delay;
        if (jitter) { d += I64(ch.range64(0, uint64_t(jitter))); r.fault("delay"); }
        at(r.now + d, [this, c] { deliver(c); });
    }
}

void World::deliver(const Packet& p) {
    for (auto& s : servers) { if (s->addr == p.dst) { to_server(*s, p); return; } }
    for (auto& h : hosts) {
        for (auto& [l, e] : h->nat) { if (e == p.dst) { to_client(*h, p); return; } }
    }
    r.log("datagram to %s reaches nobody", p.dst.str().c_str());
}

// A node on the wire that only reads
void World::tap(const Bytes& b) {
    auto copy = std::make_unique<uint8_t[]>(b.size() ? b.size() : 1);
    std::copy(b.begin(), b.end(), copy.get());
    const fw::util::ConstBinaryView v(copy.get(), b.size());
    const auto d = m_tap_only_counts ? ref::Decoded() : ref::decode(b);
    auto reasons = [](const stun::ParseStat& s) { return sim::sum_counters(s, {&s.success, &s.error, &s.unknown_comprehension_required_attr}); };
    const auto s0 = m_stat.success.count(), e0 = m_stat.error.count();
    const auto r0 = reasons(m_stat);
    const uint64_t work0 = sim::heap_bytes();
    auto msg = stun::Message::parse(v, m_stat);
    r.work("parsing", b.size(), work0);
    m_tapped++;
    const auto ds = m_stat.success.count() - s0, de = m_stat.error.count() - e0;
    const auto dr = sim::counters_only<stun::ParseStat> ? reasons(m_stat) - r0 : uint64_t(de);
    r.eval("W04");
    r.probe(msg.is_ok() ? "tap-accept" : "tap-reject");
    if (msg.is_ok() ? !(ds == 1 && de == 0 && dr == 0) : !(ds == 0 && de == 1 && dr == 1)) {
        r.violate({"W04"}, msg.is_ok() ? "success-miscounted" : "error-miscounted",
                  strf("%s datagram counted as %u successes, %u errors with %" PRIu64 " reasons: ", msg.is_ok() ? "accepted" : "rejected", ds, de, dr) + sim::hex(b, 300));
    }
    if (uint64_t(m_stat.success.count()) + m_stat.error.count() != m_tapped) {
        r.violate({"W04"}, "totals", strf("%u successes and %u errors for %" PRIu64 " datagrams", m_stat.success.count(), m_stat.error.count(), m_tapped));
        m_tapped = uint64_t(m_stat.success.count()) + m_stat.error.count();
    }
    if (d.verdict == ref::Verdict::Unspecified || m_tap_only_counts) { return; }
    if (d.verdict == ref::Verdict::Reject) {
        r.eval(d.damage ? "W01" : "W02");
        if (msg.is_ok()) { r.violate({d.damage ? "W01" : "W02"}, "accepts-malformed", std::string("parse accepts a datagram that is not well-formed: ") + d.why + " " + sim::hex(b, 300)); }
        return;
    }
    r.eval("W02");
    if (msg.is_err()) { r.violate({"W02"}, "rejects-wellformed", "parse rejects a well-formed datagram " + sim::hex(b, 300)); return; }
    auto m = msg.unwrap();
    auto df = diff_message(m, d.msg);
    if (!df.empty()) { r.violate({"W02"}, "misread", df + " in " + sim::hex(b, 300)); return; }
    // and back
    auto out = m.build();
    if (out.is_err()) { r.violate({"W02"}, "rebuild-fails", "a parsed message cannot be built " + sim::hex(b, 300)); return; }
    Bytes ob = out.unwrap();
    auto d2 = ref::decode(ob);
    if (d2.verdict != ref::Verdict::Accept) { r.violate({"W02"}, "rebuild-malformed", std::string("rebuilt message is not well-formed: ") + d2.why + " " + sim::hex(b, 200) + " -> " + sim::hex(ob, 200)); return; }
    auto norm = [](const ref::Msg& x) {
        std::vector<ref::Attr> v2;
        std::set<uint16_t> seen;
        for (auto& a : x.attrs) {
            if (a.type == ref::MI) { continue; }
            if (ref::is_known(a.type) && !seen.insert(a.type).second) { continue; }
            ref::Attr n = a;
            if (a.type == ref::FINGERPRINT) { n.value.clear(); }
            if (a.type == ref::MAPPED || a.type == ref::XOR_MAPPED || a.type == ref::ALT_SERVER) { n.value[0] = 0; }
            if (a.type == ref::ERRCODE) { n.value[0] = n.value[1] = 0; n.value[2] &= 7; }
            v2.push_back(n);
        }
        std::sort(v2.begin(), v2.end(), [](auto& p, auto& q) { return p.type != q.type ? p.type < q.type : p.value < q.value; });
        return v2;
    };
    const bool legacy = d.msg.rfc3489;
    if (d2.msg.cls != d.msg.cls || d2.msg.method != d.msg.method || d2.msg.tid != d.msg.tid) { r.violate({"W02"}, "rebuild-header", "rebuilt message has another header: " + sim::hex(b, 200) + " -> " + sim::hex(ob, 200)); return; }
    if (!legacy && norm(d2.msg) != norm(d.msg)) { r.violate({"W02"}, "rebuild-attributes", "rebuilt message has other attributes: " + sim::hex(b, 300) + " -> " + sim::hex(ob, 300)); return; }
}

// Somebody sends the same few datagrams again and again, more often than small
// counters can count
void World::flood() {
    std::vector<Bytes> all;
    for (uint32_t i = ch.range(1, 4); i > 0; --i) {
        ref::Msg m;
        m.cls = ch.pick(4);
        m.method = 1;
        m.tid = ch.bulk(12);
        if (ch.chance(1, 2)) { m.attrs.push_back(gen_attr(ch, m.tid, true)); }
        Bytes b = ref::encode(m, ref::EncodeOpts());
        if (ch.chance(1, 2)) { damage(ch, b, captured, int(ch.pick(8))); }
        if (b.size() > 200) { b.resize(200); }
        all.push_back(b);
    }
    r.fault("flood");
    r.log("flood of %zu kinds of datagrams", all.size());
    const uint32_t n = ch.range(65600, 66000);
    for (uint32_t i = 0; i < n; ++i) { m_tap_only_counts = true; tap(all[i % all.size()]); }
    m_tap_only_counts = false;
}

// An application that puts arbitrary messages on the wire
void World::builder() {
    ref::Msg m;
    const bool legacy = ch.chance(1, 10);
    m.tid = ch.bulk(legacy ? 16 : 12);
    if (legacy && m.tid[0] == 0x21) { m.tid[0] = 1; }
    m.cls = legacy ? 0 : ch.pick(4);
    m.method = ch.chance(1, 2) ? 1 : ch.pick(0x1000);
    stun::AttributeSet::AttrVec av;
    stun::AttributeSet::UnknownAttrVec uv;
    std::set<uint16_t> have;
    while (have.size() < 12 && ch.chance(3, 4)) {
        ref::Attr a = gen_attr(ch, m.tid, false);
        if (legacy && a.type == ref::XOR_MAPPED) { continue; }
        if (ref::is_known(a.type) && !have.insert(a.type).second) { continue; }
        have.insert(a.type);
        if (a.type == ref::ERRCODE) { a.value[0] = a.value[1] = 0; a.value[2] &= 7; }
        ref::Msg one;
        one.tid = m.tid;
        one.attrs.push_back(a);
        auto be = [](const Bytes& b) { uint64_t v = 0; for (auto x : b) { v = v << 8 | x; } return v; };
        const std::string sv(a.value.begin(), a.value.end());
        switch (a.type) {
        case ref::SOFTWARE: av.emplace_back(stun::SoftwareAttribute{sv}); break;
        case ref::USERNAME: av.emplace_back(stun::UsernameAttribute{fw::precis::OpaqueString(sv)}); break;
        case ref::PRIORITY: av.emplace_back(stun::PriorityAttribute{uint32_t(be(a.value))}); break;
        case ref::ICE_CONTROLLED: av.emplace_back(stun::IceControlledAttribute{be(a.value)}); break;
        case ref::ICE_CONTROLLING: av.emplace_back(stun::IceControllingAttribute{be(a.value)}); break;
        case ref::USE_CANDIDATE: av.emplace_back(stun::UseCandidateAttribute{}); break;
        case ref::MAPPED: { auto x = *one.mapped(); av.emplace_back(stun::MappedAddressAttribute{to_ip(x.ip), fw::net::Port(x.port)}); break; }
        case ref::ALT_SERVER: { auto x = *one.alt_server(); av.emplace_back(stun::AlternateServerAttribute{to_ip(x.ip), fw::net::Port(x.port)}); break; }
        case ref::XOR_MAPPED: {
            auto x = *one.xor_mapped();
            av.emplace_back(stun::XorMappedAddressAttribute{stun::XoredAddress::from_address(to_ip(x.ip), stun::TransactionId(view(m.tid))), fw::net::Port(x.port)});
            break;
        }
        case ref::ERRCODE: {
            auto e = *one.error();
            stun::ErrorCodeAttribute ea{.code = e.first, .reason_phrase = fw::none()};
            if (!e.second.empty() || ch.chance(1, 2)) { ea.reason_phrase = e.second; }
            av.emplace_back(std::move(ea));
            break;
        }
        case ref::UNKNOWN_ATTRS: {
            stun::UnknownAttributesAttribute u;
            const auto types = *one.unknown_attrs();
            for (auto t : types) { u.types.push_back(stun::AttributeType::from_uint16(t)); }
            av.emplace_back(std::move(u));
            break;
        }
        default: uv.emplace_back(stun::AttributeType::from_uint16(a.type), view(a.value)); break;
        }
        m.attrs.push_back(a);
    }
    if (ch.chance(1, 60)) {  // very many attributes
        const uint32_t n = ch.range(30, 400);
        const Bytes x = ch.bulk(2 * n);
        for (uint32_t i = 0; i < n; ++i) {
            const ref::Attr a{uint16_t(0xC200 + i), Bytes(x[2 * i] % 8, x[2 * i + 1])};
            uv.emplace_back(stun::AttributeType::from_uint16(a.type), view(a.value));
            m.attrs.push_back(a);
        }
        r.probe("builds-many");
    }
    if (ch.chance(1, 40)) {  // around the largest message the header can describe
        const size_t size = ch.of<size_t>({65536, 65532, 65535, 65528, 65524, 65504, 65500, 65508, 70000, 131072, 65540, 66000}) + ch.pick(3);
        const size_t have_now = wire_size(m) - 20;
        ref::Attr a{uint16_t(0xC100), Bytes(size > have_now + 4 ? size - have_now - 4 : 0, 0x5A)};
        uv.emplace_back(stun::AttributeType::from_uint16(a.type), view(a.value));
        m.attrs.push_back(a);
        r.probe("builds-huge");
    }
    const bool fp = ch.chance(1, 2);
    if (fp) { av.emplace_back(stun::FingerprintAttribute{0}); }
    std::optional<Bytes> key;
    stun::MaybeIntegrity mi = fw::none();
    auto plain = [](const fw::crypto::SHA1Hash::Input& in) { return fw::crypto::openssl::sha1(in); };
    if (ch.chance(1, 2)) {
        key = gen_cred().password;
        auto pw = stun::Password::short_term(fw::precis::OpaqueString(std::string(key->begin(), key->end())), plain);
        if (pw.is_err()) { r.violate({"H02"}, "no-password", "deriving a password failed"); return; }
        mi = stun::IntegrityData{pw.unwrap(), plain};
    }
    static const stun::Class cls[4] = {stun::Class::request(), stun::Class::indication(), stun::Class::success_response(), stun::Class::error_response()};
    const uint16_t mt = uint16_t((m.method & 0xF) | (m.method & 0x70) << 1 | (m.method & 0xF80) << 2);
    stun::Message msg{stun::Header{cls[m.cls], stun::Method::from_msg_type(mt), stun::TransactionId(view(m.tid))},
                      stun::AttributeSet::create(std::move(av), std::move(uv)), stun::IsRFC3489{legacy}, fw::none()};
    auto res = msg.build(mi);
    r.eval("W02");
    r.probe("built");
    const size_t length = wire_size(m) - 20 + (key ? 24 : 0) + (fp ? 8 : 0);
    if (length > 0xFFFF) {
        if (res.is_ok()) { r.violate({"W02"}, "builds-oversized", strf("a message of length %zu, which no header can describe, was built", length)); }
        r.log("builder: length %zu refused", length);
        r.probe("oversized-refused");
        return;
    }
    if (res.is_err()) { r.violate({"W02"}, "build-fails", "a message cannot be built"); return; }
    const Bytes b = res.unwrap();
    auto d = ref::decode(b);
    r.log("builder: %zu attributes, %zu bytes", m.attrs.size(), b.size());
    if (d.verdict != ref::Verdict::Accept) { r.violate({"W02"}, "build-malformed", std::string("a built message is not well-formed: ") + d.why + " " + sim::hex(b, 400)); return; }
    if (d.msg.cls != m.cls || d.msg.method != m.method || d.msg.tid != m.tid) { r.violate({"W02"}, "build-header", "wrong header: " + sim::hex(b, 400)); return; }
    std::vector<ref::Attr> got;
    for (auto& a : d.msg.attrs) { if (a.type != ref::MI && a.type != ref::FINGERPRINT) { got.push_back(a); } }
    auto less = [](const ref::Attr& x, const ref::Attr& y) { return x.type != y.type ? x.type < y.type : x.value < y.value; };
    std::sort(got.begin(), got.end(), less);
    std::sort(m.attrs.begin(), m.attrs.end(), less);
    if (got != m.attrs) { r.violate({"W02"}, "build-attributes", "attributes on the wire are not those meant: " + sim::hex(b, 400)); return; }
    if (d.msg.has_fp != fp) { r.violate({"W02"}, "build-fingerprint", "fingerprint presence: " + sim::hex(b, 400)); return; }
    if (key.has_value() != d.msg.mi_off.has_value() || (key && !ref::mi_valid(b, d.msg, *key))) { r.violate({"W02", "H02"}, "build-digest", "digest on the wire is wrong: " + sim::hex(b, 400)); return; }
    // it travels like everything else
    Packet p{b, stranger_addr(), servers[ch.pick(uint32_t(servers.size()))]->addr, {}};
    send(std::move(p));
}

// ------------------------------------------------------- strangers, attackers
Bytes World::gen_request(Server& s, std::string& what) {
    ref::Msg m;
    m.cls = ch.chance(1, 8) ? ch.pick(4) : 0;
    m.method = ch.chance(1, 8) ? ch.pick(0x1000) : 1;
    const bool legacy = pct(pf.legacy);
    m.tid = ch.bulk(legacy ? 16 : 12);
    if (legacy) {
        if (ch.chance(1, 3)) { m.tid[0] = 0x21; m.tid[1] = 0x12; m.tid[2] = 0xA4; m.tid[3] = uint8_t(ch.pick(0x42)); }  // almost the cookie
        else if (m.tid[0] == 0x21) { m.tid[0] = 0; }
    }
    while (wire_size(m) < 30000 && ch.chance(1, 3)) {
        auto a = gen_attr(ch, m.tid, ch.chance(1, 4));
        if (a.type < 0x8000 && !ref::is_known(a.type) && ch.chance(1, 2)) { continue; }
        if (a.type == ref::USERNAME && ch.chance(1, 2)) { continue; }
        m.attrs.push_back(a);
    }
    if (ch.chance(1, pf.hostile ? 20 : 150)) { many_attrs(ch, m); r.probe("many-attributes"); }
    if (ch.chance(1, 12)) {  // several attributes the server cannot understand, some repeated
        for (uint32_t i = ch.range(1, 6); i > 0; --i) {
            m.attrs.insert(m.attrs.begin() + ch.pick(uint32_t(m.attrs.size()) + 1), ref::Attr{uint16_t(ch.of<int>({0x7001, 0x7002, 0x0002, 0x7FFF, 0x0013})), ch.bytes(ch.pick(6))});
        }
    }
    ref::EncodeOpts o;
    auto put_user = [&](const std::string& u) {
        m.attrs.insert(m.attrs.begin() + ch.pick(uint32_t(m.attrs.size()) + 1), ref::Attr{ref::USERNAME, Bytes(u.begin(), u.end())});
    };
    const Credentials& u = s.users[ch.pick(uint32_t(s.users.size()))];
    const bool auth = pct(pf.auth);
    if (auth) {
        switch (ch.weighted({6, 2, 1, 1, 1, 2, 2})) {
        case 0: put_user(u.user); o.mi_key = u.password; what = "right password"; break;
        case 1: put_user(u.user); o.mi_key = u.password; o.mi_key->push_back(uint8_t(ch.range(1, 255))); what = "wrong password"; break;
        case 2: put_user(other_name(u.user)); o.mi_key = u.password; what = "unknown user"; break;
        case 3: put_user(u.user); what = "user name only"; break;
        case 4: o.mi_key = u.password; what = "digest only"; break;
        case 5: {
            const Credentials& w = s.users[ch.pick(uint32_t(s.users.size()))];
            put_user(u.user); o.mi_key = w.password; what = "another user's password";
            break;
        }
        default: {
            put_user(u.user); o.mi_key = u.password;
            if (ch.chance(1, 2)) { o.mi_key->push_back(0); what = "password with trailing zero"; }
            else if (!o.mi_key->empty()) { o.mi_key->pop_back(); what = "password cut short"; }
            break;
        }
        }
        if (ch.chance(1, 12)) { o.bad_mi = true; }
        if (ch.chance(1, 6)) { o.after_mi.push_back(gen_attr(ch, m.tid, ch.chance(1, 4))); }
    }
    o.fingerprint = ch.chance(1, 2);
    if (o.fingerprint && ch.chance(1, 16)) { o.fp_error = 1u << ch.pick(32); }
    if (ch.chance(1, 4)) { o.pad = ch.byte(); }
    Bytes b = ref::encode(m, o);
    if (o.mi_key && ch.chance(1, 6)) {
        // change one byte before the digest and repair the fingerprint
        auto d = ref::decode(b);
        if (d.verdict == ref::Verdict::Accept && d.msg.mi_off) {
            const uint32_t p = 4 + ch.pick(uint32_t(*d.msg.mi_off) - 4);
            b[p] = uint8_t(b[p] ^ (1u << ch.pick(8)));
            ref::refinger(b);
            what += ", modified";
        }
    }
    return b;
}

void World::stranger() {
    Server& s = *servers[ch.pick(uint32_t(servers.size()))];
    std::string what = "no credentials";
    Bytes b;
    if (pf.hostile && ch.chance(1, 2)) { b = ch.chance(1, 10) ? ch.bulk(ch.pick(70000)) : ch.bulk(ch.pick(200)); what = "noise"; }
    else { b = gen_request(s, what); }
    Packet p{b, stranger_addr(), s.addr, {}};
    r.log("stranger %s sends %zu bytes (%s)", p.src.str().c_str(), b.size(), what.c_str());
    if (ch.chance(1, 2) || m_heal) { tap(b); deliver(p); } else { send(std::move(p)); }
}

void World::attack() {
    r.fault("attack");
    Host& h = *hosts[ch.pick(uint32_t(hosts.size()))];
    auto cap = [&]() -> Bytes { return captured.empty() ? Bytes() : captured[ch.pick(uint32_t(captured.size()))]; };
    Packet p;
    p.src = servers[ch.pick(uint32_t(servers.size()))]->addr;
    auto nat_it = h.nat.begin();
    std::advance(nat_it, ch.pick(uint32_t(h.nat.size())));
    p.dst = nat_it->second;
    p.org.intact = false;
    switch (ch.weighted({3, 6, 4, 2, pf.hostile ? 8u : 1u, 2})) {
    case 0:
        p.b = cap();
        r.log("attack: replay to %s", h.cl->name().c_str());
        break;
    case 1: {
        // forge an answer to a request seen on the wire
        if (seen_requests.empty()) { return; }
        auto& [rq, si] = seen_requests[ch.chance(2, 3) ? seen_requests.size() - 1 - ch.pick(uint32_t(std::min<size_t>(4, seen_requests.size()))) : ch.pick(uint32_t(seen_requests.size()))];
        Bytes tid(rq.begin() + 8, rq.begin() + 20);
        std::optional<Bytes> key;
        if (ch.chance(1, 2)) { key = ch.chance(1, 2) ? ch.bytes(5) : servers[0]->users[ch.pick(uint32_t(servers[0]->users.size()))].password; }
        bool honest;
        p.b = gen_response(tid, gen_addr(ch, 2), key, honest);
        r.log("attack: forged response to %s", h.cl->name().c_str());
        break;
    }
    case 2:
        p.b = cap();
        if (p.b.empty()) { return; }
        r.fault(damage(ch, p.b, captured, int(ch.pick(8))));
        r.log("attack: modified replay to %s", h.cl->name().c_str());
        break;
    case 3: {
        // replay or spoof a request to a server from somewhere else
        p.b = cap();
        p.dst = p.src;
        p.src = ch.chance(1, 2) ? nat_it->second : gen_addr(ch, 2);
        if (ch.chance(1, 2) && !p.b.empty()) { r.fault(damage(ch, p.b, captured, int(ch.pick(8)))); }
        r.log("attack: request replay from %s", p.src.str().c_str());
        break;
    }
    case 4:
        p.b = ch.chance(1, 20) ? ch.bulk(ch.pick(70000)) : ch.bulk(ch.pick(120));
        if (p.b.size() > 20 && ch.chance(1, 2)) {  // plausible framing
            p.b.resize(p.b.size() & ~size_t(3));
            size_t l = p.b.size() - 20;
            p.b[0] = uint8_t(ch.pick(2)); p.b[1] = uint8_t(ch.of<int>({1, 0x11}));
            p.b[2] = uint8_t(l >> 8); p.b[3] = uint8_t(l);
            p.b[4] = 0x21; p.b[5] = 0x12; p.b[6] = 0xA4; p.b[7] = 0x42;
        }
        r.log("attack: noise, %zu bytes", p.b.size());
        break;
    default: {
        // a response with an identifier of nobody
        bool honest;
        p.b = gen_response(ch.bulk(12), gen_addr(ch, 2), std::nullopt, honest);
        r.log("attack: response with unknown identifier to %s", h.cl->name().c_str());
        break;
    }
    }
    tap(p.b);
    deliver(p);
}

// One and the same datagram, again and again, for one transaction
void World::storm() {
    Host& h = *hosts[ch.pick(uint32_t(hosts.size()))];
    std::vector<unsigned> live;
    for (auto& [hnd, t] : h.cl->txs()) { if (t.tid_seen) { live.push_back(hnd); } }
    if (live.empty()) { r.log("storm: nothing to aim at"); return; }
    const unsigned hnd = live[ch.pick(uint32_t(live.size()))];
    const TxM& t = h.cl->txs().at(hnd);
    Packet p;
    p.src = servers[ch.pick(uint32_t(servers.size()))]->addr;
    p.dst = h.nat.begin()->second;
    p.org.intact = false;
    std::optional<Bytes> key;
    if (t.cred && !ch.chance(1, 6)) { key = t.cred->password; }
    if (ch.chance(2, 3)) {
        ref::Msg m;
        m.cls = ref::ERROR;
        m.tid = t.tid;
        m.attrs.push_back({ref::ERRCODE, ref::enc_error(500 + (ch.chance(1, 2) ? 0 : ch.pick(100)), "", 0)});
        ref::EncodeOpts o;
        o.mi_key = key;
        p.b = ref::encode(m, o);
    } else {
        bool honest;
        p.b = gen_response(t.tid, gen_addr(ch, 2), key, honest);
    }
    const I64 t5 = h.cl->config().t5xx.value_or(h.cl->config().initial_rto);
    const I64 every = std::max<I64>(1, ch.of<I64>({t5 / 2, t5 - 1, t5 * 4 / 5, t5 / 10, t5, U / 4, 1}));
    r.fault("response-storm");
    r.log("storm for transaction %u of %s every %lld us", hnd, h.cl->name().c_str(), (long long)every);
    tap(p.b);
    storm_tick(h, hnd, t.tid, p, every, ch.range(5, 250));
}
void World::storm_tick(Host& h, unsigned hnd, Bytes tid, Packet p, I64 every, unsigned left) {
    auto it = h.cl->txs().find(hnd);
    if (m_heal || it == h.cl->txs().end() || it->second.tid != tid || left == 0) { return; }
    to_client(h, p);
    at(r.now + every, [this, &h, hnd, tid, p, every, left] { storm_tick(h, hnd, tid, p, every, left - 1); });
}

// An external endpoint nobody else is using
Addr World::nat_addr(int v6) {
    Addr a = gen_addr(ch, v6);
    if (!hosts.empty() && ch.chance(1, 3)) {
        auto& n = hosts[ch.pick(uint32_t(hosts.size()))]->nat;
        if (!n.empty()) {
            auto it = n.begin();
            std::advance(it, ch.pick(uint32_t(n.size())));
            if (v6 == 2 || (it->second.ip.size() == 16) == (v6 == 1)) { a = near_addr(ch, it->second); }
        }
    }
    auto taken = [&] {
        for (auto& s : servers) { if (s->addr.ip == a.ip) { return true; } }
        for (auto& h : hosts) { for (auto& [l, e] : h->nat) { if (e == a) { return true; } } }
        return false;
    };
    while (taken()) { a.port++; if (a.port == 0) { a.ip.back()++; } a.ip[0]++; }
    return a;
}

Addr World::stranger_addr() {
    Addr a = gen_addr(ch, 2);
    if (ch.chance(1, 2)) {
        auto& n = hosts[ch.pick(uint32_t(hosts.size()))]->nat;
        if (last_stranger && ch.chance(1, 2)) { a = *last_stranger; } else if (!n.empty()) { a = n.begin()->second; }
        if (ch.chance(4, 5)) { a = near_addr(ch, a); }
    }
    last_stranger = a;
    return a;
}

// --------------------------------------------------------------------- hosts
void World::app_create(Host& h, bool heal) {
    RequestSpec s;
    std::vector<unsigned> cand;
    for (auto& v : servers) { if (!heal || v->real) { cand.push_back(v->idx); } }
    Server& sv = *servers[cand[ch.pick(uint32_t(cand.size()))]];
    s.dst = sv.addr.ip;
    std::vector<Bytes> loc;
    for (auto& l : h.local) { if (l.size() == s.dst.size()) { loc.push_back(l); } }
    s.src = loc[ch.pick(uint32_t(loc.size()))];
    bool fresh = false;
    if (heal && (h.cl->hostile() || ch.chance(1, 2))) {
        // a path nothing is known about
        s.src = Bytes(s.dst.size(), 0x77);
        s.src[0] = uint8_t(0xE0 | ch.pick(16));
        if (!h.nat.count(sim::hex(s.src))) { h.nat[sim::hex(s.src)] = nat_addr(2); }
        fresh = true;
    }
    if (pct(pf.auth)) {
        s.cred = sv.users[ch.pick(uint32_t(sv.users.size()))];
        if (!heal) {
            switch (ch.weighted({8, 1, 1, 1})) {
            case 1: s.cred->password.push_back(uint8_t(ch.range(1, 255))); break;
            case 2: s.cred->password.push_back(0); break;
            case 3: s.cred->user = other_name(s.cred->user); break;
            default: break;
            }
        }
    }
    auto attr = [&](uint16_t t, Bytes v) { s.attrs.push_back({t, std::move(v)}); };
    if (ch.chance(1, 4)) { attr(ref::SOFTWARE, ch.bytes(ch.pick(9))); }
    if (ch.chance(1, 8)) { attr(ref::PRIORITY, ref::u32(ch.u32())); }
    if (ch.chance(1, 8)) { attr(ch.chance(1, 2) ? ref::ICE_CONTROLLED : ref::ICE_CONTROLLING, ref::u64(uint64_t(ch.u32()) << 32 | ch.u32())); }
    if (ch.chance(1, 8)) { attr(ref::USE_CANDIDATE, {}); }
    if (ch.chance(1, 10)) { attr(uint16_t(0xC000 + ch.pick(0x100)), ch.bytes(ch.pick(8))); }
    if (!heal && ch.chance(1, 12)) { attr(uint16_t(0x7000 + ch.pick(0x100)), ch.bytes(ch.pick(8))); }
    int hf = heal ? 0 : hash_arm();
    if (hf > 2) { hf = 3 - int(ch.pick(3)); }
    const bool ok = h.cl->create(local(h), s, h.rnd, hf, heal);
    if (ok && heal && fresh) {
        const I64 budget = std::min(h.cl->config().initial_rto, h.cl->config().max_rto.value_or(INT64_MAX)) * I64(h.cl->config().rc);
        heal_latency = std::min(heal_latency, budget / 8);
    } else if (ok && heal) {
        heal_latency = 0;
    }
    if (h.mode == 0 || heal) { drive(h); } else { poll_later(h, r.now + I64(ch.range64(0, uint64_t(U)))); }
}

void World::poll_later(Host& h, I64 t) {
    const uint64_t id = ++h.wake;
    at(t, [this, &h, id] { if (h.wake == id) { drive(h); } });
}

void World::transmit(Host& h, const ClientNode::Polled& p) {
    const auto sep = p.path.find('>');
    if (sep == std::string::npos) { return; }
    const std::string src = p.path.substr(0, sep), dst = p.path.substr(sep + 1);
    auto n = h.nat.find(src);
    if (n == h.nat.end()) { return; }
    for (auto& s : servers) {
        if (sim::hex(s->addr.ip) == dst) {
            if (p.data.size() >= 20) { seen_requests.emplace_back(p.data, s->idx); if (seen_requests.size() > 40) { seen_requests.erase(seen_requests.begin()); } }
            send(Packet{p.data, n->second, s->addr, {}});
            return;
        }
    }
}

void World::drive(Host& h) {
    ++h.wake;  // cancels an older wake-up
    const int mode = m_heal ? 0 : h.mode;
    // where the model does not follow: no more than everything that can be due at once
    const bool follow = !h.cl->lenient() || h.cl->hostile();
    const size_t limit = 200 + (follow ? 0 : h.cl->live() * (h.cl->config().rc + 2));
    for (size_t i = 0; i < limit; ++i) {
        auto p = h.cl->poll(local(h));
        using P = ClientNode::Polled;
        if (p.k == P::Send) { transmit(h, p); }
        if (p.k == P::Sleep) {
            I64 t = p.sleep > 0 && p.sleep < (I64(1) << 50) ? h.clk.when(local(h) + p.sleep) : r.now + std::max<I64>(1, U / 8);
            switch (mode) {
            case 1: t += I64(ch.range64(0, uint64_t(U) * 3)); r.fault("late-poll"); break;
            case 2: if (ch.chance(1, 2) && t > r.now) { t = r.now + I64(ch.range64(0, uint64_t(t - r.now))); r.fault("early-poll"); } break;
            case 4: t = r.now + I64(ch.range64(1, uint64_t(U) * 5)); r.fault("sporadic-poll"); break;
            default: break;
            }
            if (t == r.now) { t++; }
            poll_later(h, t);
            return;
        }
        if (p.k == P::Idle) { return; }
        if (mode == 3) { r.fault("single-step"); poll_later(h, r.now + I64(ch.range64(0, uint64_t(U) / 3 + 1))); return; }
    }
    r.log("%s was given %zu actions in one go", h.cl->name().c_str(), limit);
    if (!follow) {
        r.violate({"C04", "C11"}, "endless-actions", h.cl->name() + strf(": more than %zu actions without a pause", limit));
    }
    poll_later(h, r.now + std::max<I64>(1, U / 8));
}

void World::to_client(Host& h, const Packet& p) {
    int hf = m_heal ? 0 : hash_arm();
    if (hf > 2) { hf -= 2; }
    const bool pre = ch.chance(1, 4);
    h.cl->response(local(h), p.b, p.org, pre, hf);
    switch (m_heal ? 0 : h.mode) {
    case 0: case 2: drive(h); break;
    case 3: poll_later(h, r.now + I64(ch.range64(0, uint64_t(U) / 3 + 1))); break;
    default: break;  // polls when it wakes up anyway
    }
}

void World::pump(I64 until, size_t max_events) {
    size_t n = 0;
    while (!q.empty() && q.begin()->first.first <= until && n < max_events) {
        auto it = q.begin();
        r.now = it->first.first;
        auto f = std::move(it->second);
        q.erase(it);
        f();
        n++;
        m_events++;
    }
    if (n < max_events && r.now < until) { r.now = until; }
}

void World::run() {
    setup();
    const I64 span = U * I64(ch.of<uint32_t>({20, 5, 60, 150}));
    auto when = [&] { return I64(ch.range64(0, uint64_t(span))); };
    const bool crowd = ch.chance(1, r.wants("M01") ? 4 : 40);
    if (crowd) { r.probe("crowd"); }
    for (auto& h : hosts) {
        for (uint32_t i = crowd ? ch.range(30, 150) : ch.range(1, std::max(1u, pf.creates)); i > 0; --i) { Host *p = h.get(); at(when(), [this, p] { app_create(*p, false); }); }
    }
    if (pf.strangers) { for (uint32_t i = ch.pick(pf.strangers + 1); i > 0; --i) { at(when(), [this] { stranger(); }); } }
    if (pf.attacks && ch.chance(2, 3)) { for (uint32_t i = ch.pick(pf.attacks + 1); i > 0; --i) { at(when(), [this] { attack(); }); } }
    if (pf.builds) { for (uint32_t i = ch.pick(pf.builds + 1); i > 0; --i) { at(when(), [this] { builder(); }); } }
    if (r.wants("W04") && ch.chance(1, 60)) { at(when(), [this] { flood(); }); }
    auto on = [&](unsigned w) { return ch.chance(w, 100); };
    if (on(25)) {  // partitions
        for (uint32_t i = ch.range(1, 2); i > 0; --i) {
            const I64 a = when(), b = a + I64(ch.range64(0, uint64_t(span) / 2));
            at(a, [this] { partition = true; r.fault("partition"); r.log("network partitioned"); });
            at(b, [this] { partition = false; r.log("partition heals"); });
        }
    }
    if (on(30)) {  // address translation changes
        for (uint32_t i = ch.range(1, 4); i > 0; --i) {
            at(when(), [this] {
                Host& h = *hosts[ch.pick(uint32_t(hosts.size()))];
                auto it = h.nat.begin();
                std::advance(it, ch.pick(uint32_t(h.nat.size())));
                it->second = nat_addr(2);
                r.fault("nat-rebind");
                r.log("%s now seen as %s", h.cl->name().c_str(), it->second.str().c_str());
            });
        }
    }
    if (on(25)) {  // server crash and restart
        for (uint32_t i = ch.range(1, 2); i > 0; --i) {
            const I64 a = when(), b = a + I64(ch.range64(0, uint64_t(span) / 4));
            const unsigned k = ch.pick(uint32_t(servers.size()));
            at(a, [this, k] {
                Server& s = *servers[k];
                s.up = false;
                if (s.real) { s.rs.srv.reset(); }
                r.fault("server-crash");
                r.log("server %u crashes", k);
            });
            at(b, [this, k] {
                Server& s = *servers[k];
                if (s.real && !s.rs.srv) { s.rs.srv = make_server(s, &s.rs.hash); }
                s.up = true;
                r.log("server %u restarts", k);
            });
        }
    }
    if (on(20)) {  // client crash and restart
        for (uint32_t i = ch.range(1, 2); i > 0; --i) {
            at(when(), [this] {
                Host& h = *hosts[ch.pick(uint32_t(hosts.size()))];
                h.cl->restart();
                h.wake++;
                if (ch.chance(1, 4)) { h.rnd.good = 0x1234567; }
                r.fault("client-crash");
            });
        }
    }
    if (on(25)) {  // clock jumps
        for (uint32_t i = ch.range(1, 3); i > 0; --i) {
            at(when(), [this] {
                Host& h = *hosts[ch.pick(uint32_t(hosts.size()))];
                I64 d = I64(ch.range64(0, uint64_t(U) * ch.of<uint32_t>({1, 10, 100})));
                if (pf.hostile && ch.chance(1, 2)) { d = -d; }
                h.clk.jump(r.now, d);
                r.fault(d < 0 ? "clock-jump-back" : "clock-jump");
                r.log("%s clock jumps by %lld us", h.cl->name().c_str(), (long long)d);
            });
        }
    }
    if (on(20)) { for (uint32_t i = ch.range(1, 3); i > 0; --i) { at(when(), [this] { register_user(); }); } }
    if (on(pf.storms)) {  // a peer that repeats itself
        for (uint32_t i = ch.range(1, 3); i > 0; --i) { at(when(), [this] { storm(); }); }
    }
    if (on(20)) {  // client stalls
        at(when(), [this] {
            Host& h = *hosts[ch.pick(uint32_t(hosts.size()))];
            r.fault("stall");
            poll_later(h, r.now + I64(ch.range64(0, uint64_t(U) * 30)));
        });
    }
    const unsigned cap = m_patient ? 60000 : 6000;
    pump(span, cap);
    if (m_events >= cap) { r.probe("event-cap"); }

    // faults stop
    m_heal = true;
    partition = false;
    r.log("---- faults stop");
    for (auto it = q.begin(); it != q.end();) {  // what was not created by now is not created any more
        if (it->first.first > r.now + (I64(1) << 55)) { it = q.erase(it); } else { ++it; }
    }
    q.clear();  // datagrams still on their way are lost
    for (auto& s : servers) {
        if (s->real && !s->rs.srv) { s->rs.srv = make_server(*s, &s->rs.hash); }
        s->up = true;
    }
    heal_latency = I64(ch.range64(0, uint64_t(U) / 8));
    for (auto& h : hosts) { if (h->rnd.mode) { h->rnd.mode = 0; h->rnd.good += 977; } drive(*h); }
    for (auto& h : hosts) { for (uint32_t i = ch.range(1, 2); i > 0; --i) { app_create(*h, true); } }
    I64 bound = 0;
    for (auto& h : hosts) { bound = std::max(bound, h->cl->worst_bound()); }
    const I64 end = r.now + bound * 8 + U * 10 + 1000;
    pump(end, m_patient ? 400000 : 20000);
    if (!q.empty()) {
        bool busy = false, known = true;
        for (auto& h : hosts) { busy |= !h->cl->hostile(); known &= h->cl->deadlines_known(); }
        if (busy && known) { r.violate({"C04", "C11"}, "never-idle", "clients are still busy long after the last scheduled wait"); }
    }
    for (auto& h : hosts) {
        r.eval("C11");
        h->cl->final_checks();
        bool idle = false;
        if (h->cl->live() == 0) {
            auto p = h->cl->poll(local(*h));
            idle = p.k == ClientNode::Polled::Idle;
            if (p.k != ClientNode::Polled::Idle && !h->cl->hostile() && h->cl->deadlines_known()) {
                r.violate({"C04", "C11"}, "not-idle-at-end", h->cl->name() + ": not idle although nothing is unfinished and every deadline has passed");
            }
        }
        if (idle) { h->cl->retained(); }
        r.log("%s created %zu succeeded %zu failed %zu", h->cl->name().c_str(), h->cl->created, h->cl->succeeded, h->cl->failed);
        if (h->cl->created) { r.probe(h->cl->lenient() && !h->cl->hostile() ? "client-lenient" : "client-in-lockstep"); }
    }
    for (auto& s : servers) {
        if (!s->real) { continue; }
        auto fresh = make_server(*s, &s->rs.hash);
        const uint64_t f0 = sim::freed_bytes();
        s->rs.srv.reset();
        const uint64_t held = sim::freed_bytes() - f0;
        fresh.reset();
        const uint64_t base = sim::freed_bytes() - f0 - held;
        r.eval("M01");
        r.log("a server holds %" PRIu64 " bytes, a new one %" PRIu64, held, base);
        if (held > base + base / 2 + 1024) { r.violate({"M01"}, "retained", strf("a server holds %" PRIu64 " bytes, one that is new and has the same users %" PRIu64, held, base)); }
    }
    if (r.wants("W03") || r.wants("ALL")) { r.eval("W03"); }
}

// ------------------------------------------------------------------ marathon
// One client that never rests: more transactions than fit in 16 bits, while a
// few of them stay unfinished all the time
static void marathon(Run& r) {
    using us = std::chrono::microseconds;
    Choices& ch = r.ch;
    uint64_t s = ch.range64(1, ~0ull - 1);
    auto rnd = [&s](uint32_t n) { s = s * 6364136223846793005ull + 1442695040888963407ull; return uint32_t((s >> 33) % n); };
    struct Dev { uint64_t s; uint32_t operator()() { s = s * 2862933555777941757ull + 3037000493ull; return uint32_t(s >> 32); } } dev{s ^ 0x55};
    stun::ClientUDP::Settings set;
    set.use_fingerprint = stun::client_udp::Settings::UseFingerprint{false};
    stun::client_udp::Settings::RetransmitDefault d;
    const I64 rto = 1000000000ll;
    d.request_count = 7;
    set.retransmit = d;
    set.rto_settings.initial_rto = us(rto);
    set.rto_settings.history_duration = us(1);   // nothing is learned
    stun::ClientUDP cl(set);
    const Addr src{gen_addr(ch, 0).ip, 1000}, dst{gen_addr(ch, 0).ip, 3478};
    const I64 origin = ch.chance(1, 2) ? 0 : World::pick_origin(ch);
    auto tp = [&] { return stun::ClientUDP::Timepoint::epoch().advance(us(I64(uint64_t(origin) + uint64_t(r.now)))); };
    struct Tx { Bytes tid; bool answered = false; Addr addr; };
    std::map<unsigned, Tx> live;
    std::vector<unsigned> hs;        // unanswered
    const uint32_t total = ch.range(65600, 67500), window = ch.range(1, 12), keep = ch.range(1, 4);
    uint32_t made = 0, done = 0;
    r.fault("marathon");
    r.log("marathon of %u transactions, %u at once, %u stay", total, window, keep);
    r.eval("C01"); r.eval("C07");
    auto drain = [&] {
        for (unsigned i = 0;; ++i) {
            if (i > 1000) { r.violate({"C01", "C04"}, "endless", "a client that keeps asking to send"); r.abandon("endless"); }
            auto e = cl.next(tp());
            if (auto *x = std::get_if<stun::ClientUDP::SendData>(&e)) {
                auto it = live.find(x->handle.value);
                if (it == live.end()) { r.violate({"C01", "C07"}, "foreign-send", strf("transmission for handle %u, which is no unfinished transaction, after %u transactions", x->handle.value, made)); r.abandon("foreign"); }
                const Bytes msg = to_bytes(x->message_view);
                if (msg.size() < 20) { r.violate({"W02"}, "short", "a request that is no message"); r.abandon("short"); }
                Bytes tid(msg.begin() + 8, msg.begin() + 20);
                if (it->second.tid.empty()) { it->second.tid = tid; }
                if (it->second.tid != tid) { r.violate({"C01", "C04"}, "wrong-request", strf("transmission for handle %u carries another transaction, after %u transactions", x->handle.value, made)); r.abandon("foreign"); }
                continue;
            }
            const auto *ok = std::get_if<stun::ClientUDP::TransactionOk>(&e);
            const auto *bad = std::get_if<stun::ClientUDP::TransactionFailed>(&e);
            if (!ok && !bad) { break; }
            const unsigned h = ok ? ok->handle.value : bad->handle.value;
            auto it = live.find(h);
            if (it == live.end()) { r.violate({"C01"}, "extra-outcome", strf("outcome for handle %u, which is no unfinished transaction, after %u transactions", h, made)); r.abandon("extra"); }
            if (!ok || !it->second.answered) { r.violate({"C01", "C03"}, "wrong-outcome", strf("handle %u %s, after %u transactions", h, ok ? "succeeded without a response" : "failed although it was answered", made)); r.abandon("wrong"); }
            if (from_ep(ok->result.address, ok->result.port) != it->second.addr) { r.violate({"C01", "C02"}, "wrong-result", strf("handle %u got the answer to another transaction, after %u transactions", h, made)); }
            live.erase(it);
            done++;
        }
    };
    while (made < total || live.size() > keep) {
        const bool more = made < total && (live.size() < keep + 1 || (live.size() < keep + window && rnd(2)));
        if (more) {
            auto res = cl.create(dev, tp(), stun::ClientUDP::Request{.path = fw::net::Path{to_ip(src.ip), to_ip(dst.ip)}, .attrs = {}, .unknown_attrs = {}});
            if (res.is_err()) { r.violate({"C01", "C11"}, "create-failed", strf("create() failed after %u transactions", made)); r.abandon("create"); }
            const unsigned h = res.unwrap().value;
            if (live.count(h)) { r.violate({"C01", "C07"}, "handle-reused", strf("handle %u given to two simultaneous transactions, after %u transactions", h, made)); r.abandon("handle reused"); }
            live.emplace(h, Tx());
            if (made++ >= keep) { hs.push_back(h); }
        } else if (!hs.empty()) {
            const uint32_t k = rnd(uint32_t(hs.size()));
            Tx& t = live.at(hs[k]);
            hs[k] = hs.back();
            hs.pop_back();
            if (t.tid.empty()) { r.violate({"C01", "C04"}, "not-sent", strf("handle not transmitted at once, after %u transactions", made)); r.abandon("not sent"); }
            t.answered = true;
            t.addr = Addr{Bytes{10, uint8_t(rnd(256)), uint8_t(rnd(256)), uint8_t(rnd(256))}, uint16_t(rnd(65536))};
            ref::Msg m;
            m.cls = ref::SUCCESS;
            m.method = 1;
            m.tid = t.tid;
            m.attrs.push_back({ref::XOR_MAPPED, ref::enc_xor_addr(t.addr, t.tid)});
            const Bytes b = ref::encode(m, ref::EncodeOpts());
            cl.response(tp(), view(b));
        }
        drain();
        r.now += rnd(100);
    }
    r.log("%u created, %u outcomes, %zu unfinished", made, done, live.size());
    if (done + live.size() != made || live.size() != keep) { r.violate({"C01"}, "lost", strf("%u created, %u outcomes", made, done)); }
    auto e = cl.next(tp());
    if (std::holds_alternative<stun::ClientUDP::Idle>(e)) { r.violate({"C01", "C04"}, "idle-too-early", "idle although transactions are unfinished"); }
    r.probe("marathon-finished");
}

// ----------------------------------------------------------------- endurance
// A client that is configured for hundreds of transmissions of one request, and
// peers that are silent or in trouble for (nearly) as long
static void endurance(Run& r) {
    Choices& ch = r.ch;
    ClientConfig c;
    c.initial_rto = ch.of<I64>({1000, 500000, 37, 250001});
    c.rc = ch.of<unsigned>({300, 7, 260, 600, 257, 256, 1});
    c.rm = ch.range(1, 3);
    c.max_rto = c.initial_rto * I64(ch.range(1, 4));
    if (ch.chance(2, 3)) {
        c.t5xx = ch.chance(1, 2) ? c.initial_rto : I64(ch.range64(1, uint64_t(c.initial_rto) * 3));
        c.n5xx = ch.of<unsigned>({300, 4, 258, 257, 256, 600, 255});
    }
    c.history = 3600000000000ll;
    ClientNode cl(r, "client0", c, ch.chance(1, 3) ? World::pick_origin(ch) : 0);
    SimRandom rnd;
    rnd.ch = &ch;
    rnd.good = 0x1234567 + (uint64_t(ch.pick(65536)) << 32);
    r.fault("endurance");
    r.log("client0 %s", c.str().c_str());
    const Addr src = gen_addr(ch, 0), dst = gen_addr(ch, 0);
    struct Plan { unsigned sends = 0, answer_at, troubles; int kind; Bytes tid; };
    std::map<unsigned, Plan> plans;
    const unsigned total = ch.range(1, 3);
    unsigned made = 0;
    const std::vector<unsigned> spots = {257, 256, 255, 258, 128, 129, 300, 512, 513, 2, 1, 1000};
    auto respond = [&](const Plan& p, int kind, const std::string& why) {
        ref::Msg m;
        m.method = 1;
        m.tid = p.tid;
        Origin o;
        if (kind == 0) {
            const Addr a = gen_addr(ch, 2);
            m.cls = ref::SUCCESS;
            m.attrs.push_back({ref::XOR_MAPPED, ref::enc_xor_addr(a, m.tid)});
            o.truth = a;
        } else {
            m.cls = ref::ERROR;
            m.attrs.push_back({ref::ERRCODE, ref::enc_error(kind == 1 ? 400 + ch.pick(20) : 500 + ch.pick(100), why, 0)});
        }
        cl.response(r.now, ref::encode(m, ref::EncodeOpts()), o, false, 0);
    };
    for (unsigned steps = 0; steps < 6000; ++steps) {
        if (made < total && (cl.live() == 0 || ch.chance(1, 200))) {
            RequestSpec s;
            s.src = src.ip;
            s.dst = dst.ip;
            if (!cl.create(r.now, s, rnd, 0)) { break; }
            made++;
            continue;
        }
        auto p = cl.poll(r.now);
        using P = ClientNode::Polled;
        if (p.k == P::Send) {
            auto it = plans.find(p.hnd);
            if (it == plans.end()) {
                Plan n;
                n.answer_at = spots[ch.pick(uint32_t(spots.size()))];
                n.troubles = c.t5xx && ch.chance(1, 2) ? spots[ch.pick(uint32_t(spots.size()))] : 0;
                n.kind = int(ch.pick(3)) / 2;
                if (p.data.size() >= 20) { n.tid.assign(p.data.begin() + 8, p.data.begin() + 20); }
                it = plans.emplace(p.hnd, n).first;
            }
            Plan& q = it->second;
            q.sends++;
            if (q.tid.empty()) { continue; }
            if (ch.chance(1, 6)) { r.now += I64(ch.range64(0, uint64_t(c.initial_rto) / 4)); }
            if (q.sends <= q.troubles) { respond(q, 2, "busy"); }
            if (q.sends == q.answer_at) { respond(q, q.kind, "no"); }
            continue;
        }
        if (p.k == P::Sleep) { if (p.sleep <= 0) { break; } r.now += p.sleep; continue; }
        if (p.k == P::Idle && made == total) {
            cl.final_checks();
            r.probe("endurance-finished");
            break;
        }
    }
}

// --------------------------------------------------------------------- atlas
// A client with many paths (interfaces times servers), each of which has to keep
// its own timeout for as long as its last measurement is valid
static void atlas(Run& r) {
    Choices& ch = r.ch;
    ClientConfig c;
    c.initial_rto = ch.of<I64>({500000, 100000, 3000000, 250001, 1000});
    c.rc = ch.of<unsigned>({7, 3, 4});
    c.rm = ch.range(1, 16);
    if (ch.chance(1, 3)) { c.max_rto = c.initial_rto * I64(ch.range(2, 12)); }
    c.history = ch.chance(1, 5) ? c.initial_rto * I64(ch.range(20, 400)) : 3600000000000ll;
    ClientNode cl(r, "client0", c, ch.chance(1, 3) ? World::pick_origin(ch) : 0);
    SimRandom rnd;
    rnd.ch = &ch;
    rnd.good = 0x1234567 + (uint64_t(ch.pick(65536)) << 32);
    r.fault("many-paths");
    std::vector<Addr> srcs, dsts;
    const unsigned interfaces = ch.of<unsigned>({1, 3, 2, 8});
    const unsigned servers = ch.of<unsigned>({40, 10, 20, 70, 140, 300}) / (interfaces > 2 ? interfaces / 2 : 1);
    auto fill = [&](std::vector<Addr>& v, unsigned n) {
        v.push_back(gen_addr(ch, 2));
        while (v.size() < n) {  // mostly near each other
            Addr a = v.back();
            if (ch.chance(1, 10)) { a = gen_addr(ch, 2); }
            const size_t at = a.ip.size() - 1 - (ch.chance(1, 4) ? ch.pick(uint32_t(a.ip.size())) : 0);
            a.ip[at] = uint8_t(a.ip[at] + 1 + ch.pick(3));
            v.push_back(a);
        }
    };
    fill(srcs, interfaces);
    fill(dsts, servers);
    const unsigned all = unsigned(srcs.size() * dsts.size());
    r.log("client0 %s, %u paths", c.str().c_str(), all);
    const unsigned total = std::min(all, 400u) + ch.range(10, 100);
    unsigned first = 0, answer_at = 1;
    unsigned sends = 0;
    for (unsigned steps = 0, made = 0; steps < 6000; ++steps) {
        if (made < total && cl.live() == 0) {
            // new paths in turn, with a look back now and then; at last the old ones
            const unsigned known = std::min(first, all);
            const unsigned i = known < all && made < std::min(all, 400u) && !(known && ch.chance(1, 10)) ? first++ : ch.chance(1, 3) ? ch.pick(std::min(known, 4u)) : ch.pick(known);
            RequestSpec s;
            s.src = srcs[i / dsts.size()].ip;
            s.dst = dsts[i % dsts.size()].ip;
            sends = 0;
            answer_at = ch.chance(1, 12) ? ch.range(2, c.rc + 1) : 1;
            if (!cl.create(r.now, s, rnd, 0)) { break; }
            made++;
            continue;
        }
        auto p = cl.poll(r.now);
        using P = ClientNode::Polled;
        if (p.k == P::Send) {
            if (++sends != answer_at || p.data.size() < 20) { continue; }
            ref::Msg m;
            m.method = 1;
            m.cls = ref::SUCCESS;
            m.tid.assign(p.data.begin() + 8, p.data.begin() + 20);
            Origin o;
            const Addr a = gen_addr(ch, 2);
            m.attrs.push_back({ref::XOR_MAPPED, ref::enc_xor_addr(a, m.tid)});
            o.truth = a;
            r.now += I64(ch.range64(0, uint64_t(c.initial_rto) / 3));
            cl.response(r.now, ref::encode(m, ref::EncodeOpts()), o, false, 0);
            continue;
        }
        if (p.k == P::Sleep) { if (p.sleep <= 0) { break; } r.now += p.sleep; continue; }
        if (p.k == P::Idle && made == total) {
            cl.final_checks();
            r.probe("many-paths-finished");
            break;
        }
    }
}

// ------------------------------------------------------------------ scenario
static void scenario(Run& r) {
    static const char *const lasting[] = {"C01", "C02", "C03", "C04", "C05", "C06"};
    for (auto p : lasting) { if (r.wants(p)) { if (r.ch.chance(1, 150)) { endurance(r); return; } break; } }
    if (r.wants("C01") && r.ch.chance(1, 2500)) { marathon(r); return; }
    if (r.wants("C06") && r.ch.chance(1, 40)) { atlas(r); return; }
    if (!r.wants("C12")) {
        World w(r, std::nullopt);
        w.run();
        return;
    }
    // the same execution with two origins of time
    const I64 origin = World::pick_origin(r.ch);
    const size_t start = r.ch.used();
    sim::Totals scratch;
    auto play = [&](Choices& c, I64 o, bool text, std::vector<std::string>& lines, uint64_t& hash, I64& dur) {
        Run x(c, "C12x", scratch, text);
        x.keep_lines = true;
        try {
            World w(x, o);
            w.run();
        } catch (sim::Abandon& a) { x.log("abandoned: %s", a.why.c_str()); }
        lines = std::move(x.lines);
        hash = x.log_hash();
        dur = x.now;
    };
    std::vector<std::string> la, lb;
    uint64_t ha, hb;
    I64 da, db;
    play(r.ch, 0, false, la, ha, da);
    auto c2 = Choices::replay(r.ch.returned(start));
    play(c2, origin, r.text, lb, hb, db);
    r.now = da + db;
    r.log("origin %lld: %zu events, hash %016" PRIx64, (long long)origin, la.size(), ha);
    r.eval("C12");
    for (auto& [k, v] : scratch.faults) { r.tot.faults[k] += v; }
    for (auto& [k, v] : scratch.probes) { r.tot.probes[k] += v; }
    r.step(uint32_t(ha));
    r.state(ha);
    for (size_t i = 0; i < std::max(la.size(), lb.size()); ++i) {
        const std::string a = i < la.size() ? la[i] : "(end)", b = i < lb.size() ? lb[i] : "(end)";
        if (a != b) { r.violate({"C12"}, "depends-on-origin", strf("with clocks starting at %lld: '", (long long)origin) + b + "', with clocks starting at 0: '" + a + "'"); break; }
    }
    r.log("hash b %016" PRIx64, hb);
}

}

int main(int argc, char **argv) { return sim::sim_main(argc, argv, ws::scenario); }
