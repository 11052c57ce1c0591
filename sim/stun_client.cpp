#include "stun_client.hpp"
#include <algorithm>

namespace ws {

using sim::strf;

// ------------------------------------------------------------------ helpers
std::string ClientConfig::str() const {
    return strf("rto=%lldus rc=%u rm=%u max=%lld T=%lld N=%u history=%lld fp=%d altunauth=%d tidhash=%d", (long long)initial_rto, rc, rm,
                (long long)max_rto.value_or(-1), (long long)t5xx.value_or(-1), n5xx, (long long)history, fingerprint, allow_unauth_alternate, tid_hash);
}

uint32_t SimRandom::operator()() {
    drawn++;
    uint32_t v;
    // a poor device repeats a few words, but not for ever
    if (mode == 1 && drawn < 40) { v = ch->pick(2); }
    else {
        good = good * 6364136223846793005ull + 1442695040888963407ull + (mode == 0 ? 0 : ch->pick(1000));
        v = uint32_t(good >> 32);
    }
    words.push_back(v);
    return v;
}

namespace {
struct ConstTidHash : fw::util::hash::dynamic::Algorithm<stun::TransactionId> {
    std::size_t hash(const stun::TransactionId&) const noexcept override { return 42; }
};
struct FewTidHash : fw::util::hash::dynamic::Algorithm<stun::TransactionId> {
    std::size_t hash(const stun::TransactionId& t) const noexcept override { return t.view().size() ? *t.view().begin() & 1 : 0; }
};

template<typename A>
stun::TransactionIdHash make_tid_hash() {
    return stun::TransactionIdHash::create<fw::util::hash::dynamic::AlgorithmSingleton<stun::TransactionId, A>>();
}

stun::Attribute::Value to_value(const ref::Attr& a, const Bytes& tid12) {
    ref::Msg m;
    m.tid = tid12;
    m.attrs.push_back(a);
    auto be = [](const Bytes& b) { uint64_t v = 0; for (auto x : b) { v = v << 8 | x; } return v; };
    switch (a.type) {
    case ref::SOFTWARE: return stun::SoftwareAttribute{std::string(a.value.begin(), a.value.end())};
    case ref::PRIORITY: return stun::PriorityAttribute{uint32_t(be(a.value))};
    case ref::ICE_CONTROLLED: return stun::IceControlledAttribute{be(a.value)};
    case ref::ICE_CONTROLLING: return stun::IceControllingAttribute{be(a.value)};
    case ref::MAPPED: { auto x = *m.mapped(); return stun::MappedAddressAttribute{to_ip(x.ip), fw::net::Port(x.port)}; }
    case ref::ALT_SERVER: { auto x = *m.alt_server(); return stun::AlternateServerAttribute{to_ip(x.ip), fw::net::Port(x.port)}; }
    default: return stun::UseCandidateAttribute{};
    }
}
}

std::string OutcomeM::str() const {
    std::string s;
    switch (k) {
    case Ok: return "success " + addr.str() + (rtt ? strf(" rtt=%lld", (long long)*rtt) : std::string(" no rtt"));
    case Ucr: s = "unknown-required"; break;
    case UnknownReported: s = "unknown-reported"; break;
    case Alternate: return "alternate " + addr.str();
    case Code: return strf("error-code %u '%s'", code, sim::hex(Bytes(reason.begin(), reason.end()), 24).c_str());
    case Error: return "error";
    case Timeout: return "timeout";
    }
    for (auto t : types) { s += strf(" %04x", t); }
    return s;
}

// --------------------------------------------------------------- client node
ClientNode::ClientNode(Run& run, std::string name, const ClientConfig& cfg, I64 origin)
    : r(run), m_name(std::move(name)), m_cfg(cfg), m_origin(origin) {
    m_isolated = r.wants("C07") || r.wants("ALL");
    fresh();
}
ClientNode::~ClientNode() = default;

stun::ClientUDP::Timepoint ClientNode::tp(I64 now) const {
    return fw::clock::Timepoint::epoch().advance(std::chrono::microseconds(I64(uint64_t(m_origin) + uint64_t(now))));
}

static std::unique_ptr<stun::ClientUDP> make_client(const ClientConfig& c) {
    using us = std::chrono::microseconds;
    using S = stun::ClientUDP::Settings;
    S s = c.tid_hash == 1 ? S{.maybe_tid_hash = make_tid_hash<ConstTidHash>()}
        : c.tid_hash == 2 ? S{.maybe_tid_hash = make_tid_hash<FewTidHash>()} : S{};
    s.use_fingerprint = stun::client_udp::Settings::UseFingerprint{c.fingerprint};
    stun::client_udp::Settings::RetransmitDefault d;
    if (c.max_rto) { d.max_rto = us(*c.max_rto); }
    d.request_count = c.rc;
    d.retransmission_multiplier = c.rm;
    if (c.t5xx) { d.server_error_timeout = us(*c.t5xx); }
    d.server_error_max_retransmits = c.n5xx;
    s.retransmit = d;
    s.rto_settings.initial_rto = us(c.initial_rto);
    s.rto_settings.history_duration = us(c.history);
    s.allow_unauthenticated_alternate = c.allow_unauth_alternate;
    return std::make_unique<stun::ClientUDP>(s);
}

void ClientNode::fresh() {
    m_cl = make_client(m_cfg);
    m_tx.clear();
    m_delivered.clear();
    m_paths.clear();
    m_shadows.clear();
    m_max_deadline = INT64_MIN;
    m_promised = INT64_MAX;
    m_lateness = 0;
    m_late_said = false;
    must.clear();
    m_paths_used.clear();
    m_peak = m_made = m_armed_peak = m_events = 0;
    m_armed.clear();
}

void ClientNode::restart() {
    r.log("%s crash and restart, %zu transactions lost", m_name.c_str(), m_tx.size());
    fresh();
}

void ClientNode::mismatch(std::vector<const char *> tags, const char *cls, const std::string& msg) {
    if (m_lenient) { return; }
    r.violate_v(tags, cls, m_name + ": " + msg);
    m_lenient = true;  // the model no longer follows; only bookkeeping from here on
}

std::string ClientNode::txlog(const TxM& t) const {
    return strf("transaction %u (sent %u times, rtx %u, 5xx %u, rto %lld, age %lld)", t.hnd, t.sends, t.rtx, t.n5, (long long)t.init_rto,
                (long long)(m_last_now - t.create));
}

std::vector<const char *> ClientNode::sched_tags(const TxM& t, std::initializer_list<const char *> base) const {
    // after a server error the schedule is the subject of C05; the first wait
    // on a measured path that of C06
    if (t.n5 > 0) { return {"C05"}; }
    if (t.measured && t.sends <= 1) { return {"C06"}; }
    std::vector<const char *> v(base);
    if (t.measured) { v.push_back("C06"); }
    return v;
}

void ClientNode::set_due(TxM& t, I64 due) {
    t.due = due;
    m_armed.insert(due);
    m_armed_peak = std::max(m_armed_peak, m_armed.size());
    m_max_deadline = t.fuzzy ? INT64_MAX : std::max(m_max_deadline, due);
}

bool ClientNode::has_pending() const {
    for (auto& [h, t] : m_tx) { if (!t.pending.empty()) { return true; } }
    return false;
}
size_t ClientNode::live() const { return m_tx.size(); }

uint64_t ClientNode::state_hash(I64 now) const {
    uint64_t h = 7;
    std::vector<uint64_t> v;
    for (auto& [hnd, t] : m_tx) {
        uint64_t x = sim::mix(t.rtx, t.n5);
        x = sim::mix(x, t.finished);
        x = sim::mix(x, t.pending.size());
        x = sim::mix(x, t.cred.has_value());
        x = sim::mix(x, t.due > now ? 1 : 0);
        x = sim::mix(x, t.measured);
        v.push_back(x);
    }
    std::sort(v.begin(), v.end());
    for (auto x : v) { h = sim::mix(h, x); }
    h = sim::mix(h, m_paths.size());
    return sim::mix(h, m_cfg.rc);
}

// ------------------------------------------------------- timeout estimation
ClientNode::RtoAnswer ClientNode::rto(const std::string& path, I64 now) const {
    auto it = m_paths.find(path);
    if (it == m_paths.end()) { return {m_cfg.initial_rto, true, false}; }
    auto& e = it->second;
    if (e.smooth == PathE::Unknown) { return {m_cfg.initial_rto, false, true}; }
    I64 v = e.backoff ? *e.backoff : e.smooth == PathE::Known ? e.srtt + std::max<I64>(1, 4 * e.rttvar) : m_cfg.initial_rto;
    // past its history a value may be kept or forgotten
    bool certain = now - e.last_update <= m_cfg.history || v == m_cfg.initial_rto;
    return {v, certain, true};
}
I64 ClientNode::expected_rto(const std::string& path, I64 now) const { return rto(path, now).value; }

void ClientNode::new_rtt(I64 now, const std::string& path, I64 rtt) {
    auto it = m_paths.find(path);
    if (it == m_paths.end()) { it = m_paths.emplace(path, PathE{}).first; it->second.last_update = now; }
    auto& e = it->second;
    if (now - e.last_update > m_cfg.history && e.smooth != PathE::None) { e.smooth = PathE::Unknown; }
    if (e.smooth == PathE::Known) {
        I64 d = e.srtt > rtt ? e.srtt - rtt : rtt - e.srtt;
        e.rttvar = (3 * e.rttvar + d) / 4;
        e.srtt = (7 * e.srtt + rtt) / 8;
    } else if (e.smooth == PathE::None) {
        e.smooth = PathE::Known;
        e.srtt = rtt;
        e.rttvar = rtt / 2;
    }
    e.backoff.reset();
    e.last_update = now;
    for (auto i = m_paths.begin(); i != m_paths.end();) {
        if (i->first != path && now - i->second.last_update > m_cfg.history) { i = m_paths.erase(i); r.probe("path-history-expired"); } else { ++i; }
    }
}
void ClientNode::backoff(I64 now, const std::string& path, I64 v) {
    auto& e = m_paths[path];
    if (e.smooth != PathE::None && now - e.last_update > m_cfg.history) { e.smooth = PathE::Unknown; }
    e.backoff = v;
    e.last_update = now;
}

// ------------------------------------------------------------------ creation
bool ClientNode::create(I64 now, const RequestSpec& s, SimRandom& rnd, int hash_fail, bool must_succeed) {
    m_last_now = now;
    const std::string path = path_key(s);
    fw::net::Path np{to_ip(s.src), to_ip(s.dst)};
    auto build = [&](fw::crypto::SHA1Hash::Func f) -> std::optional<stun::ClientUDP::Request> {
        stun::ClientUDP::Request rq{np, {}, {}};
        for (auto& a : s.attrs) {
            if (ref::is_known(a.type)) { rq.attrs.emplace_back(to_value(a, Bytes(12))); }
            else { rq.unknown_attrs.emplace_back(stun::AttributeType::from_uint16(a.type), view(a.value)); }
        }
        if (s.cred) {
            auto pw = stun::Password::short_term(fw::precis::OpaqueString(std::string(s.cred->password.begin(), s.cred->password.end())), f);
            if (pw.is_err()) { return std::nullopt; }
            rq.maybe_auth = stun::ClientUDP::Auth{fw::precis::OpaqueString(s.cred->user), stun::IntegrityData{pw.unwrap(), f}};
        }
        return rq;
    };
    auto plain = [](const fw::crypto::SHA1Hash::Input& in) { return fw::crypto::openssl::sha1(in); };
    if (s.cred && hash_fail > 0) {
        // deriving the password may fail, too
        m_hash.arm(hash_fail);
        auto probe_rq = build(m_hash.func());
        bool trig = m_hash.triggered;
        m_hash.disarm();
        if (trig) {
            r.eval("H01");
            r.probe("hash-fail-password");
            r.fault("hash-failure");
            if (probe_rq) { r.violate({"H01"}, "password-despite-hash-failure", m_name + ": a password was derived although the hash provider failed"); }
        }
    }
    auto rq = build(m_hash.func());
    if (!rq) {
        r.violate({"H02", "H01"}, "no-password", m_name + ": deriving a password failed");
        return false;
    }
    m_hash.arm(s.cred ? hash_fail : 0);
    rnd.words.clear();
    rnd.drawn = 0;
    auto res = m_cl->create(rnd, tp(now), std::move(*rq));
    const bool trig = m_hash.triggered;
    m_hash.disarm();
    if (trig) {
        r.fault("hash-failure");
        r.eval("H01");
        r.log("%s create with failing hash: %s", m_name.c_str(), res.is_err() ? "error" : "handle");
        if (res.is_ok()) { mismatch({"H01"}, "created-despite-hash-failure", "create() succeeded although the hash provider failed"); }
        return false;
    }
    if (res.is_err()) {
        r.log("%s create failed", m_name.c_str());
        mismatch({"C01", "C11", "H02"}, "create-failed", "create() failed for no reason");
        return false;
    }
    created++;
    TxM t;
    t.hnd = res.unwrap().value;
    r.log("%s create -> #%u path %s%s attrs %zu", m_name.c_str(), t.hnd, path.c_str(), s.cred ? " auth" : "", s.attrs.size());
    r.step(1);
    r.eval("C01"); r.eval("C07"); r.eval("C11");
    if (m_tx.count(t.hnd)) {
        r.violate({"C07", "C01"}, "handle-reused", m_name + strf(": handle %u given to two simultaneous transactions", t.hnd));
        r.abandon("handle reused");
    }
    m_delivered.erase(t.hnd);
    for (size_t i = rnd.words.size() >= 3 ? rnd.words.size() - 3 : 0; i < rnd.words.size(); ++i) {
        for (int k = 0; k < 4; ++k) { t.tid.push_back(uint8_t(rnd.words[i] >> (8 * k))); }
    }
    if (rnd.words.size() > 3) { r.probe("tid-collision"); }
    t.path = path;
    t.create = now;
    t.cred = s.cred;
    t.spec = s;
    auto a = rto(path, now);
    t.fuzzy = !a.certain;
    if (t.fuzzy) { r.probe("fuzzy-transaction"); }
    t.measured = a.measured;
    if (a.measured && a.certain) { r.eval("C06"); r.probe("learned-rto-used"); }
    auto cap = [&](I64 v) { return m_cfg.max_rto ? std::min(v, *m_cfg.max_rto) : v; };
    t.init_rto = a.value;
    t.last_to = cap(m_cfg.rc == 1 ? a.value * I64(m_cfg.rm) : a.value);
    set_due(t, now + t.last_to);
    t.pending.push_back(std::nullopt);
    {
        // no answers, or answers with 5xx at the worst moments: each adds a
        // transmission, and waits go on doubling from the longest one so far
        auto twice = [](I64 v) { return std::min<I64>(v * 2, I64(1) << 50); };
        const I64 first = std::max(a.value, m_cfg.initial_rto);
        I64 w = 0, x = first;
        for (unsigned i = 0; i < m_cfg.rc; ++i) { w += cap(x); x = twice(x); }
        w += cap(first * I64(m_cfg.rm));
        x = std::max(x, first * I64(m_cfg.rm));
        for (unsigned i = 0; m_cfg.t5xx && i < m_cfg.n5xx; ++i) { x = twice(x); w += *m_cfg.t5xx + cap(x); }
        // learned values the model does not know have no bound it could tell
        t.bound = t.fuzzy || m_lenient ? INT64_MAX / 4 : w;
        t.late0 = m_lateness;
        m_worst_bound = std::max(m_worst_bound, w);
    }
    m_promised = std::min(m_promised, now);
    if (must_succeed) { must.insert(t.hnd); t.must_succeed = true; }
    if (m_isolated && !m_lenient && !a.measured) {
        Shadow sh;
        sh.cl = make_client(m_cfg);
        stun::ClientUDP::Request rq2 = *build(plain);
        struct Again { std::vector<uint32_t> w; size_t i = 0; uint32_t operator()() { return i < w.size() ? w[i++] : uint32_t(++i); } } again;
        again.w.assign(rnd.words.end() - std::min<long>(3, long(rnd.words.size())), rnd.words.end());
        auto h2 = sh.cl->create(again, tp(now), std::move(rq2));
        if (h2.is_ok()) { sh.hnd = h2.unwrap().value; sh.tid = t.tid; m_shadows.emplace(t.hnd, std::move(sh)); }
    }
    m_tx.emplace(t.hnd, std::move(t));
    m_paths_used.insert(path);
    m_made++;
    m_peak = std::max(m_peak, m_tx.size());
    check_views("create");
    return true;
}

std::optional<I64> ClientNode::schedule_of(unsigned hnd) const {
    auto it = m_tx.find(hnd);
    if (it == m_tx.end()) { return std::nullopt; }
    auto cap = [&](I64 v) { return m_cfg.max_rto ? std::min(v, *m_cfg.max_rto) : v; };
    I64 w = 0, x = it->second.init_rto;
    for (unsigned i = 0; i + 1 < m_cfg.rc; ++i) { x = cap(x); w += x; x *= 2; }
    return w + cap(it->second.init_rto * m_cfg.rm);
}
I64 ClientNode::worst_bound() const { return m_worst_bound; }

// -------------------------------------------------------------------- timers
void ClientNode::fire(I64 now) {
    auto cap = [&](I64 v) { return m_cfg.max_rto ? std::min(v, *m_cfg.max_rto) : v; };
    for (auto& [h, t] : m_tx) {
        if (t.finished || t.fuzzy || t.due > now) { continue; }
        if (t.rtx + 1 >= m_cfg.rc + t.n5) {
            OutcomeM o;
            o.k = OutcomeM::Timeout;
            finish(t, std::move(o));
            continue;
        }
        t.last_to = cap(t.rtx + 2 == m_cfg.rc + t.n5 ? t.init_rto * I64(m_cfg.rm) : t.last_to * 2);
        t.rtx++;
        set_due(t, now + t.last_to);
        t.pending.push_back(std::nullopt);
    }
}

void ClientNode::finish(TxM& t, OutcomeM&& o) {
    t.finished = true;
    t.pending.push_back(std::move(o));
}

// ----------------------------------------------------------------- responses
void ClientNode::response(I64 now, const Bytes& b, const Origin& org, bool preparsed, int hash_fail) {
    m_last_now = now;
    m_events++;
    const auto dec = ref::decode(b);
    if (dec.verdict == ref::Verdict::Unspecified && !m_hostile) { r.log("%s datagram left open by the properties not delivered (%s)", m_name.c_str(), dec.why); return; }
    // exact copy on the heap: any access outside the datagram is caught
    auto copy = std::make_unique<uint8_t[]>(b.size() ? b.size() : 1);
    std::copy(b.begin(), b.end(), copy.get());
    fw::util::ConstBinaryView v(copy.get(), b.size());
    fw::Maybe<stun::Message> pre = fw::none();
    if (preparsed) {
        stun::ParseStat st;
        auto m = stun::Message::parse(v, st);
        if (m.is_ok()) { pre = m.unwrap(); r.probe("response-preparsed"); }
    }
    m_hash.arm(hash_fail);
    const uint64_t work0 = sim::heap_bytes();
    auto res = m_cl->response(tp(now), v, std::move(pre));
    r.work("the client", b.size(), work0);
    const bool trig = m_hash.triggered;
    m_hash.disarm();
    const bool err = res.is_err();
    if (!err) { m_promised = std::min(m_promised, now); }  // may have brought a deadline forward
    for (auto& [h, sh] : m_shadows) {
        if (!sh.done && b.size() >= 20 && Bytes(b.begin() + 8, b.begin() + 20) == sh.tid && !trig) {
            auto rr = sh.cl->response(tp(now), v);
            (void)rr;
        }
    }
    copy.reset();
    if (trig) { r.fault("hash-failure"); }

    // --- the model
    TxM *t = nullptr;
    bool unseen = false;   // transactions whose identifier nobody outside can know yet
    if (dec.verdict == ref::Verdict::Accept) {
        const bool sure = m_predict && m_verified;
        for (auto& [h, x] : m_tx) {
            if (!x.tid_seen && !sure) { unseen = true; continue; }
            if (!x.finished && x.tid == dec.msg.tid && dec.msg.tid.size() == 12) { t = &x; }
        }
    }
    std::string what = dec.verdict == ref::Verdict::Accept ? strf("class %u %zu attrs", dec.msg.cls, dec.msg.attrs.size()) : dec.why;
    r.log("%s response (%s) for %s%s -> %s", m_name.c_str(), what.c_str(), t ? strf("#%u", t->hnd).c_str() : "nobody", trig ? " hash failure" : "", err ? ("error: " + res.unwrap_err().message()).c_str() : "ok");
    r.step(dec.verdict == ref::Verdict::Accept ? (t ? 8 + dec.msg.cls : 6) : 7);
    if (m_hostile || (m_lenient)) { check_views("response"); return; }

    if (dec.verdict == ref::Verdict::Reject) {
        r.eval(dec.damage ? "W01" : "W02");
        r.probe("client-rejects-datagram");
        if (!err) { mismatch({dec.damage ? "W01" : "W02"}, "client-accepts-damaged", std::string("response() accepted a datagram that is not well-formed: ") + dec.why + " " + sim::hex(b, 200)); }
        check_views("response");
        return;
    }
    if (dec.msg.method != 1) {
        // answers no Binding request, whatever it says: changes nothing
        r.eval("C07");
        if (t) { r.eval("C09"); r.probe("response-of-another-method"); }
        check_views("response");
        return;
    }
    if (!t) {
        r.eval("C07");
        r.eval("C01");
        bool known = false;
        for (auto& [h, x] : m_tx) { if (x.tid == dec.msg.tid) { known = true; x.late++; } }
        r.probe(known ? "response-between-decision-and-delivery" : "response-to-nobody");
        if (!err && unseen) {  // maybe meant for one of these
            r.probe("identifier-guessed");
            m_lenient = m_blind = true;
            m_shadows.clear();
            check_views("response");
            return;
        }
        if (!err) { mismatch(known ? std::vector<const char *>{"C01", "C07"} : std::vector<const char *>{"C07", "C01"}, "response-to-nobody-accepted", "response() reported success for a response that belongs to no unfinished transaction"); }
        check_views("response");
        return;
    }
    const auto& m = dec.msg;
    const bool is_response = m.cls == ref::SUCCESS || m.cls == ref::ERROR;
    const auto ec = m.error();
    bool accepted = true;
    const char *why = "";
    if (t->cred) {
        r.eval("C08");
        r.eval("H02");
        const bool has_mi = m.find(ref::MI) != nullptr;
        if (!has_mi) {
            if (!(m_cfg.allow_unauth_alternate && m.cls == ref::ERROR && ec && ec->first == 300)) { accepted = false; why = "not signed"; }
            else { r.probe("unauthenticated-alternate-allowed"); }
        } else if (trig) {
            accepted = false;
            why = "hash failure";
        } else if (!ref::mi_valid(b, m, t->cred->password)) {
            accepted = false;
            why = "wrong digest";
        }
        r.probe(accepted ? "auth-response-accepted" : "auth-response-refused");
    }
    if (trig) {
        r.eval("H01");
        if (accepted) { accepted = false; why = "hash failure"; }
        t->hash_failed = true;
    }
    if (!is_response) {
        r.eval("C07");
        r.probe("non-response-with-live-tid");
        check_views("response");
        return;
    }
    if (!accepted) {
        if (!err) {
            mismatch(trig ? std::vector<const char *>{"H01", "C08"} : m.find(ref::MI) ? std::vector<const char *>{"C08", "H02"} : std::vector<const char *>{"C08"}, "bad-response-accepted",
                     strf("response() accepted a response to authenticated %s that is %s", txlog(*t).c_str(), why));
        }
        check_views("response");
        return;
    }
    if (err && t->fuzzy) { check_views("response"); return; }  // may have timed out already
    if (err) {
        std::vector<const char *> tags = {"C09"};
        if (m_cfg.tid_hash || dec.msg.attrs.empty()) { tags.push_back("C07"); }
        if (t->cred) { tags.push_back("C08"); tags.push_back("H02"); }
        mismatch(tags, "good-response-refused", "response() refused a genuine response to " + txlog(*t) + " " + sim::hex(b, 300));
        check_views("response");
        return;
    }
    r.eval("C09");
    OutcomeM o;
    const auto ucr = m.unknown_required();
    if (!ucr.empty()) {
        o.k = OutcomeM::Ucr;
        o.types = ucr;
        finish(*t, std::move(o));
    } else if (m.cls == ref::SUCCESS) {
        r.eval("C10");
        if (t->fuzzy) {
            o.rtt_fuzzy = true;
            auto& e = m_paths[t->path];
            e.smooth = PathE::Unknown;
            e.backoff.reset();
            e.last_update = now;
        } else if (t->rtx == 0) {
            o.rtt = now - t->create;
            r.eval("C06");
            new_rtt(now, t->path, *o.rtt);
        } else {
            r.eval("C06");
            r.probe("success-after-retransmission");
            backoff(now, t->path, t->last_to);
        }
        auto xm = m.xor_mapped(), ma = m.mapped();
        if (xm || ma) {
            o.k = OutcomeM::Ok;
            o.addr = xm ? *xm : *ma;
            o.msg = m;
            if (org.truth && org.intact) { o.truth = org.truth; }
        } else {
            o.k = OutcomeM::Error;
        }
        finish(*t, std::move(o));
    } else if (!ec) {
        o.k = OutcomeM::Error;
        finish(*t, std::move(o));
    } else if (ec->first == 300) {
        auto al = m.alt_server();
        r.eval("C10");
        if (al) { o.k = OutcomeM::Alternate; o.addr = *al; } else { o.k = OutcomeM::Error; }
        finish(*t, std::move(o));
    } else {
        const unsigned c = ec->first;
        o.k = OutcomeM::Code;
        o.code = c;
        o.reason = ec->second;
        if (c / 100 == 3) { finish(*t, std::move(o)); }
        else if (c / 100 == 4) {
            auto ua = m.unknown_attrs();
            if (c == 420 && ua) { o.k = OutcomeM::UnknownReported; o.types = *ua; }
            finish(*t, std::move(o));
        } else if (c / 100 == 5) {
            r.eval("C05");
            if (m_cfg.t5xx && t->n5 < m_cfg.n5xx) {
                r.probe("5xx-reschedule");
                t->n5++;
                set_due(*t, now + *m_cfg.t5xx);
            } else {
                r.probe("5xx-fails");
                finish(*t, std::move(o));
            }
        }
    }
    r.probe(("outcome-" + std::string(t->finished ? std::to_string(int(t->pending.back()->k)) : "none")).c_str());
    check_views("response");
}

// -------------------------------------------------------------------- polling
ClientNode::Polled ClientNode::poll(I64 now) {
    m_last_now = now;
    m_armed.erase(m_armed.begin(), m_armed.upper_bound(now));
    if (!m_lenient) { fire(now); }
    if (m_promised < now) { m_lateness += now - m_promised; }
    m_promised = now;
    auto eff = m_cl->next(tp(now));
    Polled p{};
    auto tl = [&](const char *k) { r.log("%s next -> %s", m_name.c_str(), k); };
    if (auto *s = std::get_if<stun::ClientUDP::SendData>(&eff)) {
        p.k = Polled::Send;
        m_events++;
        p.hnd = s->handle.value;
        tl(strf("send #%u", p.hnd).c_str());
        r.step(16);
        if (auto sh = m_shadows.find(p.hnd); sh != m_shadows.end()) { sh->second.main_seen.push_back(effect_text(eff)); }
        on_send(p.hnd, s->message_view, p);
    } else if (auto *ok = std::get_if<stun::ClientUDP::TransactionOk>(&eff)) {
        p.k = Polled::Outcome;
        p.hnd = ok->handle.value;
        OutcomeM o;
        o.k = OutcomeM::Ok;
        o.addr = from_ep(ok->result.address, ok->result.port);
        if (ok->round_trip.is_some()) { o.rtt = ok->round_trip.unwrap().count(); }
        if (auto sh = m_shadows.find(p.hnd); sh != m_shadows.end()) { sh->second.main_seen.push_back(effect_text(eff)); }
        on_outcome(p.hnd, o, &ok->response, now);
    } else if (auto *f = std::get_if<stun::ClientUDP::TransactionFailed>(&eff)) {
        p.k = Polled::Outcome;
        p.hnd = f->handle.value;
        OutcomeM o;
        auto types = [](const std::vector<stun::AttributeType>& v) { std::vector<uint16_t> x; for (auto& t : v) { x.push_back(t.value()); } return x; };
        using F = stun::ClientUDP::TransactionFailed;
        std::visit(fw::util::overloaded{
            [&](const F::UnknownComprehensionRequiredAttribute& a) { o.k = OutcomeM::Ucr; o.types = types(a.attrs); },
            [&](const F::UnknownAttributeReported& a) { o.k = OutcomeM::UnknownReported; o.types = types(a.attrs); },
            [&](const F::AlternateServer& a) { o.k = OutcomeM::Alternate; o.addr = from_ep(a.server.address, a.server.port); },
            [&](const F::ErrorCode& a) { o.k = OutcomeM::Code; o.code = a.attr.code; o.reason = a.attr.reason_phrase.is_some() ? a.attr.reason_phrase.unwrap() : std::string(); },
            [&](const F::Error&) { o.k = OutcomeM::Error; },
            [&](const F::Timeout&) { o.k = OutcomeM::Timeout; }}, f->reason);
        if (auto sh = m_shadows.find(p.hnd); sh != m_shadows.end()) { sh->second.main_seen.push_back(effect_text(eff)); }
        on_outcome(p.hnd, o, nullptr, now);
    } else {
        const bool idle = std::holds_alternative<stun::ClientUDP::Idle>(eff);
        p.k = idle ? Polled::Idle : Polled::Sleep;
        if (!idle) { p.sleep = std::get<stun::ClientUDP::Sleep>(eff).sleep.count(); }
        tl(idle ? "idle" : strf("sleep %lld", (long long)p.sleep).c_str());
        r.step(idle ? 24 : 25);
        m_promised = idle ? INT64_MAX : p.sleep > 0 && p.sleep < (I64(1) << 60) ? now + p.sleep : now;
        check_age(now);
        r.eval("C04");
        if (idle) { m_max_deadline = INT64_MIN; }
        if (!m_lenient) {
            I64 min_due = INT64_MAX;
            const TxM *first = nullptr;
            for (auto& [h, t] : m_tx) {
                if (!t.pending.empty()) {
                    std::vector<const char *> tags;
                    const char *what;
                    if (!t.pending.front()) { tags = sched_tags(t, {"C03", "C04"}); what = "a due transmission"; }
                    else if (t.pending.front()->k == OutcomeM::Timeout) { tags = sched_tags(t, {"C03", "C04"}); what = "a due timeout"; }
                    else {
                        tags = {"C09", "C04"};
                        if (t.pending.front()->k == OutcomeM::Code && t.pending.front()->code / 100 == 5) { tags.push_back("C05"); }
                        if (t.cred) { tags.push_back("C08"); }
                        what = "an outcome";
                    }
                    mismatch(tags, "not-handed-out", strf("%s although %s of %s is to be handed out", idle ? "idle" : "sleep", what, txlog(t).c_str()));
                    break;
                }
                if (!t.finished && !t.fuzzy && t.due < min_due) { min_due = t.due; first = &t; }
            }
            if (!m_lenient) {
                if (idle && !m_tx.empty()) {
                    mismatch({"C04", "C01", "C11"}, "idle-with-unfinished", "idle although " + txlog(m_tx.begin()->second) + " is unfinished");
                } else if (!idle && p.sleep <= 0) {
                    mismatch(first && first->measured ? std::vector<const char *>{"C04", "C03", "C06"} : std::vector<const char *>{"C04", "C03"}, "sleep-not-positive", strf("sleep of %lld us", (long long)p.sleep));
                } else if (!idle && first && now + p.sleep > min_due) {
                    mismatch(sched_tags(*first, {"C04", "C03"}), "sleep-past-deadline",
                             strf("sleep of %lld us passes the deadline of %s in %lld us", (long long)p.sleep, txlog(*first).c_str(), (long long)(min_due - now)));
                } else if (!idle && m_tx.empty() && now + p.sleep > m_max_deadline) {
                    mismatch({"C04"}, "sleep-without-work", strf("sleep of %lld us although nothing is unfinished and the last deadline ever scheduled was %lld us from now",
                                                              (long long)p.sleep, (long long)(m_max_deadline - now)));
                }
            }
        }
        if (!m_shadows.empty()) { shadow_poll(now); shadow_compare(true); }
    }
    r.state(state_hash(now));
    check_views("next");
    if (p.k == Polled::Send || p.k == Polled::Outcome) { if (!m_shadows.empty()) { shadow_poll(now); } }
    return p;
}

void ClientNode::on_send(unsigned hnd, const fw::util::ConstBinaryView& v, Polled& p) {
    r.eval("C02");
    auto it = m_tx.find(hnd);
    p.data = to_bytes(v);
    if (it == m_tx.end()) {
        const bool was = m_delivered.count(hnd) > 0;
        r.violate_v(was ? std::vector<const char *>{"C02", "C01"} : std::vector<const char *>{"C02", "C07"}, "send-of-nobody",
                    m_name + strf(": transmission handed out for %s handle %u", was ? "already finished" : "unknown", hnd));
        m_lenient = true;
        return;
    }
    auto& t = it->second;
    p.path = t.path;
    if (!m_lenient) {
        if (!t.pending.empty() && !t.pending.front()) {
            t.pending.pop_front();
            r.eval("C03");
            if (t.n5 > 0) { r.eval("C05"); }
        } else if (t.fuzzy && t.rtx + 1 < m_cfg.rc + t.n5) {
            t.rtx++;
        } else {
            mismatch(sched_tags(t, {"C03"}), "send-not-due", strf("transmission of %s that is not due (%s)", txlog(t).c_str(),
                     t.finished ? "its outcome is decided" : strf("due in %lld us", (long long)(t.due - m_last_now)).c_str()));
        }
    }
    t.sends++;
    if (t.sends > m_cfg.rc + (m_cfg.t5xx ? m_cfg.n5xx : 0)) {
        r.violate_v({"C05", "C03"}, "too-many-transmissions", m_name + ": " + txlog(t) + " transmitted more often than allowed");
    }
    if (t.sends == 1) {
        t.data = p.data;
        if (p.data.size() >= 20) {
            Bytes tid(p.data.begin() + 8, p.data.begin() + 20);
            if (tid != t.tid) { m_predict = false; r.probe("tid-not-predicted"); }
            m_verified = true;
            t.tid = tid;
            if (auto sh = m_shadows.find(hnd); sh != m_shadows.end()) { sh->second.tid = tid; }
        }
        t.tid_seen = true;
        r.eval("C07");
        for (auto& [h, x] : m_tx) {
            if (h != hnd && x.tid_seen && x.tid == t.tid) {
                r.violate({"C07"}, "tid-reused", m_name + strf(": transactions %u and %u are simultaneously in use with one identifier", h, hnd));
                m_lenient = true;
            }
        }
        check_request(t);
    } else {
        r.probe("retransmission");
        if (p.data != t.data) { r.violate({"C02"}, "retransmission-differs", m_name + ": transmission of " + txlog(t) + " differs from the first one"); }
    }
    std::pair<const uint8_t *, size_t> w{v.size() ? &*v.begin() : nullptr, v.size()};
    if (std::find(t.views.begin(), t.views.end(), w) == t.views.end()) { t.views.push_back(w); }
}

void ClientNode::on_outcome(unsigned hnd, const OutcomeM& got, const stun::Message *msg, I64 now) {
    (void)now;
    auto it = m_tx.find(hnd);
    r.log("%s next -> outcome #%u %s", m_name.c_str(), hnd, got.str().c_str());
    r.step(32 + unsigned(got.k));
    r.eval("C01"); r.eval("C11");
    if (it == m_tx.end()) {
        const bool was = m_delivered.count(hnd) > 0;
        r.violate_v({"C01", "C07"}, was ? "second-outcome" : "outcome-of-nobody",
                    m_name + strf(": outcome '%s' for %s handle %u", got.str().c_str(), was ? "already finished" : "unknown", hnd));
        m_lenient = true;
        return;
    }
    TxM t = std::move(it->second);
    m_tx.erase(it);
    m_delivered.insert(hnd);
    got.k == OutcomeM::Ok ? succeeded++ : failed++;
    if (must.count(hnd)) {
        must.erase(hnd);
        if (got.k != OutcomeM::Ok) {
            std::vector<const char *> tags = {"C11"};
            if (t.cred) { tags.push_back("H02"); }
            if (m_hostile) { tags.push_back("W03"); }
            r.violate_v(tags, "no-success-after-heal", m_name + ": " + txlog(t) + " failed (" + got.str() + ") although nothing is wrong any more");
        }
    }
    if (m_lenient) { return; }
    while (!t.pending.empty() && !t.pending.front() && t.finished) { t.pending.pop_front(); }  // superseded transmissions
    if (!t.finished || t.pending.empty() || !t.pending.front()) {
        if (got.k == OutcomeM::Timeout) {
            if (t.fuzzy) { return; }
            mismatch(sched_tags(t, {"C03"}), "early-timeout", strf("timeout of %s although its next deadline is in %lld us", txlog(t).c_str(), (long long)(t.due - m_last_now)));
        } else {
            std::vector<const char *> tags = {"C07", "C09"};
            if (t.cred) { tags.push_back("C08"); }
            if (got.k == OutcomeM::Code && got.code / 100 == 5) { tags.push_back("C05"); }
            if (t.hash_failed) { tags.push_back("H01"); }
            mismatch(tags, "outcome-from-nothing", "outcome '" + got.str() + "' of " + txlog(t) + " for which no acceptable response arrived");
        }
        return;
    }
    const OutcomeM& want = *t.pending.front();
    std::vector<const char *> tags = {"C09"};
    auto add = [&](const char *x) { tags.push_back(x); };
    if (t.cred) { add("C08"); }
    auto sorted = [](std::vector<uint16_t> v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; };
    if (got.k != want.k) {
        if (t.late > 0) { add("C01"); }
        if ((got.k == OutcomeM::Code && got.code / 100 == 5) || want.code / 100 == 5) { add("C05"); }
        mismatch(tags, "wrong-outcome", "outcome '" + got.str() + "' of " + txlog(t) + ", expected '" + want.str() + "'");
        return;
    }
    switch (want.k) {
    case OutcomeM::Ok: {
        if (!(got.addr == want.addr)) { add("C10"); mismatch(tags, "wrong-address", "success with " + got.addr.str() + ", response says " + want.addr.str()); return; }
        if (want.truth) {
            r.probe("address-checked-end-to-end");
            if (!(got.addr == *want.truth)) { mismatch({"C10"}, "address-not-what-server-saw", "success with " + got.addr.str() + ", server saw " + want.truth->str()); return; }
        }
        if (!want.rtt_fuzzy && got.rtt != want.rtt) {
            mismatch({"C06"}, "wrong-round-trip", strf("round trip %lld reported, expected %lld (-1: none)", (long long)got.rtt.value_or(-1), (long long)want.rtt.value_or(-1)));
            return;
        }
        auto d = diff_message(*msg, *want.msg);
        if (!d.empty()) { add("W02"); mismatch(tags, "response-not-as-received", "success outcome: " + d); }
        return;
    }
    case OutcomeM::Ucr:
    case OutcomeM::UnknownReported:
        if (sorted(got.types) != sorted(want.types)) { mismatch(tags, "wrong-attribute-list", "outcome '" + got.str() + "', expected '" + want.str() + "'"); }
        return;
    case OutcomeM::Alternate:
        if (!(got.addr == want.addr)) { add("C10"); mismatch(tags, "wrong-address", "redirect to " + got.addr.str() + ", response says " + want.addr.str()); }
        return;
    case OutcomeM::Code:
        if (got.code != want.code || got.reason != want.reason) { mismatch(tags, "wrong-error-code", "outcome '" + got.str() + "', expected '" + want.str() + "'"); }
        return;
    default: return;
    }
}

// Whatever arrives: a transaction does not outlive the sum of its waits
void ClientNode::check_age(I64 now) {
    if (m_hostile || m_late_said) { return; }
    for (auto& [h, t] : m_tx) {
        r.eval("C11");
        if (now - t.create - t.bound > m_lateness - t.late0) {
            m_late_said = true;
            r.violate({"C11"}, "outlives-its-schedule", m_name + strf(": %s is not finished although all its waits add up to at most %lld us and the caller was late by %lld us", txlog(t).c_str(),
                      (long long)t.bound, (long long)(m_lateness - t.late0)));
            return;
        }
    }
}

// The first transmission says exactly what the application asked for
void ClientNode::check_request(const TxM& t) {
    r.eval("W02");
    auto d = ref::decode(t.data);
    auto bad = [&](std::vector<const char *> tags, const std::string& m) { r.violate_v(tags, "request-encoding", m_name + ": request of " + txlog(t) + ": " + m + " " + sim::hex(t.data, 300)); };
    if (d.verdict != ref::Verdict::Accept) { bad({"W02"}, std::string("not well-formed: ") + d.why); return; }
    auto& m = d.msg;
    if (m.cls != ref::REQUEST || m.method != 1 || m.rfc3489) { bad({"W02"}, "not a binding request"); return; }
    auto want = t.spec.attrs;
    if (t.cred) { want.push_back({ref::USERNAME, Bytes(t.cred->user.begin(), t.cred->user.end())}); }
    std::vector<ref::Attr> got;
    for (auto& a : m.attrs) { if (a.type != ref::MI && a.type != ref::FINGERPRINT) { got.push_back(a); } }
    auto less = [](const ref::Attr& a, const ref::Attr& b) { return a.type != b.type ? a.type < b.type : a.value < b.value; };
    std::sort(want.begin(), want.end(), less);
    std::sort(got.begin(), got.end(), less);
    if (got != want) { bad({"W02"}, "its attributes are not those asked for"); return; }
    if (m.has_fp != m_cfg.fingerprint) { bad({"W02"}, "fingerprint presence"); return; }
    if (t.cred.has_value() != m.mi_off.has_value()) { bad({"W02", "H02", "C08"}, "message integrity presence"); return; }
    if (t.cred) {
        r.eval("H02");
        if (!ref::mi_valid(t.data, m, t.cred->password)) { bad({"W02", "H02"}, "wrong digest"); }
    }
}

// Handed out data stays valid until the outcome is delivered
void ClientNode::check_views(const char *when) {
    for (auto& [h, t] : m_tx) {
        for (auto& [p, n] : t.views) {
            r.eval("C02");
            if (n != t.data.size() || memcmp(p, t.data.data(), n) != 0) {
                t.views.clear();
                r.violate({"C02"}, "handed-out-data-changed", m_name + strf(": data handed out for transaction %u changed (after %s)", h, when));
                return;
            }
        }
    }
}

// ------------------------------------------------------------ isolation check
std::string ClientNode::effect_text(const stun::ClientUDP::Effect& e) const {
    using C = stun::ClientUDP;
    auto types = [](const std::vector<stun::AttributeType>& v) { std::string s; for (auto& t : v) { s += strf(" %04x", t.value()); } return s; };
    return std::visit(fw::util::overloaded{
        [&](const C::SendData& s) { return strf("%lld send %016" PRIx64, (long long)m_last_now, sim::fnv(s.message_view.size() ? &*s.message_view.begin() : nullptr, s.message_view.size())); },
        [&](const C::TransactionOk& o) { return "ok " + from_ep(o.result.address, o.result.port).str(); },
        [&](const C::TransactionFailed& f) {
            using F = C::TransactionFailed;
            return std::visit(fw::util::overloaded{
                [&](const F::UnknownComprehensionRequiredAttribute& a) { return "unknown-required" + types(a.attrs); },
                [&](const F::UnknownAttributeReported& a) { return "unknown-reported" + types(a.attrs); },
                [&](const F::AlternateServer& a) { return "alternate " + from_ep(a.server.address, a.server.port).str(); },
                [&](const F::ErrorCode& a) { return strf("code %u", a.attr.code); },
                [&](const F::Error&) { return std::string("error"); },
                [&](const F::Timeout&) { return std::string("timeout"); }}, f.reason);
        },
        [&](const C::Sleep&) { return std::string("sleep"); },
        [&](const C::Idle&) { return std::string("idle"); }}, e);
}

void ClientNode::shadow_poll(I64 now) {
    for (auto& [h, sh] : m_shadows) {
        if (sh.done) { continue; }
        for (int i = 0; i < 50; ++i) {
            auto e = sh.cl->next(tp(now));
            if (std::holds_alternative<stun::ClientUDP::Sleep>(e) || std::holds_alternative<stun::ClientUDP::Idle>(e)) { break; }
            sh.seen.push_back(effect_text(e));
            if (!std::holds_alternative<stun::ClientUDP::SendData>(e)) { sh.done = true; break; }
        }
    }
}

void ClientNode::shadow_compare(bool) {
    for (auto it = m_shadows.begin(); it != m_shadows.end();) {
        auto& sh = it->second;
        auto strip = [](const std::string& s) { auto p = s.find("send"); return p == std::string::npos ? s : s.substr(p); };
        bool same = sh.seen.size() == sh.main_seen.size();
        for (size_t i = 0; same && i < sh.seen.size(); ++i) { same = strip(sh.seen[i]) == strip(sh.main_seen[i]); }
        r.eval("C07");
        r.probe("isolation-compared");
        if (!same) {
            auto list = [](const std::vector<std::string>& v) { std::string s; for (auto& x : v) { s += "[" + x + "] "; } return s.empty() ? std::string("nothing") : s; };
            const std::string msg = m_name + strf(": transaction %u was given ", it->first) + list(sh.main_seen) + "but alone it is given " + list(sh.seen);
            it = m_shadows.erase(it);
            r.violate({"C07"}, "not-isolated", msg);
            continue;
        }
        if (sh.done) { it = m_shadows.erase(it); } else { ++it; }
    }
}

void ClientNode::final_checks() {
    for (auto& [h, t] : m_tx) {
        if (t.fuzzy) { r.probe("fuzzy-unfinished-at-end"); continue; }
        if (m_blind) { r.probe("unknown-deadline-at-end"); continue; }  // measured round trips unseen here may have moved it
        r.violate({"C01", "C11", "C04"}, "no-outcome", m_name + ": no outcome for " + txlog(t) + strf(" although polled until %lld us after its creation", (long long)(m_last_now - t.create)));
    }
}

void ClientNode::retained() {
    const uint64_t before = sim::freed_bytes();
    m_cl.reset();
    const uint64_t held = sim::freed_bytes() - before;
    // tables do not shrink: room for as many as there were at one time (and for
    // as many timers, which may outlive the transactions that set them), and the
    // round trip times of every path
    const size_t timers = std::max(m_armed_peak, m_lenient || m_blind ? m_events : 0);
    const uint64_t limit = 3000 + 128 * m_peak + 64 * (std::max(timers, m_peak) - m_peak) + 400 * m_paths_used.size();
    r.eval("M01");
    r.log("%s idle after %zu transactions (%zu at a time, %zu paths) holds %" PRIu64 " bytes", m_name.c_str(), m_made, m_peak, m_paths_used.size(), held);
    if (held > limit) {
        r.violate({"M01"}, "retained", m_name + strf(": idle after %zu transactions (at most %zu at a time, %zu paths) the client still holds %" PRIu64 " bytes", m_made, m_peak, m_paths_used.size(), held));
    }
    m_cl = make_client(m_cfg);
}

}
