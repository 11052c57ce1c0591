// ICE agents that gather candidates, give them priorities (real code), and
// signal them to each other as SDP lines over a faulty signalling channel; the
// receivers run the real parser. An independent writer and reader of candidate
// lines says what every line means.
#include "core.hpp"

#include <algorithm>
#include <memory>
#include <optional>

#include "ice/candidate/ice_candidate_sdp.hpp"
#include "ice/candidate/ice_candidate_preference.hpp"

namespace iw {

namespace fw = freewebrtc;
namespace cand = freewebrtc::ice::candidate;
using sim::Bytes;
using sim::Choices;
using sim::Run;
using sim::strf;

// ------------------------------------------------------- what a line can say
struct Addr {
    enum K { V4, V6, Name } k = V4;
    Bytes ip;
    std::string name;
    bool operator==(const Addr&) const = default;
};
struct Line {
    std::string foundation;
    unsigned component = 1;
    uint64_t priority = 1;
    Addr addr;
    unsigned port = 0;
    int type = 0;  // host srflx prflx relay
    std::optional<Addr> raddr;
    std::optional<unsigned> rport;
    std::vector<std::pair<std::string, std::string>> ext;
};
struct Reading {
    enum V { Supported, Ignore, Bad, Unspecified } v = Bad;
    const char *why = "";
    Line l;
};

static const char *const types[4] = {"host", "srflx", "prflx", "relay"};

static bool digit(char c) { return c >= '0' && c <= '9'; }
static bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static std::string lower(std::string s) {
    for (auto& c : s) { if (c >= 'A' && c <= 'Z') { c = char(c + 32); } }
    return s;
}
static bool is_token(const std::string& s) {  // RFC 3261
    if (s.empty()) { return false; }
    for (char c : s) { if (!alpha(c) && !digit(c) && !(c && strchr("-.!%*_+`'~", c))) { return false; } }
    return true;
}
static std::vector<std::string> cut(const std::string& s, char sep) {
    std::vector<std::string> v(1);
    for (char c : s) { if (c == sep) { v.emplace_back(); } else { v.back() += c; } }
    return v;
}
static std::optional<Bytes> read_v4(const std::string& s) {
    const auto p = cut(s, '.');
    if (p.size() != 4) { return {}; }
    Bytes b;
    for (auto& x : p) {
        if (x.empty() || x.size() > 3 || (x.size() > 1 && x[0] == '0')) { return {}; }
        unsigned v = 0;
        for (char c : x) { if (!digit(c)) { return {}; } v = v * 10 + unsigned(c - '0'); }
        if (v > 255) { return {}; }
        b.push_back(uint8_t(v));
    }
    return b;
}
static std::optional<Bytes> read_v6(const std::string& s) {
    // groups before and after the (only) "::"
    const auto dbl = s.find("::");
    auto groups = [](const std::string& t, bool last, Bytes& out) {
        if (t.empty()) { return true; }
        const auto p = cut(t, ':');
        for (size_t i = 0; i < p.size(); ++i) {
            if (last && i + 1 == p.size() && p[i].find('.') != std::string::npos) {
                auto v4 = read_v4(p[i]);
                if (!v4) { return false; }
                out.insert(out.end(), v4->begin(), v4->end());
                continue;
            }
            if (p[i].empty() || p[i].size() > 4) { return false; }
            unsigned v = 0;
            for (char c : p[i]) {
                const char d = c >= 'A' && c <= 'F' ? char(c + 32) : c;
                if (!digit(d) && !(d >= 'a' && d <= 'f')) { return false; }
                v = v * 16 + unsigned(digit(d) ? d - '0' : d - 'a' + 10);
            }
            out.push_back(uint8_t(v >> 8));
            out.push_back(uint8_t(v));
        }
        return true;
    };
    Bytes a, b;
    if (dbl == std::string::npos) {
        if (s.empty() || !groups(s, true, a) || a.size() != 16) { return {}; }
        return a;
    }
    if (!groups(s.substr(0, dbl), false, a) || !groups(s.substr(dbl + 2), true, b) || a.size() + b.size() > 14) { return {}; }
    Bytes r = a;
    r.resize(16 - b.size());
    r.insert(r.end(), b.begin(), b.end());
    return r;
}
enum class NameIs { Ok, No, Doubtful };
static NameIs read_name(const std::string& s) {
    if (s.empty()) { return NameIs::No; }
    auto p = cut(s, '.');
    if (p.back().empty()) { p.pop_back(); }
    if (p.empty()) { return NameIs::No; }
    bool doubtful = s.size() > 253;
    for (auto& l : p) {
        if (l.empty() || l.front() == '-' || l.back() == '-') { return NameIs::No; }
        for (char c : l) { if (!alpha(c) && !digit(c) && c != '-' && c != '_') { return NameIs::No; } }
        if (l.size() > 63) { doubtful = true; }
    }
    if (std::all_of(p.back().begin(), p.back().end(), digit)) { doubtful = true; }  // a number is not a top-level domain
    return doubtful ? NameIs::Doubtful : NameIs::Ok;
}
// 1 yes, 0 no, -1 not settled (then it is a name if it is anything)
static int read_addr(const std::string& s, Addr& a) {
    if (auto b = read_v4(s)) { a.k = Addr::V4; a.ip = *b; return 1; }
    if (auto b = read_v6(s)) { a.k = Addr::V6; a.ip = *b; return 1; }
    a.k = Addr::Name;
    a.name = s;
    switch (read_name(s)) {
    case NameIs::Ok: return 1;
    case NameIs::Doubtful: return -1;
    default: return 0;
    }
}
static bool digits(const std::string& s) { return !s.empty() && std::all_of(s.begin(), s.end(), digit); }
static int read_port(const std::string& s, unsigned& v) {
    if (!digits(s)) { return 0; }
    uint64_t x = 0;
    for (char c : s) { x = std::min<uint64_t>(x * 10 + uint64_t(c - '0'), 1u << 30); }
    v = unsigned(x);
    return x > 65535 ? 0 : s.size() > 5 ? -1 : 1;
}

// RFC 8839, section 5.1
static Reading read(const std::string& s) {
    Reading r;
    bool doubt = false, ignore = false;
    auto bad = [&](const char *w) { r.v = Reading::Bad; r.why = w; return r; };
    const std::string pre = "candidate:";
    if (s.compare(0, pre.size(), pre) != 0) {
        if (lower(s.substr(0, pre.size())) == pre) { r.v = Reading::Unspecified; r.why = "case of prefix"; return r; }
        return bad("prefix");
    }
    auto t = cut(s.substr(pre.size()), ' ');
    bool tail = false;
    if (t.back().empty()) { t.pop_back(); tail = true; }  // a space at the end: an empty token or none
    if (t.size() < 8) { return bad("too few tokens"); }
    Line& l = r.l;
    l.foundation = t[0];
    if (t[0].empty() || t[0].size() > 32) { return bad("foundation length"); }
    for (char c : t[0]) { if (!alpha(c) && !digit(c) && c != '+' && c != '/') { return bad("foundation"); } }
    if (!digits(t[1]) || t[1].size() > 3) { return bad("component"); }
    l.component = unsigned(atoi(t[1].c_str()));
    if (l.component > 256) { return bad("component value"); }
    if (l.component == 0) { doubt = true; }
    if (lower(t[2]) != "udp") { if (is_token(t[2])) { ignore = true; } else { return bad("transport"); } }
    if (!digits(t[3]) || t[3].size() > 10) { return bad("priority"); }
    l.priority = strtoull(t[3].c_str(), nullptr, 10);
    if (l.priority == 0 || l.priority > 0xFFFFFFFFu) { return bad("priority value"); }
    if (l.priority > 0x7FFFFFFFu) { doubt = true; }
    switch (read_addr(t[4], l.addr)) { case 0: return bad("address"); case -1: doubt = true; break; default: break; }
    switch (read_port(t[5], l.port)) { case 0: return bad("port"); case -1: doubt = true; break; default: break; }
    if (t[6] != "typ") { if (lower(t[6]) == "typ") { r.v = Reading::Unspecified; r.why = "case of typ"; return r; } return bad("typ"); }
    l.type = -1;
    for (int i = 0; i < 4; ++i) { if (lower(t[7]) == types[i]) { l.type = i; } }
    if (l.type < 0) { if (is_token(t[7])) { ignore = true; } else { return bad("type"); } }
    size_t nra = 0, nrp = 0;
    for (size_t i = 8; i < t.size(); i += 2) { nra += t[i] == "raddr"; nrp += t[i] == "rport"; }
    if (nra > 1 || nrp > 1) { r.v = Reading::Unspecified; r.why = "related address or port repeated"; return r; }
    bool rp = false, ext = false;
    for (size_t i = 8; i < t.size(); i += 2) {
        if (i + 1 >= t.size()) {
            if (tail && t[i] != "raddr" && t[i] != "rport") { r.v = Reading::Unspecified; r.why = "empty value at the end"; return r; }
            return bad("value missing");
        }
        const auto &n = t[i], &v = t[i + 1];
        if (n == "raddr") {
            if (rp || ext) { doubt = true; }
            Addr a;
            switch (read_addr(v, a)) { case 0: return bad("related address"); case -1: doubt = true; break; default: break; }
            l.raddr = a;
        } else if (n == "rport") {
            if (ext) { doubt = true; }
            rp = true;
            unsigned p = 0;
            switch (read_port(v, p)) { case 0: return bad("related port"); case -1: doubt = true; break; default: break; }
            l.rport = p;
        } else {
            ext = true;
            if (!is_token(n) || lower(n) == "raddr" || lower(n) == "rport") { doubt = true; }
            for (char c : v) { if (c < 0x21 || c > 0x7e) { doubt = true; } }
            l.ext.emplace_back(n, v);
        }
    }
    if (tail) { doubt = true; }
    if (doubt) { r.v = Reading::Unspecified; r.why = "doubtful"; return r; }
    if (ignore) { r.v = Reading::Ignore; r.why = "transport or type of the future"; return r; }
    r.v = Reading::Supported;
    return r;
}

// ------------------------------------------------------------------ the world
struct Candidate {
    Line l;
    std::string text;
    unsigned type_pref = 0, local_pref = 0;
};
struct Agent {
    std::vector<Candidate> local;
    std::vector<std::string> foundations;
    size_t accepted = 0, ignored = 0, rejected = 0;
    unsigned epoch = 0;
};
struct Wire {
    size_t to = 0;
    std::string s;
    bool intact = true;
    std::optional<Line> meant;
};

class World {
public:
    explicit World(Run& r) : r(r), ch(r.ch) {}
    void run();
private:
    Run& r;
    Choices& ch;
    std::vector<Agent> agents;
    std::multimap<std::pair<int64_t, uint64_t>, Wire> q;
    uint64_t seq = 0;
    uint32_t fault_pct = 0;
    std::string last;

    Bytes gen_ip(bool v6);
    Addr gen_addr();
    std::string gen_name();
    std::string token(uint32_t max);
    std::string text_of(const Addr&, bool plain);
    std::string text_of(const Line&);
    void gather(Agent&);
    void priority(Candidate&);
    void preferences();
    void names();
    void signal(size_t from, size_t to, const Line&, const std::string&);
    void damage(std::string&);
    void deliver(const Wire&);
    void compare(const cand::Supported&, const Line&, const char *who, const std::string& s);
    bool same(const cand::Address&, const Addr&);
    void forward(size_t me, const cand::Supported&, const Line&);
};

Bytes World::gen_ip(bool v6) {
    Bytes b(v6 ? 16 : 4);
    switch (ch.pick(5)) {
    case 0: b = v6 ? Bytes{0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1} : Bytes{192, 0, 2, 1}; b.back() = uint8_t(1 + ch.pick(250)); break;
    case 1: for (auto& x : b) { x = ch.byte(); } break;
    case 2: for (auto& x : b) { x = ch.chance(1, 3) ? ch.byte() : 0; } break;
    case 3: for (auto& x : b) { x = 0xFF; } if (ch.chance(1, 2)) { b[ch.pick(uint32_t(b.size()))] = ch.of<uint8_t>({0, 9, 10, 99, 100, 199, 200, 249, 250}); } break;
    default:
        if (v6) { for (size_t i = 0; i < 12; ++i) { b[i] = i == 10 || i == 11 ? 0xFF : 0; } for (size_t i = 12; i < 16; ++i) { b[i] = ch.byte(); } }
        break;
    }
    return b;
}
std::string World::token(uint32_t max) {
    static const char c[] = "abcXYZ019-.!%*_+`'~";
    std::string s;
    const uint32_t n = ch.range(1, max);
    for (uint32_t i = 0; i < n; ++i) { s += c[ch.pick(sizeof c - 1)]; }
    return s;
}
std::string World::gen_name() {
    static const char first[] = "aZm09_", mid[] = "bY-58_q", end[] = "c7X_";
    std::string s;
    const uint32_t n = ch.range(1, 4);
    for (uint32_t i = 0; i < n; ++i) {
        if (i) { s += '.'; }
        const uint32_t k = ch.chance(1, 12) ? ch.of<uint32_t>({62, 63, 20}) : ch.pick(6);
        s += first[ch.pick(6)];
        for (uint32_t j = 0; j + 1 < k; ++j) { s += mid[ch.pick(7)]; }
        if (k) { s += end[ch.pick(4)]; }
    }
    if (ch.chance(1, 3)) { s = ch.of<const char *>({"host.example.com", "7f000001-1c2d-4e5f-8a9b-0c1d2e3f4a5b.local", "a", "3com.com", "x--y.z"}); }
    if (ch.chance(1, 6)) { s += '.'; }
    return s;
}
Addr World::gen_addr() {
    Addr a;
    a.k = Addr::K(ch.weighted({5, 4, 2}));
    if (a.k == Addr::Name) { a.name = gen_name(); } else { a.ip = gen_ip(a.k == Addr::V6); }
    return a;
}
std::string World::text_of(const Addr& a, bool plain) {
    if (a.k == Addr::Name) { return a.name; }
    if (a.k == Addr::V4) { return strf("%u.%u.%u.%u", a.ip[0], a.ip[1], a.ip[2], a.ip[3]); }
    // all notations RFC 4291 allows
    std::vector<std::string> g;
    const bool v4 = !plain && ch.chance(1, 4), upper = !plain && ch.chance(1, 4), zeros = !plain && ch.chance(1, 4);
    for (size_t i = 0; i < (v4 ? 6u : 8u); ++i) {
        const unsigned v = unsigned(a.ip[2 * i]) * 256 + a.ip[2 * i + 1];
        g.push_back(zeros ? strf("%04x", v) : upper ? strf("%X", v) : strf("%x", v));
    }
    size_t from = g.size(), len = 0;
    if (plain || ch.chance(2, 3)) {  // shorten one run of zero groups
        std::vector<std::pair<size_t, size_t>> runs;
        for (size_t i = 0; i < g.size();) {
            size_t j = i;
            while (j < g.size() && a.ip[2 * j] == 0 && a.ip[2 * j + 1] == 0) { ++j; }
            if (j > i) { runs.emplace_back(i, j - i); }
            i = std::max(j, i + 1);
        }
        if (!runs.empty()) { auto x = runs[plain ? 0 : ch.pick(uint32_t(runs.size()))]; from = x.first; len = x.second; }
    }
    std::string s;
    for (size_t i = 0; i < g.size();) {
        if (len && i == from) { s += "::"; i += len; continue; }
        if (!s.empty() && s.back() != ':') { s += ':'; }
        s += g[i++];
    }
    if (v4) {
        if (!s.empty() && s.back() != ':') { s += ':'; }
        s += strf("%u.%u.%u.%u", a.ip[12], a.ip[13], a.ip[14], a.ip[15]);
    }
    return s;
}
std::string World::text_of(const Line& l) {
    auto any_case = [&](std::string s) {
        switch (ch.pick(4)) {
        case 1: for (auto& c : s) { c = char(toupper(c)); } break;
        case 2: for (auto& c : s) { if (ch.chance(1, 2)) { c = char(toupper(c)); } } break;
        default: break;
        }
        return s;
    };
    auto pad = [&](uint64_t v, size_t max) {
        std::string s = strf("%" PRIu64, v);
        if (ch.chance(1, 10)) { s.insert(0, std::string(ch.pick(uint32_t(max - std::min(max, s.size())) + 1), '0')); }
        return s;
    };
    std::string s = "candidate:" + l.foundation + " " + pad(l.component, 3) + " " + any_case("udp") + " " + pad(l.priority, 10) + " " +
        text_of(l.addr, false) + " " + pad(l.port, 5) + " typ " + any_case(types[l.type]);
    if (l.raddr) { s += " raddr " + text_of(*l.raddr, false); }
    if (l.rport) { s += " rport " + pad(*l.rport, 5); }
    for (auto& [k, v] : l.ext) { s += " " + k + " " + v; }
    return s;
}

// RFC 8445, 5.1.2.1
void World::priority(Candidate& c) {
    r.eval("I02");
    const auto ty = c.l.type == 0 ? cand::Type::host() : c.l.type == 1 ? cand::Type::server_reflexive() : c.l.type == 2 ? cand::Type::peer_reflexive() : cand::Type::relayed();
    static const unsigned recommended[4] = {126, 100, 110, 0};
    auto id = cand::ComponentId::from_unsigned(c.l.component);
    if (id.is_err()) { r.violate({"I02"}, "component-refused", strf("component %u is refused", c.l.component)); return; }
    auto tp = cand::TypePreference::recommended_for(ty);
    if (tp.value() != recommended[c.l.type]) { r.violate({"I02"}, "type-preference", strf("type preference of %s is %u", types[c.l.type], tp.value())); }
    c.type_pref = recommended[c.l.type];
    if (ch.chance(1, 3)) {
        c.type_pref = ch.chance(1, 2) ? ch.of<unsigned>({0, 126, 1, 125, 64, 100}) : ch.pick(127);
        auto x = cand::TypePreference::from_unsigned(c.type_pref);
        if (x.is_err() || x.unwrap().value() != c.type_pref) { r.violate({"I02"}, "type-preference", strf("type preference %u is refused or changed", c.type_pref)); return; }
        tp = x.unwrap();
    }
    c.local_pref = ch.of<unsigned>({65535, 0, 1, 65534, 255, 256, 32768, ch.pick(65536)});
    auto lp = cand::LocalPreference::from_unsigned(c.local_pref);
    if (lp.is_err() || lp.unwrap().value() != c.local_pref) { r.violate({"I02"}, "local-preference", strf("local preference %u is refused or changed", c.local_pref)); return; }
    const uint64_t want = (uint64_t(c.type_pref) << 24) + (uint64_t(c.local_pref) << 8) + (256 - c.l.component);
    auto cp = cand::ComponentPreference::recommended_for(id.unwrap());
    auto p = cand::Preference{tp, lp.unwrap(), cp}.to_priority();
    r.log("priority of type %u local %u component %u", c.type_pref, c.local_pref, c.l.component);
    if (want == 0) {
        if (p.is_ok()) { r.violate({"I02"}, "zero-priority", "priority 0 is given out"); }
        c.l.priority = 1;
        return;
    }
    c.l.priority = want;
    auto w = cand::Priority::from_uint32(uint32_t(want));
    if (p.is_err() || w.is_err() || p.unwrap() != w.unwrap()) {
        r.violate({"I02"}, "priority", strf("priority of type preference %u, local preference %u, component %u is not %" PRIu64, c.type_pref, c.local_pref, c.l.component, want));
    }
    auto off = cand::Priority::from_uint32(uint32_t(want) ^ (1u << ch.pick(32)));
    if (p.is_ok() && off.is_ok() && off.unwrap() == p.unwrap()) { r.violate({"I02"}, "priority", "different priorities compare equal"); }
}

void World::preferences() {
    r.eval("I02");
    const unsigned v = ch.of<unsigned>({0, 1, 126, 127, 128, 255, 256, 257, 65535, 65536, 65537, 0x80000000u, 0xFFFFFFFFu, ch.u32(), ch.pick(300), 65500 + ch.pick(100)});
    auto chk = [&](const char *what, bool ok, bool want) {
        if (ok != want) { r.violate({"I02"}, "range", strf("%s %u is %s", what, v, ok ? "accepted" : "refused")); }
    };
    r.log("preference value %u", v);
    auto t = cand::TypePreference::from_unsigned(v);
    chk("type preference", t.is_ok(), v <= 126);
    if (t.is_ok() && t.unwrap().value() != v) { r.violate({"I02"}, "range", strf("type preference %u is changed", v)); }
    auto l = cand::LocalPreference::from_unsigned(v);
    chk("local preference", l.is_ok(), v <= 65535);
    if (l.is_ok() && l.unwrap().value() != v) { r.violate({"I02"}, "range", strf("local preference %u is changed", v)); }
    auto c = cand::ComponentPreference::from_unsigned(v);
    chk("component preference", c.is_ok(), v <= 255);
    if (c.is_ok() && c.unwrap().value() != v) { r.violate({"I02"}, "range", strf("component preference %u is changed", v)); }
    auto i = cand::ComponentId::from_unsigned(v);
    chk("component", i.is_ok(), v >= 1 && v <= 256);
    if (i.is_ok() && i.unwrap().value() != v) { r.violate({"I02"}, "range", strf("component %u is changed", v)); }
    chk("priority", cand::Priority::from_uint32(v).is_ok(), v != 0);
}

bool World::same(const cand::Address& a, const Addr& b) {
    if (b.k == Addr::Name) {
        auto f = a.as_fqdn();
        return f.is_some() && a.as_ip_address().is_none() && f.unwrap().get().to_string() == b.name;
    }
    auto ip = a.as_ip_address();
    if (!ip.is_some() || a.as_fqdn().is_some()) { return false; }
    const auto v = ip.unwrap().get().view();
    return v.size() == b.ip.size() && std::equal(b.ip.begin(), b.ip.end(), v.begin());
}

// A user types or stores addresses, ports and names: read and printed back
void World::names() {
    r.eval("I03");
    Addr a = gen_addr();
    std::string s = text_of(a, false);
    if (ch.chance(1, 2)) { damage(s); r.fault("damaged-text"); }
    Addr want;
    const int v = read_addr(s, want);
    auto buf = std::make_unique<char[]>(s.size());
    std::copy(s.begin(), s.end(), buf.get());
    const std::string_view sv(buf.get(), s.size());
    const std::string hx = sim::hex(reinterpret_cast<const uint8_t *>(s.data()), s.size(), 100);
    auto got = cand::Address::from_string(sv);
    r.log("address %s -> %s", hx.c_str(), got.is_ok() ? "ok" : "refused");
    r.probe(v == 1 ? "address-valid" : v == 0 ? "address-invalid" : "address-doubtful");
    if (v == 1 && got.is_err()) { r.violate({"I03"}, "address-refused", "refused: " + s); }
    if (v == 0 && got.is_ok()) { r.violate({"I03"}, "address-accepted", "accepted: " + hx + " (" + s + ")"); }
    if (v && got.is_ok() && !same(got.unwrap(), want)) { r.violate({"I03"}, "address-value", "read as something else: " + s); }
    auto ip = fw::net::ip::Address::from_string(sv);
    const bool is_ip = v == 1 && want.k != Addr::Name;
    if (ip.is_ok() != is_ip) { r.violate({"I03"}, "ip-address", std::string(is_ip ? "refused: " : "accepted: ") + hx + " (" + s + ")"); }
    auto name = fw::net::Fqdn::from_string(sv);
    if (v == 1 && want.k == Addr::Name && (name.is_err() || name.unwrap().to_string() != s)) { r.violate({"I03"}, "name-refused", "refused or changed: " + s); }
    if (read_name(s) == NameIs::No && name.is_ok()) { r.violate({"I03"}, "name-accepted", "accepted: " + hx + " (" + s + ")"); }
    if (v == 1 && got.is_ok()) {
        auto t = got.unwrap().to_string();
        Addr back;
        if (t.is_err() || read_addr(t.unwrap(), back) != 1 || !(back == want)) { r.violate({"I03"}, "address-printed", "printed as something else: " + s); }
    }
    std::string p = strf("%u", ch.of<unsigned>({0, 1, 80, 65535, 65536, 65537, 70000, 99999, 100000, ch.pick(65536), ch.u32()}));
    if (ch.chance(1, 4)) { damage(p); }
    unsigned pv = 0;
    const int pk = read_port(p, pv);
    auto pb = std::make_unique<char[]>(p.size());
    std::copy(p.begin(), p.end(), pb.get());
    auto port = fw::net::Port::from_string(std::string_view(pb.get(), p.size()));
    if (pk >= 0 && port.is_ok() != (pk == 1)) { r.violate({"I03"}, "port", std::string(pk ? "port refused: " : "port accepted: ") + p); }
    if (port.is_ok() && port.unwrap().value() != pv) { r.violate({"I03"}, "port-value", "port changed: " + p); }
}

void World::gather(Agent& a) {
    a.local.clear();
    a.foundations.clear();
    a.epoch++;
    const uint32_t n = ch.range(1, 5);
    for (uint32_t i = 0; i < n; ++i) {
        Candidate c;
        static const char ice[] = "abzAQ019+/";
        const uint32_t fl = ch.chance(1, 5) ? ch.of<uint32_t>({32, 31, 1, 16}) : ch.range(1, 8);
        for (uint32_t k = 0; k < fl; ++k) { c.l.foundation += ice[ch.pick(sizeof ice - 1)]; }
        c.l.component = ch.chance(1, 4) ? ch.of<unsigned>({256, 255, 2, 100, 10}) : ch.range(1, 2);
        c.l.type = int(ch.pick(4));
        c.l.addr = gen_addr();
        c.l.port = ch.chance(1, 4) ? ch.of<unsigned>({0, 65535, 9, 1}) : ch.pick(65536);
        if (c.l.type != 0 || ch.chance(1, 8)) {
            if (!ch.chance(1, 8)) { c.l.raddr = gen_addr(); }
            if (!ch.chance(1, 8)) { c.l.rport = ch.chance(1, 4) ? ch.of<unsigned>({0, 65535}) : ch.pick(65536); }
        }
        const uint32_t ne = ch.chance(1, 2) ? ch.pick(4) : 0;
        for (uint32_t k = 0; k < ne; ++k) {
            if (ch.chance(1, 2)) {
                static const std::pair<const char *, const char *> known[] = {{"generation", "0"}, {"ufrag", "W2XM"}, {"network-cost", "999"}, {"network-id", "1"}, {"tcptype", "active"}, {"typ", "host"}, {"candidate:", "1"}};
                auto& x = known[ch.pick(6)];
                c.l.ext.emplace_back(x.first, x.second);
            } else {
                auto k1 = token(6);
                if (lower(k1) == "raddr" || lower(k1) == "rport") { k1 = "x"; }
                std::string v;
                const uint32_t m = ch.range(1, 10);
                for (uint32_t z = 0; z < m; ++z) { v += char(0x21 + ch.pick(0x7f - 0x21)); }
                c.l.ext.emplace_back(k1, v);
            }
        }
        priority(c);
        c.text = text_of(c.l);
        a.local.push_back(std::move(c));
    }
}

void World::damage(std::string& s) {
    auto at = [&](size_t n) { return n ? ch.pick(uint32_t(n)) : 0; };
    switch (ch.pick(13)) {
    case 0: s.resize(at(s.size() + 1)); break;
    case 1: if (!s.empty()) { s[at(s.size())] = char(ch.byte()); } break;
    case 2: s.insert(at(s.size() + 1), 1, char(ch.byte())); break;
    case 3: if (!s.empty()) { s.erase(at(s.size()), 1); } break;
    case 4: s.insert(at(s.size() + 1), 1, ' '); break;
    case 5: s.insert(at(s.size() + 1), 1, '\0'); if (ch.chance(1, 2)) { s += "junk"; } break;
    case 6: s.insert(at(s.size() + 1), 1, ch.of<char>({'.', ':', '-', '_', '0', '9', '/', '+', '%', '\t', '\r', '\n'})); break;
    case 7: {  // a token of another kind
        auto t = cut(s, ' ');
        t[at(t.size())] = ch.of<const char *>({"", "0", "256", "257", "999", "1000", "4294967295", "4294967296", "9999999999", "2147483648", "00000000001", "65535", "65536", "99999", "tcp", "UDP", "Typ", "typ", "raddr", "rport", "host", "hosts", "hos", "::", ":::", "1::2::3", "::1.2.3.4", "1.2.3", "1.2.3.4.5", "256.1.1.1", "01.2.3.4", "1:2:3:4:5:6:7:8:9", "1:2:3:4:5:6:7:8::", "1:2:3:4:5:6:7::", "12345::", "g::1", "-a.com", "a-.com", "a..b", ".", "a.", "-1", "+1", "1e3", "0x10", "0000", "000", "x"});
        s.clear();
        for (size_t i = 0; i < t.size(); ++i) { s += (i ? " " : "") + t[i]; }
        break;
    }
    case 8: {  // a token lost, repeated or moved
        auto t = cut(s, ' ');
        const size_t i = at(t.size()), j = at(t.size());
        switch (ch.pick(3)) {
        case 0: t.erase(t.begin() + long(i)); break;
        case 1: t.insert(t.begin() + long(j), std::string(t[i])); break;
        default: std::swap(t[i], t[j]); break;
        }
        s.clear();
        for (size_t k = 0; k < t.size(); ++k) { s += (k ? " " : "") + t[k]; }
        break;
    }
    case 9: { const size_t i = at(s.size()); if (!s.empty() && alpha(s[i])) { s[i] = char(s[i] ^ 0x20); } break; }
    case 10: { const size_t k = std::min(s.size(), last.size()); const size_t i = at(k + 1); s = last.substr(0, i) + s.substr(std::min(i, s.size())); break; }
    case 11: s += ch.of<const char *>({" ", "  ", " x", " raddr", " rport", " raddr ", " rport 1 ", " x y", " x y z", " raddr 1.2.3.4", " rport 70000"}); break;
    default: { if (!s.empty()) { const size_t i = at(s.size()); s.insert(i, std::string(ch.of<size_t>({1, 4, 32, 300}), s[i])); } break; }
    }
}

void World::signal(size_t from, size_t to, const Line& meant, const std::string& text) {
    Wire w;
    w.to = to;
    w.s = text;
    w.meant = meant;
    r.step(1);
    if (ch.chance(fault_pct, 200)) { r.fault("loss"); r.log("line of agent %zu lost", from); return; }
    int64_t delay = 20000;
    if (ch.chance(fault_pct, 100)) { delay += int64_t(ch.pick(2000000)); r.fault("delay"); }
    const unsigned copies = ch.chance(fault_pct, 200) ? 2 : 1;
    if (copies == 2) { r.fault("duplicate"); }
    for (unsigned k = 0; k < copies; ++k) {
        Wire c = w;
        if (ch.chance(fault_pct, 60)) {
            const uint32_t n = ch.range(1, 3);
            for (uint32_t i = 0; i < n; ++i) { damage(c.s); }
            c.intact = false;
            r.fault("damaged-line");
        }
        q.emplace(std::make_pair(r.now + delay + int64_t(k) * 5000, seq++), std::move(c));
    }
    last = text;
}

void World::compare(const cand::Supported& s, const Line& l, const char *who, const std::string& text) {
    auto bad = [&](const char *f) { r.violate({"I01"}, f, strf("%s of a candidate differs from what %s: ", f, who) + text); };
    const auto& c = s.candidate;
    if (c.foundation.to_string() != l.foundation) { bad("foundation"); }
    if (c.component.value() != l.component) { bad("component"); }
    auto p = cand::Priority::from_uint32(uint32_t(l.priority));
    if (p.is_err() || c.priority != p.unwrap()) { bad("priority"); }
    if (c.transport_type != cand::TransportType::udp()) { bad("transport"); }
    if (!same(c.address, l.addr)) { bad("address"); }
    if (c.port.value() != l.port) { bad("port"); }
    static const cand::Type::Value tv[4] = {cand::Type::HOST, cand::Type::SERVER_REFLEXIVE, cand::Type::PEER_REFLEXIVE, cand::Type::RELAYED};
    if (l.type < 0 || c.type.value() != tv[l.type]) { bad("type"); }
    else if (c.type.to_string() != types[l.type]) { bad("type-name"); }
    if (c.maybe_related_address.is_some() != l.raddr.has_value() || (l.raddr && !same(c.maybe_related_address.unwrap(), *l.raddr))) { bad("related-address"); }
    if (c.maybe_related_port.is_some() != l.rport.has_value() || (l.rport && c.maybe_related_port.unwrap().value() != *l.rport)) { bad("related-port"); }
    if (s.extensions.size() != l.ext.size()) { bad("extensions"); return; }
    for (size_t i = 0; i < l.ext.size(); ++i) {
        if (s.extensions[i].att_name != l.ext[i].first || s.extensions[i].att_value != l.ext[i].second) { bad("extension"); }
    }
}

// An agent passes on a candidate it has learned, as the library prints it
void World::forward(size_t me, const cand::Supported& s, const Line& l) {
    const auto& c = s.candidate;
    auto a = c.address.to_string();
    if (a.is_err()) { r.violate({"I01"}, "forwarding", "the address of a candidate cannot be printed"); return; }
    std::string t = "candidate:" + c.foundation.to_string() + " " + std::to_string(c.component.value()) + " " + c.transport_type.to_string() + " " +
        std::to_string(l.priority) + " " + a.unwrap() + " " + std::to_string(c.port.value()) + " typ " + c.type.to_string();
    if (c.maybe_related_address.is_some()) {
        auto x = c.maybe_related_address.unwrap().to_string();
        if (x.is_err()) { r.violate({"I01"}, "forwarding", "the related address of a candidate cannot be printed"); return; }
        t += " raddr " + x.unwrap();
    }
    if (c.maybe_related_port.is_some()) { t += " rport " + std::to_string(c.maybe_related_port.unwrap().value()); }
    for (auto& e : s.extensions) { t += " " + e.att_name + " " + e.att_value; }
    r.log("agent %zu passes it on", me);
    signal(me, ch.pick(uint32_t(agents.size())), l, t);
}

void World::deliver(const Wire& w) {
    auto buf = std::make_unique<char[]>(w.s.size());  // exact and without a zero at the end
    std::copy(w.s.begin(), w.s.end(), buf.get());
    const Reading ref = read(w.s);
    const uint64_t work0 = sim::heap_bytes();
    auto rv = cand::parse_sdp_attr(std::string_view(buf.get(), w.s.size()));
    if (sim::heap_bytes() - work0 > sim::work_limit(w.s.size())) { r.violate({"I01"}, "disproportionate-work", "reading a line takes too much work"); }
    buf.reset();  // what was read must not depend on the line any more
    const bool ok = rv.is_ok();
    const bool sup = ok && std::holds_alternative<cand::Supported>(rv.unwrap());
    const std::string hx = w.s.find_first_not_of(" !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~") == std::string::npos
        ? w.s.substr(0, 300) : sim::hex(reinterpret_cast<const uint8_t *>(w.s.data()), w.s.size(), 200);
    r.log("agent %zu %s line (%s%s) -> %s", w.to, w.intact ? "intact" : "damaged", ref.v == Reading::Supported ? "candidate" : ref.v == Reading::Ignore ? "to ignore" : ref.v == Reading::Bad ? "malformed: " : "open: ", ref.why,
          sup ? "candidate" : ok ? "unsupported" : "error");
    r.step(uint32_t(sim::fnv(ref.why, strlen(ref.why)) ^ (uint32_t(ref.v) << 8) ^ (sup ? 2 : ok ? 1 : 0)));
    r.probe(ref.v == Reading::Supported ? "supported" : ref.v == Reading::Ignore ? "to-ignore" : ref.v == Reading::Bad ? (std::string("malformed-") + ref.why).c_str() : "open");
    Agent& a = agents[w.to];
    (sup ? a.accepted : ok ? a.ignored : a.rejected)++;
    r.eval("I01");
    switch (ref.v) {
    case Reading::Supported:
        if (!sup) { r.violate({"I01"}, "refuses-candidate", "well-formed candidate is not read: " + hx); return; }
        break;
    case Reading::Ignore:
        if (sup) { r.violate({"I01"}, "unknown-kind", "candidate of unknown transport or type is believed: " + hx); }
        if (!ok) { r.violate({"I01"}, "unknown-kind", "candidate of unknown transport or type is an error instead of being ignored: " + hx); }
        return;
    case Reading::Bad:
        if (sup) { r.violate({"I01"}, "accepts-malformed", std::string("line is believed although it is malformed (") + ref.why + "): " + hx); }
        return;
    case Reading::Unspecified:
        return;
    }
    const auto& s = std::get<cand::Supported>(rv.unwrap());
    compare(s, ref.l, "the line says", hx);
    if (w.intact && w.meant) { compare(s, *w.meant, "its sender meant", hx); r.probe("intact-compared-with-sender"); }
    if (q.size() < 60 && ch.chance(1, 6)) { forward(w.to, s, ref.l); }
}

void World::run() {
    fault_pct = ch.of<uint32_t>({0, 5, 15, 40});
    agents.resize(ch.range(2, 4));
    for (auto& a : agents) { gather(a); }
    const uint32_t n = ch.range(3, 40);
    auto drain = [&](int64_t until) {
        while (!q.empty() && q.begin()->first.first <= until) {
            auto it = q.begin();
            r.now = std::max(r.now, it->first.first);
            Wire w = std::move(it->second);
            q.erase(it);
            deliver(w);
        }
    };
    for (uint32_t i = 0; i < n; ++i) {
        const size_t from = ch.pick(uint32_t(agents.size()));
        switch (ch.weighted({12, 2, 2, 2, 2})) {
        case 0: { auto& a = agents[from]; auto& c = a.local[ch.pick(uint32_t(a.local.size()))]; signal(from, (from + 1 + ch.pick(uint32_t(agents.size() - 1))) % agents.size(), c.l, c.text); break; }
        case 1: preferences(); break;
        case 2: names(); break;
        case 3: agents[from] = Agent{}; gather(agents[from]); r.fault("agent-restart"); break;
        default: {  // not a candidate of an honest agent at all
            Wire w;
            w.to = from;
            w.intact = false;
            if (ch.chance(1, 3)) { auto b = ch.bulk(ch.pick(80)); w.s = std::string(b.begin(), b.end()); if (ch.chance(1, 2)) { w.s = "candidate:" + w.s; } }
            else { w.s = agents[from].local[0].text; const uint32_t k = ch.range(1, 6); for (uint32_t j = 0; j < k; ++j) { damage(w.s); } }
            r.fault("hostile-line");
            q.emplace(std::make_pair(r.now + 500, seq++), std::move(w));
            break;
        }
        }
        const int64_t t = r.now + int64_t(ch.pick(300000));
        drain(t);
        r.now = std::max(r.now, t);
    }
    drain(INT64_MAX);
    for (auto& a : agents) { r.state(sim::mix(sim::mix(a.accepted, a.ignored), a.rejected)); }
    r.log("%zu agents", agents.size());
}

}

int main(int argc, char **argv) {
    return sim::sim_main(argc, argv, [](sim::Run& r) { iw::World(r).run(); });
}
