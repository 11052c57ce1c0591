// The Node.js bindings (/repo/node) under simulation. JavaScript processes with
// STUN clients and servers in them talk over a simulated network; the values
// of JavaScript live in a simulated heap (standin/craftnapi); the steady
// clock, the random device, POSIX random() and OpenSSL's digests are seams the
// simulator owns. Every object has a native twin driven in lock step, and an
// independent decoder says what the datagrams mean.
//
// B01  clients    B02 servers    B03 message and candidate parsers
// C13  identifiers               H03 digest providers
#include "stun_common.hpp"

#include <algorithm>
#include <arpa/inet.h>
#include <chrono>
#include <exception>
#include <memory>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/md5.h>
#include <openssl/sha.h>
#include <thread>
#include <tuple>

#include <craftnapi/env.hpp>

#include "clock/clock_std.hpp"
#include "ice/candidate/ice_candidate_sdp.hpp"
#include "node/node_ice/node_ice_candidate.hpp"
#include "node/node_stun/node_stun_client_udp.hpp"
#include "node/node_stun/node_stun_message.hpp"
#include "node/node_stun/node_stun_server_stateless.hpp"
#include "node/openssl/node_openssl_hash.hpp"

// ------------------------------------------------ seam: the steady clock
static std::int64_t g_steady = 0;          // ns, only changed by the simulator
namespace std::chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(g_steady)); }
}}

// ------------------------------------------------ seam: sources of randomness
namespace seam {
struct Rng {
    uint64_t s = 1;
    int poor = 0;                          // that many draws repeat a few words
    std::vector<uint32_t> drawn;
    uint32_t word() {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        z ^= z >> 31;
        if (poor > 0) { poor--; return uint32_t(z >> 40) & 1 ? 0x5A5A5A5A : 0; }
        return uint32_t(z >> 32);
    }
};
static Rng rng;                            // survives restarts of a process
static uint64_t libc_state = 1;            // starts over in every process
}
extern "C" unsigned sim_rd_getval(void *) __asm__("_ZNSt13random_device9_M_getvalEv");
extern "C" unsigned sim_rd_getval(void *) {
    const uint32_t v = seam::rng.word();
    seam::rng.drawn.push_back(v);
    return v;
}
extern "C" void sim_rd_init(void *, const void *) __asm__("_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
extern "C" void sim_rd_init(void *, const void *) {}
extern "C" void sim_rd_fini(void *) __asm__("_ZNSt13random_device7_M_finiEv");
extern "C" void sim_rd_fini(void *) {}
static long libc_random() {
    seam::libc_state = seam::libc_state * 6364136223846793005ull + 1442695040888963407ull;
    const uint32_t v = uint32_t(seam::libc_state >> 33);
    seam::rng.drawn.push_back(v);
    return long(v);
}
extern "C" long random(void) noexcept { return libc_random(); }
extern "C" int rand(void) noexcept { return int(libc_random()); }
extern "C" void srandom(unsigned s) noexcept { seam::libc_state = s; }
extern "C" void srand(unsigned s) noexcept { seam::libc_state = s; }

// ------------------------------------------------ seam: OpenSSL's digests
namespace seam {
static int evp_fail_at = 0;                // the n-th call from now on fails (0: none)
static bool evp_silent = false;            // without leaving an error in the queue
static bool evp_triggered = false;
static uint64_t evp_calls = 0;
static bool evp_fails() {
    evp_calls++;
    if (evp_fail_at > 0 && --evp_fail_at == 0) {
        evp_triggered = true;
        if (!evp_silent) { ERR_raise(ERR_LIB_EVP, ERR_R_MALLOC_FAILURE); }
        return true;
    }
    return false;
}
static void arm(int n, bool silent) { evp_fail_at = n; evp_silent = silent; evp_triggered = false; }
static bool disarm() { evp_fail_at = 0; return std::exchange(evp_triggered, false); }
}
extern "C" {
EVP_MD_CTX *__real_EVP_MD_CTX_new(void);
EVP_MD_CTX *__wrap_EVP_MD_CTX_new(void) { return seam::evp_fails() ? nullptr : __real_EVP_MD_CTX_new(); }
#define WRAP(name, sig, args) int __real_##name sig; int __wrap_##name sig { return seam::evp_fails() ? 0 : __real_##name args; }
WRAP(EVP_DigestInit, (EVP_MD_CTX *c, const EVP_MD *m), (c, m))
WRAP(EVP_DigestInit_ex, (EVP_MD_CTX *c, const EVP_MD *m, ENGINE *e), (c, m, e))
WRAP(EVP_DigestInit_ex2, (EVP_MD_CTX *c, const EVP_MD *m, const OSSL_PARAM *p), (c, m, p))
WRAP(EVP_DigestUpdate, (EVP_MD_CTX *c, const void *d, size_t n), (c, d, n))
WRAP(EVP_DigestFinal, (EVP_MD_CTX *c, unsigned char *o, unsigned *n), (c, o, n))
WRAP(EVP_DigestFinal_ex, (EVP_MD_CTX *c, unsigned char *o, unsigned *n), (c, o, n))
WRAP(EVP_Digest, (const void *d, size_t n, unsigned char *o, unsigned *l, const EVP_MD *m, ENGINE *e), (d, n, o, l, m, e))
#undef WRAP
}

namespace nw {

using namespace ws;
using sim::strf;
using I64 = int64_t;
using craftnapi::CallbackInfo;
using craftnapi::Env;
using craftnapi::Function;
using craftnapi::Value;
namespace js = craftnapi::js;
using js::Kind;
using js::Ref;

// ------------------------------------------------ JavaScript values
static Ref undef() { return js::make(Kind::Undefined); }
static Ref jnull() { return js::make(Kind::Null); }
static Ref str(std::string_view s) { auto c = js::make(Kind::String); c->string = js::well_formed(s); return c; }
static Ref num(double d) { auto c = js::make(Kind::Number); c->number = d; return c; }
static Ref boolean(bool b) { auto c = js::make(Kind::Boolean); c->boolean = b; return c; }
static Ref buf(const Bytes& b) { auto c = js::make(Kind::Buffer); c->buffer = std::make_unique<std::vector<uint8_t>>(b); c->buffer->shrink_to_fit(); return c; }
static Ref obj(std::vector<std::pair<std::string, Ref>> p) { auto c = js::make(Kind::Object); c->props = std::move(p); return c; }
static Ref get(const Ref& o, std::string_view name) {
    if (o) { for (auto& [k, v] : o->props) { if (k == name) { return v; } } }
    return undef();
}
static bool is(const Ref& v, Kind k) { return v && v->kind == k; }
static bool is_int(const Ref& v, double d) { return is(v, Kind::Number) && v->number == d; }
static bool is_str(const Ref& v, std::string_view s) { return is(v, Kind::String) && v->string == s; }
static Bytes bytes_of(const Ref& v) { return v->buffer ? Bytes(*v->buffer) : Bytes(); }
static std::string show(const Ref& v) {
    switch (v->kind) {
    case Kind::Undefined: return "undefined";
    case Kind::Null: return "null";
    case Kind::Boolean: return v->boolean ? "true" : "false";
    case Kind::Number: return strf("%.17g", v->number);
    case Kind::BigInt: return strf("%" PRIu64 "n", v->bigint);
    case Kind::String: return "'" + v->string.substr(0, 60) + "'";
    case Kind::Buffer: return "<" + sim::hex(bytes_of(v), 40) + ">";
    case Kind::Function: return "function";
    case Kind::Array: { std::string s = "["; for (auto& x : v->array) { s += show(x) + ","; } return s + "]"; }
    case Kind::Object: { std::string s = "{"; for (auto& [k, x] : v->props) { s += k + ":" + show(x) + ","; } return s + "}"; }
    }
    return "?";
}
// a value of a kind nobody expects
static Ref odd_value(Choices& ch, Kind not_this) {
    for (;;) {
        Ref v;
        switch (ch.pick(9)) {
        case 0: v = undef(); break;
        case 1: v = jnull(); break;
        case 2: v = num(ch.pick(100)); break;
        case 3: v = str("x"); break;
        case 4: v = boolean(true); break;
        case 5: v = buf({1, 2, 3}); break;
        case 6: v = obj({}); break;
        case 7: v = js::make(Kind::Array); break;
        default: v = js::make(Kind::BigInt); v->bigint = 7; break;
        }
        if (v->kind != not_this) { return v; }
    }
}

struct Called {
    bool threw = false;
    std::string error;
    Ref value;
};
static Called call(const Function& f, const Ref& self, std::vector<Ref> args) {
    Env env;
    std::vector<Value> v;
    for (auto& a : args) { v.emplace_back(a); }
    CallbackInfo ci(Value(self), std::move(v));
    auto r = f(env, ci);
    Called c;
    if (r.is_err()) { c.threw = true; c.error = r.unwrap_err().message(); }
    else { c.value = r.unwrap().cell(); }
    return c;
}
static Called method(const Ref& cls, const Ref& self, const char *name, std::vector<Ref> args) {
    for (auto& [n, f] : cls->methods) { if (n == name) { return call(f, self, std::move(args)); } }
    Called c;
    c.threw = true;
    c.error = std::string("no method ") + name;
    return c;
}

// ------------------------------------------------ helpers
static fw::crypto::SHA1Hash::Result own_sha1(const fw::crypto::SHA1Hash::Input& in) {
    Bytes all;
    for (auto& v : in) { all.insert(all.end(), v.begin(), v.end()); }
    fw::crypto::SHA1Hash::Value o;
    SHA1(all.data(), all.size(), o.data());
    return fw::crypto::SHA1Hash(std::move(o));
}
struct TwinHash {
    bool fail_next = false;
    fw::crypto::SHA1Hash::Func func() {
        return [this](const fw::crypto::SHA1Hash::Input& in) -> fw::crypto::SHA1Hash::Result {
            if (fail_next) { return std::make_error_code(std::errc::io_error); }
            return own_sha1(in);
        };
    }
};
static std::string ip_text(const Bytes& ip) {
    char b[64] = "";
    inet_ntop(ip.size() == 4 ? AF_INET : AF_INET6, ip.data(), b, sizeof b);
    return b;
}
static std::optional<Bytes> text_ip(const std::string& s) {
    Bytes b(16);
    if (inet_pton(AF_INET, s.c_str(), b.data()) == 1) { b.resize(4); return b; }
    if (inet_pton(AF_INET6, s.c_str(), b.data()) == 1) { return b; }
    return {};
}
static std::string gen_name(Choices& ch) {
    switch (ch.pick(6)) {
    case 0: return "alice";
    case 1: return "bob" + std::to_string(ch.pick(3));
    case 2: return std::string(ch.pick(70), 'u');
    case 3: return "\xC3\xA9\xE2\x82\xAC\xF0\x9F\x98\x80";
    case 4: return "";
    default: return std::string("a\0b", 3);
    }
}

// ------------------------------------------------ what a message object must say
static std::string diff_addr(const Ref& o, const Addr& a) {
    auto ad = get(o, "addr");
    if (!is(ad, Kind::String)) { return "address is " + show(ad); }
    auto ip = text_ip(ad->string);
    if (!ip || *ip != a.ip) { return "address " + show(ad) + " instead of " + ip_text(a.ip); }
    if (!is_int(get(o, "port"), a.port)) { return "port " + show(get(o, "port")) + strf(" instead of %u", a.port); }
    return "";
}
static std::string diff_object(const Ref& o, const ref::Msg& m) {
    if (!is(o, Kind::Object)) { return "not an object but " + show(o); }
    const auto h = get(o, "header"), at = get(o, "attributes");
    static const char *cls[] = {"request", "indication", "success_response", "error_response"};
    if (!is_str(get(h, "class"), cls[m.cls])) { return "class " + show(get(h, "class")) + " instead of " + cls[m.cls]; }
    if (m.method == 1 && !is_str(get(h, "method"), "binding")) { return "method " + show(get(h, "method")); }
    if (m.method != 1 && is_str(get(h, "method"), "binding")) { return strf("method %u is called binding", m.method); }
    const auto t = get(h, "transaction");
    if (!is(t, Kind::Buffer) || bytes_of(t) != m.tid) { return "transaction " + show(t) + " instead of " + sim::hex(m.tid); }
    const auto old = get(o, "is_rfc3489");
    if (!is(old, Kind::Boolean) || old->boolean != m.rfc3489) { return "is_rfc3489 " + show(old); }
    if (!is(at, Kind::Object)) { return "attributes " + show(at); }
    auto be = [](const Bytes& b) { uint64_t v = 0; for (auto x : b) { v = v << 8 | x; } return v; };
    auto presence = [&](const char *n, bool want) -> std::string {
        const bool got = !is(get(at, n), Kind::Undefined);
        return got == want ? std::string() : strf("%s is %s", n, got ? "there without having been received" : "missing");
    };
    std::string d;
    const auto un = m.username();
    if (d = presence("username", un.has_value()); !d.empty()) { return d; }
    if (un && !is_str(get(at, "username"), js::well_formed(*un))) { return "username " + show(get(at, "username")); }
    const auto *sw = m.find(ref::SOFTWARE);
    if (d = presence("software", sw != nullptr); !d.empty()) { return d; }
    if (sw && !is_str(get(at, "software"), js::well_formed(std::string(sw->value.begin(), sw->value.end())))) { return "software " + show(get(at, "software")); }
    if (!m.rfc3489) {
        const auto xm = m.xor_mapped();
        if (d = presence("xor_mapped", xm.has_value()); !d.empty()) { return d; }
        if (xm) { if (d = diff_addr(get(at, "xor_mapped"), *xm); !d.empty()) { return "xor_mapped: " + d; } }
    }
    const auto *pr = m.find(ref::PRIORITY);
    if (d = presence("priority", pr != nullptr); !d.empty()) { return d; }
    if (pr && !is_int(get(at, "priority"), double(be(pr->value)))) { return "priority " + show(get(at, "priority")) + strf(" instead of %" PRIu64, be(pr->value)); }
    for (auto [n, type] : {std::pair{"ice-controlling", ref::ICE_CONTROLLING}, std::pair{"ice-controlled", ref::ICE_CONTROLLED}}) {
        const auto *x = m.find(type);
        if (d = presence(n, x != nullptr); !d.empty()) { return d; }
        if (!x) { continue; }
        const auto v = get(at, n);
        if (!is(v, Kind::BigInt) || v->bigint_negative || v->bigint != be(x->value)) { return std::string(n) + " " + show(v) + strf(" instead of %" PRIu64, be(x->value)); }
    }
    const bool uc = m.find(ref::USE_CANDIDATE) != nullptr;
    const auto v = get(at, "use-candidate");
    if (uc ? !(is(v, Kind::Boolean) && v->boolean) : !(is(v, Kind::Undefined) || (is(v, Kind::Boolean) && !v->boolean))) { return "use-candidate " + show(v); }
    const auto er = m.error();
    if (d = presence("error_code", er.has_value()); !d.empty()) { return d; }
    if (er) {
        const auto e = get(at, "error_code");
        if (!is_int(get(e, "code"), er->first)) { return "error code " + show(get(e, "code")) + strf(" instead of %u", er->first); }
        if (!is_str(get(e, "reason"), js::well_formed(er->second))) { return "reason " + show(get(e, "reason")); }
    }
    return "";
}

static ref::Msg gen_msg(Choices& ch, bool any_method) {
    ref::Msg m;
    m.cls = ch.pick(4);
    m.method = any_method && ch.chance(1, 6) ? ch.pick(0x1000) : 1;
    m.tid = ch.bulk(12);
    if (ch.chance(1, 10)) { m.rfc3489 = true; m.tid = ch.bulk(16); m.tid[0] = uint8_t(m.tid[0] | 0x80); }
    const uint32_t n = ch.pick(7);
    for (uint32_t i = 0; i < n; ++i) { m.attrs.push_back(gen_attr(ch, m.tid, ch.chance(1, 8))); }
    if (wire_size(m) > 40000) { m.attrs.resize(1); }
    return m;
}

// ------------------------------------------------ a process with a STUN client in it
struct Owed {
    I64 created = 0;
    Bytes tid, first;
    bool sent = false;
    bool must = false;           // created when nothing is wrong any more
    bool auth = false;
};

class JsClient {
public:
    JsClient(Run& r, int idx) : r(r), ch(r.ch), idx(idx) {}
    void start();
    void create(bool must);
    void bad_calls();
    struct Polled { enum K { Send, Outcome, Sleep, Idle } k = Idle; Bytes data; I64 sleep_ms = 0; };
    Polled poll();
    void deliver(const Bytes&, std::optional<Addr> truth, int evp_fail);
    size_t unfinished() const { return owed.size(); }
    const std::map<I64, Owed>& all() const { return owed; }
    Addr addr;                   // where the network sees it
    std::string user, password;
    bool use_auth = false, fingerprint = true;
    std::set<Bytes> *ids = nullptr;
private:
    void bad(const char *cls, const std::string& m) { r.violate({"B01"}, cls, strf("client %d: ", idx) + m); }
    I64 handle_of(const Ref& o) {
        const auto h = get(get(o, "handle"), "value");
        if (!is(h, Kind::Number) || h->number < 0) { bad("no-handle", "the effect does not name its transaction: " + show(o)); return -1; }
        return I64(h->number);
    }
    void lose_twin(const char *why) { if (!lenient) { r.log("client %d: twin given up: %s", idx, why); r.probe("twin-given-up"); lenient = true; } }
    Run& r;
    Choices& ch;
    int idx;
    Ref cls, self;
    std::unique_ptr<stun::ClientUDP> twin;
    TwinHash twin_hash;
    std::map<I64, I64> twin_handle;               // of JS handle
    std::map<I64, Owed> owed;
    std::set<I64> done;
    std::vector<std::pair<Bytes, std::optional<Addr>>> heard;   // responses delivered
    std::vector<std::pair<Bytes, Bytes>> paths;
    std::map<std::string, int> reasons;
    bool lenient = false;
};

void JsClient::start() {
    r.log("client %d: process starts", idx);
    seam::libc_state = 1;
    owed.clear();
    done.clear();
    heard.clear();
    twin_handle.clear();
    lenient = false;
    Env env;
    auto c = fw::node_stun::client_udp_class(env, "ClientUDP");
    if (c.is_err()) { bad("no-class", "the class cannot be defined"); return; }
    cls = c.unwrap().cell();
    fingerprint = !ch.chance(1, 3);
    if (ch.chance(1, 8)) {
        r.fault("bad-argument");
        auto o = js::make(Kind::Object);
        auto x = call(cls->constructor, o, {obj({{"use_fingerprint", odd_value(ch, Kind::Boolean)}})});
        const auto& given = x.threw ? "throws" : "does not throw";
        r.log("client %d: constructor with odd settings %s", idx, given);
    }
    self = js::make(Kind::Object);
    const bool given = !fingerprint || ch.chance(1, 2);
    std::vector<std::pair<std::string, Ref>> st;
    if (given) { st.push_back({"use_fingerprint", boolean(fingerprint)}); }
    auto x = call(cls->constructor, self, {obj(st)});
    r.eval("B01");
    if (x.threw) { bad("constructor-throws", "constructor: " + x.error); return; }
    stun::ClientUDP::Settings s;
    s.use_fingerprint = stun::client_udp::Settings::UseFingerprint{fingerprint};
    twin = std::make_unique<stun::ClientUDP>(s);
}

void JsClient::create(bool must) {
    // mostly paths that something is known about
    Bytes src = gen_addr(ch, 2).ip, dst = gen_addr(ch, 2).ip;
    if (!must && !paths.empty() && ch.chance(1, 2)) {
        std::tie(src, dst) = paths[ch.pick(uint32_t(paths.size()))];
        r.probe("path-again");
        if (ch.chance(1, 4)) { std::swap(src, dst); }
    } else if (!must && paths.size() < 4) {
        paths.emplace_back(src, dst);
    }
    std::string ts = ip_text(src), td = ip_text(dst);
    std::vector<std::pair<std::string, Ref>> p = {{"source", str(ts)}, {"target", str(td)}};
    const bool auth = use_auth && !ch.chance(1, 6);
    if (auth) { p.push_back({"auth", obj({{"username", str(user)}, {"password", str(password)}})}); }
    if (ch.chance(1, 6)) { p.push_back({"something else", num(1)}); }
    auto rq = obj(p);
    bool valid = true;
    if (!must && ch.chance(1, 6)) {
        r.fault("bad-argument");
        valid = false;
        switch (ch.pick(7)) {
        case 0: rq->props[0].second = odd_value(ch, Kind::String); break;
        case 1: rq->props[1].second = odd_value(ch, Kind::String); break;
        case 2: rq->props[ch.pick(2)].second = str(ch.of<const char *>({"", "1.2.3", "1.2.3.4.5", "256.1.1.1", "::1::", "example.org", "1.2.3.4 ", "g::1", "12345::1"})); break;
        case 3: rq->props[ch.pick(2)].second = str(std::string_view("1.2.3.4\0", 8)); break;
        case 4: rq = odd_value(ch, Kind::Object); if (is(rq, Kind::Undefined)) { r.probe("create-without-argument"); } break;
        case 5: rq->throwing.insert(ch.of<const char *>({"source", "target"})); break;
        default: rq->props.erase(rq->props.begin() + ch.pick(2)); break;
        }
        if (auth && ch.chance(1, 2)) {
            const auto au = get(rq, "auth");   // (none if the whole argument was replaced)
            if (!au->props.empty()) { au->props[ch.pick(2)].second = odd_value(ch, Kind::String); }
        }
    }
    const int fail = !must && ch.chance(1, 10) ? int(ch.range(1, 40)) : 0;
    seam::rng.drawn.clear();
    seam::arm(fail, ch.chance(1, 4));
    auto x = method(cls, self, "create", {rq});
    const bool trig = seam::disarm();
    if (trig) { r.fault("digest-failure"); }
    const auto words = seam::rng.drawn;
    r.eval("B01");
    r.step(x.threw ? 1 : 2);
    r.log("client %d: create%s%s%s -> %s", idx, auth ? " with credentials" : "", valid ? "" : ", bad argument", trig ? ", digest failure" : "", x.threw ? ("throws " + x.error).c_str() : show(x.value).c_str());
    if (!valid || trig) {
        if (!x.threw) { bad(trig ? "failure-not-reported" : "bad-argument-accepted", std::string("create() succeeds ") + (trig ? "although a digest failed" : "with bad arguments ") + show(rq)); }
        return;
    }
    if (x.threw) { bad("create-throws", "create() throws for valid arguments: " + x.error); return; }
    const auto hv = get(x.value, "value");
    if (!is(hv, Kind::Number) || hv->number < 0) { bad("no-handle", "create() returns no handle: " + show(x.value)); return; }
    const I64 h = I64(hv->number);
    if (owed.count(h) || done.count(h)) { bad("handle-reused", strf("handle %" PRId64 " was given before", h)); return; }
    Owed o;
    o.created = g_steady / 1000;
    o.must = must;
    o.auth = auth;
    owed.emplace(h, o);
    // the twin is told the same at the same instant
    size_t w = 0;
    auto source = [&]() -> uint32_t { return w < words.size() ? words[w++] : (w++, 0x12345678u + uint32_t(w)); };
    stun::ClientUDP::Request tr{.path = {.source = to_ip(src), .target = to_ip(dst)}, .attrs = {}, .unknown_attrs = {}, .maybe_auth = fw::none()};
    if (auth) {
        const fw::precis::OpaqueString u{js::well_formed(user)}, pw{js::well_formed(password)};
        tr.maybe_auth = stun::ClientUDP::Auth{u, stun::IntegrityData{stun::Password::short_term(pw, twin_hash.func()).unwrap(), twin_hash.func()}};
    }
    auto th = twin->create(source, fw::clock::steady_clock_now(), std::move(tr));
    if (th.is_err()) { lose_twin("its create failed"); return; }
    if (w != words.size()) { lose_twin("identifiers take another number of random words"); }
    twin_handle[h] = I64(th.unwrap().value);
}

void JsClient::bad_calls() {
    r.fault("bad-argument");
    Called x;
    const char *what;
    switch (ch.pick(5)) {
    case 0: x = method(cls, self, "response", {}); what = "response()"; break;
    case 1: x = method(cls, self, "response", {odd_value(ch, Kind::Buffer)}); what = "response(no buffer)"; break;
    case 2: x = method(cls, js::make(Kind::Object), "next", {}); what = "next() of another object"; break;
    case 3: x = method(cls, js::make(Kind::Object), "response", {buf({1, 2})}); what = "response() of another object"; break;
    default: x = method(cls, js::make(Kind::Object), "create", {obj({{"source", str("1.2.3.4")}, {"target", str("1.2.3.4")}})}); what = "create() of another object"; break;
    }
    r.eval("B01");
    r.log("client %d: %s -> %s", idx, what, x.threw ? x.error.c_str() : show(x.value).c_str());
    if (!x.threw) { bad("bad-argument-accepted", std::string(what) + " does not throw"); }
}

void JsClient::deliver(const Bytes& b, std::optional<Addr> truth, int evp_fail) {
    auto arg = buf(b);
    seam::arm(evp_fail, ch.chance(1, 4));
    auto x = method(cls, self, "response", {arg});
    const bool trig = seam::disarm();
    if (trig) { r.fault("digest-failure"); }
    // the application reuses its buffer
    std::fill(arg->buffer->begin(), arg->buffer->end(), 0xEE);
    arg.reset();
    r.eval("B01");
    r.step(3);
    r.log("client %d: response(%zu bytes)%s -> %s", idx, b.size(), trig ? " digest failure" : "", x.threw ? x.error.c_str() : show(x.value).c_str());
    if (x.threw) { bad("response-throws", "response() throws: " + x.error + " " + sim::hex(b, 200)); }
    if (heard.size() > 400) { heard.erase(heard.begin(), heard.begin() + 100); }
    heard.emplace_back(b, truth);
    twin_hash.fail_next = trig;
    (void)twin->response(fw::clock::steady_clock_now(), view(b));
    twin_hash.fail_next = false;
}

JsClient::Polled JsClient::poll() {
    Polled p;
    auto x = method(cls, self, "next", {});
    auto te = twin->next(fw::clock::steady_clock_now());
    r.eval("B01");
    using C = stun::ClientUDP;
    auto *ts = std::get_if<C::SendData>(&te);
    auto *tok = std::get_if<C::TransactionOk>(&te);
    auto *tf = std::get_if<C::TransactionFailed>(&te);
    auto *tsl = std::get_if<C::Sleep>(&te);
    const char *twin_kind = ts ? "send_data" : tok ? "transaction_ok" : tf ? "transaction_fail" : tsl ? "sleep" : "idle";
    r.log("client %d: next -> %s", idx, x.threw ? ("throws " + x.error).c_str() : show(x.value).c_str());
    if (x.threw) {
        // whatever the native client was about to say is lost now
        bad("next-throws", "next() throws instead of " + std::string(twin_kind) + ": " + x.error);
        lose_twin("next() threw");
        return p;
    }
    const auto type = get(x.value, "type");
    if (!is(type, Kind::String)) { bad("effect-without-type", "next() returns " + show(x.value)); return p; }
    const std::string k = type->string;
    if (!lenient && k != twin_kind) { bad("another-effect", "next() says " + show(x.value) + ", the native client " + twin_kind); lose_twin("another effect"); }
    auto twin_h = [&](I64 h) { auto i = twin_handle.find(h); return i == twin_handle.end() ? I64(-1) : i->second; };
    if (k == "send_data") {
        p.k = Polled::Send;
        r.step(10);
        const auto m = get(x.value, "message");
        if (!is(m, Kind::Buffer)) { bad("no-message", "nothing to send: " + show(x.value)); return p; }
        p.data = bytes_of(m);
        const I64 h = handle_of(x.value);
        auto it = owed.find(h);
        if (it == owed.end()) { bad("send-of-nobody", strf("data to send for handle %" PRId64 " which is not unfinished", h)); return p; }
        auto& o = it->second;
        if (!lenient) {
            if (p.data != to_bytes(ts->message_view)) {
                const Bytes t = to_bytes(ts->message_view);
                if (!o.sent && (p.data.size() < 20 || t.size() < 20 || !std::equal(p.data.begin() + 8, p.data.begin() + 20, t.begin() + 8))) { lose_twin("identifiers come about differently"); }
                else { bad("other-data", "data to send " + sim::hex(p.data, 200) + " instead of " + sim::hex(t, 200)); }
            }
            else if (twin_h(h) != I64(ts->handle.value)) { bad("wrong-handle", strf("data of handle %u is handed out for another one (%" PRId64 ")", ts->handle.value, h)); }
        }
        if (!o.sent) {
            o.sent = true;
            o.first = p.data;
            auto d = ref::decode(p.data);
            if (d.verdict != ref::Verdict::Accept || d.msg.cls != ref::REQUEST || d.msg.method != 1) { bad("not-a-request", "data to send is no Binding request: " + sim::hex(p.data, 200)); return p; }
            o.tid = d.msg.tid;
            if (o.auth != (d.msg.find(ref::MI) != nullptr)) { bad("not-what-was-asked-for", "credentials given to create() are not used"); }
            if (o.auth) {
                const std::string u = js::well_formed(user), pw = js::well_formed(password);
                if (d.msg.username() != u) { bad("not-what-was-asked-for", "the request carries another user name"); }
                if (!ref::mi_valid(p.data, d.msg, Bytes(pw.begin(), pw.end()))) { bad("not-what-was-asked-for", "the request is not signed with the password"); }
            }
            if (d.msg.has_fp != fingerprint) { bad("not-what-was-asked-for", "use_fingerprint is not obeyed"); }
            r.eval("C13");
            for (auto& [h2, o2] : owed) {
                if (h2 != h && o2.sent && o2.tid == o.tid) { r.violate({"C13"}, "identifier-in-use", strf("handles %" PRId64 " and %" PRId64 " are unfinished with one identifier %s", h, h2, sim::hex(o.tid).c_str())); }
            }
            if (ids) {
                if (!ids->insert(o.tid).second) { r.violate({"C13"}, "identifier-repeats", "identifier " + sim::hex(o.tid) + " was used before although the source of randomness repeats nothing"); }
            } else { r.probe("poor-randomness"); }
        } else if (p.data != o.first) { bad("other-data", "a retransmission differs from the first transmission"); }
        return p;
    }
    if (k == "transaction_ok" || k == "transaction_fail") {
        p.k = Polled::Outcome;
        r.step(k == "transaction_ok" ? 11 : 12);
        const I64 h = handle_of(x.value);
        auto it = owed.find(h);
        if (it == owed.end()) { bad(done.count(h) ? "second-outcome" : "outcome-of-nobody", strf("outcome of handle %" PRId64 " which is not unfinished: ", h) + show(x.value)); return p; }
        const Owed o = it->second;
        owed.erase(it);
        done.insert(h);
        if (!lenient && twin_h(h) != I64(tok ? tok->handle.value : tf->handle.value)) { bad("wrong-handle", strf("the outcome is given to handle %" PRId64, h)); }
        if (k == "transaction_ok") {
            const auto res = get(x.value, "result");
            std::string d = "no such response was received";
            bool want_truth = false;
            std::optional<Addr> truth;
            for (auto i = heard.rbegin(); i != heard.rend(); ++i) {
                const auto dec = ref::decode(i->first);
                // The properties leave open what such a datagram says; it may well be what the client took.
                if (dec.verdict == ref::Verdict::Unspecified && i->first.size() >= 20 && std::equal(o.tid.begin(), o.tid.end(), i->first.begin() + 8)) { d.clear(); truth.reset(); want_truth = false; r.probe("outcome-left-open"); break; }
                if (dec.verdict != ref::Verdict::Accept || dec.msg.cls != ref::SUCCESS || dec.msg.method != 1 || dec.msg.tid != o.tid) { continue; }
                auto a = dec.msg.xor_mapped();
                if (!a) { a = dec.msg.mapped(); }
                if (!a) { continue; }
                std::string e = diff_addr(res, *a);
                if (e.empty()) { e = diff_object(get(x.value, "response"), dec.msg); }
                if (e.empty()) { d.clear(); truth = i->second; want_truth = truth.has_value(); break; }
                d = e;
            }
            if (!d.empty()) { bad("not-what-was-received", "success " + show(x.value) + ": " + d); }
            if (want_truth) {
                r.probe("address-checked-end-to-end");
                auto e = diff_addr(res, *truth);
                if (!e.empty()) { bad("not-what-the-server-saw", "success: " + e); }
            }
            const auto rtt = get(x.value, "rtt_us");
            if (!lenient) {
                if (tok->round_trip.is_none() ? !is(rtt, Kind::Undefined) : !is(rtt, Kind::Number)) { bad("round-trip", "rtt_us " + show(rtt) + (tok->round_trip.is_none() ? " although nothing was measured" : "")); }
                else if (tok->round_trip.is_some()) {
                    const I64 us = std::chrono::duration_cast<std::chrono::microseconds>(tok->round_trip.unwrap()).count();
                    if (us > INT32_MAX) { r.probe("very-long-round-trip"); }
                    if (!is_int(rtt, double(us)) && !(us > INT32_MAX && is_int(rtt, INT32_MAX))) { bad("round-trip", "rtt_us " + show(rtt) + strf(" instead of %" PRId64, us)); }
                }
            }
        } else {
            const auto why = get(x.value, "reason");
            if (!is(why, Kind::String) || why->string.empty()) { bad("no-reason", "failure without a reason: " + show(x.value)); return p; }
            if (!lenient) {
                const auto i = int(tf->reason.index());
                auto has = [&](const std::string& s) { return why->string.find(s) != std::string::npos; };
                if (std::holds_alternative<C::TransactionFailed::Timeout>(tf->reason) != (why->string == "timeout")) { bad("wrong-reason", "reason " + show(why)); }
                if (auto *ec = std::get_if<C::TransactionFailed::ErrorCode>(&tf->reason)) {
                    r.probe("error-code-outcome");
                    const std::string ph = ec->attr.reason_phrase.is_some() ? ec->attr.reason_phrase.unwrap() : std::string();
                    if (!has(std::to_string(ec->attr.code)) || !has(js::well_formed(ph))) { bad("wrong-reason", strf("reason %s of error code %u", show(why).c_str(), ec->attr.code)); }
                } else {
                    auto [j, fresh] = reasons.emplace(why->string, i);
                    if (!fresh && j->second != i) { bad("wrong-reason", "the same reason " + show(why) + " for different failures"); }
                }
            }
            if (o.must) { bad("no-success-after-heal", strf("handle %" PRId64 " fails (%s) although nothing is wrong any more", h, show(why).c_str())); }
        }
        return p;
    }
    if (k == "sleep") {
        p.k = Polled::Sleep;
        r.step(13);
        const auto t = get(x.value, "timeout_ms");
        if (!is(t, Kind::Number) || t->number != std::floor(t->number) || t->number < 0) { bad("sleep", "timeout_ms " + show(t)); return p; }
        p.sleep_ms = I64(t->number);
        if (!lenient) {
            const I64 us = std::chrono::duration_cast<std::chrono::microseconds>(tsl->sleep).count(), got = p.sleep_ms * 1000;
            const bool capped = p.sleep_ms == INT32_MAX && us > got;
            if (!capped && (got < us || got - us >= 1000)) { bad("sleep", strf("timeout_ms %" PRId64 " for a wait of %" PRId64 " us", p.sleep_ms, us)); }
        }
        if (p.sleep_ms <= 0) { bad("sleep", strf("sleep of %" PRId64 " ms", p.sleep_ms)); }
        return p;
    }
    if (k != "idle") { bad("unknown-effect", "effect " + show(x.value)); return p; }
    r.step(14);
    if (!owed.empty()) { bad("idle-with-unfinished", strf("idle although handle %" PRId64 " is unfinished", owed.begin()->first)); }
    return p;
}

// ------------------------------------------------ a process with a STUN server in it
class JsServer {
public:
    JsServer(Run& r, int idx) : r(r), ch(r.ch), idx(idx) {}
    void start();
    void add_user(const std::string&, const std::string&, bool may_fail);
    std::optional<Bytes> process(const Bytes&, const Addr& from, int evp_fail, bool quiet);
    void bad_calls(const Bytes&);
    std::map<std::string, std::string> users;
private:
    void bad(const char *cls, const std::string& m) { r.violate({"B02"}, cls, strf("server %d: ", idx) + m); }
    Run& r;
    Choices& ch;
    int idx;
    Ref cls, self;
    std::unique_ptr<stun::server::Stateless> twin;
};

void JsServer::start() {
    r.log("server %d: process starts", idx);
    Env env;
    auto c = fw::node_stun::server_stateless_class(env, "StatelessServer");
    if (c.is_err()) { bad("no-class", "the class cannot be defined"); return; }
    cls = c.unwrap().cell();
    self = js::make(Kind::Object);
    auto x = call(cls->constructor, self, {});
    r.eval("B02");
    if (x.threw) { bad("constructor-throws", x.error); return; }
    twin = std::make_unique<stun::server::Stateless>(own_sha1);
    for (auto& [u, p] : users) { add_user(u, p, false); }
}

void JsServer::add_user(const std::string& u, const std::string& p, bool may_fail) {
    const int fail = may_fail && ch.chance(1, 5) ? int(ch.range(1, 12)) : 0;
    auto un = str(u), pw = str(p);
    const bool odd = may_fail && ch.chance(1, 5);
    if (odd) { r.fault("bad-argument"); (ch.pick(2) ? un : pw) = odd_value(ch, Kind::String); }
    seam::arm(fail, ch.chance(1, 4));
    auto x = method(cls, self, "addUser", {un, pw});
    const bool trig = seam::disarm();
    if (trig) { r.fault("digest-failure"); }
    r.eval("B02");
    r.step(20);
    r.log("server %d: addUser(%s)%s -> %s", idx, show(un).c_str(), trig ? " digest failure" : "", x.threw ? x.error.c_str() : "ok");
    if (odd || trig) {
        if (!x.threw) { bad(odd ? "bad-argument-accepted" : "failure-not-reported", "addUser() does not throw"); }
        return;
    }
    if (x.threw) { bad("add-user-throws", "addUser() throws: " + x.error); return; }
    users.emplace(u, p);
    const fw::precis::OpaqueString name{js::well_formed(u)}, pass{js::well_formed(p)};
    twin->add_user(name, stun::Password::short_term(pass, own_sha1).unwrap());
}

void JsServer::bad_calls(const Bytes& b) {
    r.fault("bad-argument");
    auto ri = obj({{"address", str("10.0.0.1")}, {"port", num(1000)}, {"family", str("IPv4")}});
    Called x;
    const char *what;
    switch (ch.pick(9)) {
    case 0: x = method(cls, self, "process", {}); what = "process()"; break;
    case 1: x = method(cls, self, "process", {buf(b)}); what = "process(buffer)"; break;
    case 2: x = method(cls, self, "process", {odd_value(ch, Kind::Buffer), ri}); what = "process(no buffer, rinfo)"; break;
    case 3: x = method(cls, self, "process", {buf(b), odd_value(ch, Kind::Object)}); what = "process(buffer, no rinfo)"; break;
    case 4: ri->props[0].second = odd_value(ch, Kind::String); x = method(cls, self, "process", {buf(b), ri}); what = "process() with an odd address"; break;
    case 5: ri->props[1].second = odd_value(ch, Kind::Number); x = method(cls, self, "process", {buf(b), ri}); what = "process() with an odd port"; break;
    case 6:
        ri->props[1].second = num(ch.of<double>({-1, 65536, 65537, 70000, -65536, 131072, 2147483647.0, -2147483648.0}));
        x = method(cls, self, "process", {buf(b), ri});
        what = "process() with a port out of range";
        break;
    case 7: ri->props[0].second = str(ch.of<const char *>({"", "10.0.0", "10.0.0.256", "localhost", "10.0.0.1 ", "::g"})); x = method(cls, self, "process", {buf(b), ri}); what = "process() with no address"; break;
    default: x = method(cls, js::make(Kind::Object), "process", {buf(b), ri}); what = "process() of another object"; break;
    }
    r.eval("B02");
    r.step(21);
    r.log("server %d: %s -> %s", idx, what, x.threw ? x.error.c_str() : show(x.value).c_str());
    if (!x.threw) { bad("bad-argument-accepted", std::string(what) + " does not throw but returns " + show(x.value) + " rinfo " + show(ri)); }
}

std::optional<Bytes> JsServer::process(const Bytes& b, const Addr& from, int evp_fail, bool quiet) {
    auto arg = buf(b);
    auto ri = obj({{"address", str(ip_text(from.ip))}, {"family", str(from.ip.size() == 4 ? "IPv4" : "IPv6")}, {"port", num(from.port)}, {"size", num(double(b.size()))}});
    seam::arm(evp_fail, !quiet && ch.chance(1, 4));
    auto x = method(cls, self, "process", {arg, ri});
    const bool trig = seam::disarm();
    if (trig) { r.fault("digest-failure"); }
    std::fill(arg->buffer->begin(), arg->buffer->end(), 0xEE);
    arg.reset();
    r.eval("B02");
    r.step(x.threw ? 22 : is_str(get(x.value, "result"), "respond") ? 23 : 24);
    r.log("server %d: process(%zu bytes from %s)%s -> %s", idx, b.size(), from.str().c_str(), trig ? " digest failure" : "", x.threw ? ("throws " + x.error).c_str() : show(x.value).c_str());
    if (trig) {
        // no answer that is signed, or signed for, can come of it
        if (!x.threw && is_str(get(x.value, "result"), "respond")) {
            auto d = ref::decode(bytes_of(get(x.value, "data")));
            if (d.msg.cls == ref::SUCCESS || d.msg.find(ref::MI)) { bad("failure-not-reported", "an answer although a digest failed: " + show(x.value)); }
        }
        return {};
    }
    if (x.threw) { bad("process-throws", "process() throws for a datagram: " + x.error + " " + sim::hex(b, 200)); return {}; }
    auto tres = twin->process(fw::net::Endpoint(to_ep(from)), view(b));
    const auto res = get(x.value, "result");
    if (auto *rs = std::get_if<stun::server::Stateless::Respond>(&tres)) {
        auto want = rs->response.build(rs->maybe_integrity);
        if (want.is_err()) { r.probe("unbuildable-answer"); return {}; }
        const Bytes w(want.unwrap().begin(), want.unwrap().end());
        if (!is_str(res, "respond")) { bad("no-answer", "process() says " + show(x.value) + " instead of answering"); return {}; }
        const auto data = get(x.value, "data");
        if (!is(data, Kind::Buffer) || bytes_of(data) != w) { bad("other-answer", "answer " + show(data) + " instead of " + sim::hex(w, 200)); return {}; }
        return w;
    }
    if (auto *ig = std::get_if<stun::server::Stateless::Ignore>(&tres)) {
        if (!is_str(res, "ignore")) { bad("answer-to-nothing", "process() says " + show(x.value) + " instead of ignoring"); return {}; }
        const auto m = get(x.value, "message");
        const auto d = ref::decode(b);
        if (ig->message.is_none()) {
            if (!is(m, Kind::Undefined)) { bad("ignored-message", "an ignored datagram that is no message is reported as " + show(m)); }
        } else if (d.verdict == ref::Verdict::Accept) {
            if (is(m, Kind::Undefined)) {
                if (d.msg.method == 1) { bad("ignored-message", "the ignored message is not reported"); }
                else { r.probe("message-of-another-method"); }
            } else {
                auto e = diff_object(m, d.msg);
                if (!e.empty()) { bad("ignored-message", "the ignored message is reported wrongly: " + e); }
            }
        }
        return {};
    }
    bad("other-answer", "process() says " + show(x.value) + " where the native server reports an error");
    return {};
}

// ------------------------------------------------ a network of processes
class World {
public:
    explicit World(Run& r) : r(r), ch(r.ch) {}
    void run();
private:
    struct Packet { I64 due; int to; bool to_server; Bytes b; Addr src; int client; std::optional<Addr> truth; uint64_t seq; };
    I64 us() const { return g_steady / 1000; }
    void advance(I64 by_us) {
        // clocks tick in nanoseconds
        I64 ns = by_us * 1000 + (healed ? 0 : I64(ch.pick(3)) * 333);
        g_steady += ns;
        r.now += by_us;
    }
    void send(Packet p, bool faults);
    void poll(size_t i);
    Addr peer();
    void deliver(size_t k);
    void inject();
    Run& r;
    Choices& ch;
    std::vector<std::unique_ptr<JsClient>> cl;
    std::vector<std::unique_ptr<JsServer>> sv;
    std::vector<I64> wake;
    std::vector<Packet> net;
    std::vector<Bytes> captured;
    std::vector<Addr> peers;
    std::set<Bytes> ids;
    uint64_t seq = 0;
    bool healed = false;
    uint32_t loss = 0, dup = 0, dmg = 0;
};

void World::send(Packet p, bool faults) {
    p.seq = seq++;
    if (captured.size() < 60) { captured.push_back(p.b); }
    if (faults && !healed) {
        if (ch.chance(loss, 100)) { r.fault("loss"); return; }
        if (ch.chance(dup, 100)) { r.fault("duplication"); auto q = p; q.due += I64(ch.pick(3000000)); q.seq = seq++; net.push_back(q); }
        if (ch.chance(dmg, 100)) { r.fault(damage(ch, p.b, captured, int(ch.pick(6)))); p.truth.reset(); }
        if (ch.chance(1, 6)) { r.fault("delay"); p.due += I64(ch.pick(40000000)); }
        if (ch.chance(1, 200)) { r.fault("very-long-delay"); p.due += 3000000000ll; }
    }
    net.push_back(std::move(p));
}

// Peers resemble each other
Addr World::peer() {
    Addr a = !peers.empty() && ch.chance(1, 2) ? near_addr(ch, peers[ch.pick(uint32_t(peers.size()))]) : gen_addr(ch, 2);
    if (peers.size() < 8) { peers.push_back(a); } else { peers[ch.pick(8)] = a; }
    return a;
}

void World::poll(size_t i) {
    auto& c = *cl[i];
    for (int k = 0; k < 200; ++k) {
        auto p = c.poll();
        if (p.k == JsClient::Polled::Send) {
            const int to = int(ch.pick(uint32_t(sv.size())));
            send(Packet{us() + 100 + I64(ch.pick(50000)), to, true, p.data, c.addr, int(i), {}, 0}, true);
        } else if (p.k == JsClient::Polled::Sleep) { wake[i] = us() + p.sleep_ms * 1000; return; }
        else if (p.k == JsClient::Polled::Idle) { wake[i] = INT64_MAX; return; }
        if (!healed && ch.chance(1, 8)) { wake[i] = us(); return; }
    }
}

void World::deliver(size_t k) {
    Packet p = net[k];
    net.erase(net.begin() + long(k));
    const int fail = !healed && ch.chance(1, 12) ? int(ch.range(1, 20)) : 0;
    if (p.to_server) {
        auto ans = sv[size_t(p.to)]->process(p.b, p.src, fail, healed);
        if (ans) {
            const auto d = ref::decode(*ans);
            std::optional<Addr> truth;
            if (d.msg.cls == ref::SUCCESS) { truth = p.src; }
            send(Packet{us() + 100 + I64(ch.pick(50000)), p.client, false, *ans, {}, p.client, truth, 0}, true);
        }
    } else if (p.to >= 0) { cl[size_t(p.to)]->deliver(p.b, p.truth, fail); wake[size_t(p.to)] = us(); }
}

// datagrams from anybody
void World::inject() {
    const size_t i = ch.pick(uint32_t(cl.size()));
    Bytes b;
    r.fault("forged-datagram");
    const bool to_server = ch.chance(1, 2);
    Bytes tid = ch.bulk(12);
    if (!to_server && !cl[i]->all().empty() && ch.chance(4, 5)) {
        auto it = cl[i]->all().begin();
        std::advance(it, ch.pick(uint32_t(cl[i]->all().size())));
        if (it->second.sent) { tid = it->second.tid; }
    }
    ref::Msg m = gen_msg(ch, true);
    if (!m.rfc3489) { m.tid = tid; }
    ref::EncodeOpts o;
    o.fingerprint = ch.chance(1, 2);
    if (!to_server) {
        m.cls = ch.of<unsigned>({ref::SUCCESS, ref::ERROR, ref::ERROR, ref::SUCCESS, ref::INDICATION, ref::REQUEST});
        if (m.cls == ref::ERROR && ch.chance(3, 4)) {
            m.attrs.resize(std::min<size_t>(m.attrs.size(), ch.pick(3)));
            const std::string why = ch.of<const char *>({"", "no", "\xff\xfe", "Stale Nonce", "timeout"});
            m.attrs.insert(m.attrs.begin(), {ref::ERRCODE, ref::enc_error(ch.of<unsigned>({300, 400, 401, 420, 438, 487, 500, 301, 600, 599}), why, 0)});
            if (ch.chance(1, 3)) { m.attrs.push_back({ref::ALT_SERVER, ref::enc_addr(gen_addr(ch, 2))}); }
            if (ch.chance(1, 3)) { m.attrs.push_back({ref::UNKNOWN_ATTRS, {0x7F, 1}}); }
        } else if (m.cls == ref::SUCCESS && ch.chance(1, 2)) { m.attrs.insert(m.attrs.begin(), {ch.chance(1, 3) ? ref::MAPPED : ref::XOR_MAPPED, ref::enc_addr(gen_addr(ch, 2))}); }
        if (ch.chance(1, 2)) { o.mi_key = Bytes(cl[i]->password.begin(), cl[i]->password.end()); }
    } else if (ch.chance(1, 3) && !sv[0]->users.empty()) {
        auto& [u, p] = *sv[0]->users.begin();
        m.attrs.insert(m.attrs.begin(), {ref::USERNAME, Bytes(u.begin(), u.end())});
        o.mi_key = Bytes(p.begin(), p.end());
    }
    b = ref::encode(m, o);
    if (ch.chance(1, 4)) { r.fault(damage(ch, b, captured, int(ch.pick(6)))); }
    if (ch.chance(1, 12)) { b = ch.bytes(ch.pick(40)); }
    if (b.size() > 65000) { return; }
    send(Packet{us() + I64(ch.pick(1000)), to_server ? int(ch.pick(uint32_t(sv.size()))) : int(i), to_server, b, peer(), int(i), {}, 0}, false);
}

void World::run() {
    g_steady = ch.of<I64>({1000000000, 0, 1, 86400000000000ll * 300, 999, INT64_MAX / 4}) + I64(ch.pick(2000));
    (void)fw::clock::steady_clock_now();
    seam::rng = {};
    seam::rng.s = ch.range64(1, 1u << 30);
    if (ch.chance(1, 6)) { seam::rng.poor = int(ch.range(20, 400)); r.fault("repeating-randomness"); }
    loss = ch.of<uint32_t>({0, 10, 30, 60});
    dup = ch.of<uint32_t>({0, 10, 30});
    dmg = ch.of<uint32_t>({0, 5, 20});
    const unsigned nc = ch.range(1, 3), ns = ch.range(1, 2), steps = ch.range(8, 60);
    const std::string user = gen_name(ch), pass = ch.chance(1, 4) ? std::string(ch.range(60, 100), 'p') : "secret" + gen_name(ch);
    for (unsigned i = 0; i < ns; ++i) {
        sv.push_back(std::make_unique<JsServer>(r, int(i)));
        sv.back()->users.emplace(user, pass);
        sv.back()->start();
    }
    for (unsigned i = 0; i < nc; ++i) {
        cl.push_back(std::make_unique<JsClient>(r, int(i)));
        auto& c = *cl.back();
        c.addr = peer();
        c.user = user;
        c.password = pass;
        c.use_auth = ch.chance(1, 2);
        c.ids = seam::rng.poor ? nullptr : &ids;
        c.start();
        wake.push_back(0);
    }
    for (unsigned s = 0; s < steps; ++s) {
        const size_t i = ch.pick(nc);
        switch (ch.weighted({10, 10, 16, 4, 2, 1, 1, 1, 1, 2})) {
        case 0: cl[i]->create(false); wake[i] = us(); break;
        case 1: poll(i); break;
        case 2: {  // on to the next thing that happens
            I64 t = INT64_MAX;
            size_t k = net.size();
            for (size_t j = 0; j < net.size(); ++j) { if (net[j].due < t) { t = net[j].due; k = j; } }
            size_t w = nc;
            for (size_t j = 0; j < nc; ++j) { if (wake[j] < t) { t = wake[j]; w = j; } }
            if (t == INT64_MAX) { advance(1000); break; }
            if (t > us()) { advance(t - us()); }
            if (w < nc) { poll(w); } else { deliver(k); }
            break;
        }
        case 3: inject(); break;
        case 4:
            if (ch.chance(1, 25)) { r.fault("stopped-for-days"); advance(I64(ch.range64(0, 40ull * 86400000000ull))); break; }
            r.fault("late-poll");
            advance(I64(ch.pick(ch.chance(1, 8) ? 4000000000u : 30000000u)));
            break;
        case 5: cl[i]->bad_calls(); break;
        case 6: sv[ch.pick(ns)]->bad_calls(captured.empty() ? Bytes() : captured[ch.pick(uint32_t(captured.size()))]); break;
        case 7: sv[ch.pick(ns)]->add_user(gen_name(ch), "x" + gen_name(ch), true); break;
        case 8: r.fault("process-restart"); cl[i]->start(); wake[i] = us(); break;
        default: r.fault("address-change"); cl[i]->addr = peer(); break;
        }
        uint64_t st = sim::mix(net.size(), nc);
        for (auto& c : cl) { st = sim::mix(st, c->unfinished()); }
        r.state(sim::mix(st, ids.size()));
        if (net.size() > 300) { break; }
    }
    // nothing is wrong from here on: everything finishes, and what is new succeeds
    healed = true;
    net.clear();
    seam::rng.poor = 0;
    for (size_t i = 0; i < nc; ++i) { poll(i); }
    for (size_t i = 0; i < nc; ++i) {
        for (unsigned k = ch.range(1, 2); k > 0; --k) { cl[i]->create(true); }
        wake[i] = us();
    }
    for (unsigned guard = 0; guard < 3000; ++guard) {
        I64 t = INT64_MAX;
        size_t k = net.size();
        for (size_t j = 0; j < net.size(); ++j) { if (net[j].due < t) { t = net[j].due; k = j; } }
        size_t w = nc;
        for (size_t j = 0; j < nc; ++j) { if (wake[j] < t) { t = wake[j]; w = j; } }
        if (t == INT64_MAX) { break; }
        if (t > us()) { advance(t - us()); }
        if (w < nc) { poll(w); } else { deliver(k); }
    }
    for (size_t i = 0; i < nc; ++i) {
        r.eval("B01");
        if (cl[i]->unfinished()) { r.violate({"B01"}, "no-outcome", strf("client %zu: %zu transactions never finish", i, cl[i]->unfinished())); }
    }
}

// ------------------------------------------------ identifiers
static unsigned affine_rank(const std::vector<Bytes>& v) {
    if (v.empty()) { return 0; }
    std::vector<Bytes> rows;
    for (size_t i = 1; i < v.size(); ++i) { Bytes x = v[i]; for (size_t k = 0; k < x.size(); ++k) { x[k] = uint8_t(x[k] ^ v[0][k]); } rows.push_back(x); }
    unsigned rank = 0;
    for (size_t bit = 0; bit < v[0].size() * 8; ++bit) {
        size_t p = rank;
        while (p < rows.size() && !(rows[p][bit / 8] >> (7 - bit % 8) & 1)) { p++; }
        if (p == rows.size()) { continue; }
        std::swap(rows[p], rows[rank]);
        for (size_t q = 0; q < rows.size(); ++q) {
            if (q != rank && (rows[q][bit / 8] >> (7 - bit % 8) & 1)) { for (size_t k = 0; k < rows[q].size(); ++k) { rows[q][k] = uint8_t(rows[q][k] ^ rows[rank][k]); } }
        }
        rank++;
    }
    return rank;
}

// Processes that start one after another, many transactions in each
static void identifiers(Run& r) {
    auto& ch = r.ch;
    seam::rng = {};
    seam::rng.s = ch.range64(1, 1u << 30);
    g_steady = I64(ch.pick(2000000000));
    const bool native = ch.chance(1, 2);
    std::set<Bytes> all;
    std::vector<Bytes> list;
    const unsigned procs = ch.range(2, 4);
    for (unsigned p = 0; p < procs; ++p) {
        r.log("process %u starts%s", p, native ? " (native)" : "");
        r.fault("process-restart");
        seam::libc_state = 1;
        Env env;
        Ref cls, self = js::make(Kind::Object);
        std::unique_ptr<stun::ClientUDP> nat;
        uint64_t draws = 0;
        auto source = [&]() -> uint32_t { draws++; return seam::rng.word(); };
        if (native) { nat = std::make_unique<stun::ClientUDP>(stun::ClientUDP::Settings{}); }
        else {
            cls = fw::node_stun::client_udp_class(env, "ClientUDP").unwrap().cell();
            if (call(cls->constructor, self, {obj({})}).threw) { r.violate({"C13", "B01"}, "constructor-throws", "the constructor throws"); return; }
        }
        const unsigned n = ch.range(60, 120), repeat = native && ch.chance(1, 2) ? ch.range(1, 30) : 0;
        if (repeat) { r.fault("repeating-randomness"); }
        std::set<Bytes> live;
        uint64_t made = 0;
        for (unsigned i = 0; i < n; ++i) {
            const uint64_t before = draws;
            if (repeat && i % repeat == 0) { seam::rng.poor = int(ch.pick(24)); }
            const bool poor = seam::rng.poor > 0;
            const uint64_t was = seam::rng.s;
            const bool again = native && i > 0 && ch.chance(1, 10);
            Bytes data;
            if (native) {
                stun::ClientUDP::Request q{.path = {.source = to_ip({10, 0, 0, 1}), .target = to_ip({10, 0, 0, 2})}, .attrs = {}, .unknown_attrs = {}, .maybe_auth = fw::none()};
                if (again) { r.fault("randomness-restarts"); }
                if (nat->create(source, fw::clock::steady_clock_now(), std::move(q)).is_err()) { r.violate({"C13"}, "create-fails", "create() fails"); return; }
                auto e = nat->next(fw::clock::steady_clock_now());
                if (auto *s = std::get_if<stun::ClientUDP::SendData>(&e)) { data = to_bytes(s->message_view); }
                if (again) { seam::rng.s = was; }    // the next one starts from the same words
            } else {
                if (method(cls, self, "create", {obj({{"source", str("10.0.0.1")}, {"target", str("10.0.0.2")}})}).threw) { r.violate({"C13", "B01"}, "create-throws", "create() throws"); return; }
                auto x = method(cls, self, "next", {});
                if (!x.threw && is(get(x.value, "message"), Kind::Buffer)) { data = bytes_of(get(x.value, "message")); }
            }
            if (data.size() < 20) { r.abandon("no request to read an identifier from"); }
            const Bytes id(data.begin() + 8, data.begin() + 20);
            made++;
            r.eval("C13");
            r.step(30 + again);
            if (!live.insert(id).second) { r.violate({"C13"}, "identifier-in-use", "two unfinished transactions with identifier " + sim::hex(id)); }
            if (!poor && !again && !(native && seam::rng.s == was)) {
                if (!all.insert(id).second && !repeat) { r.violate({"C13"}, "identifier-repeats", "identifier " + sim::hex(id) + " was used before although the source of randomness repeats nothing"); }
            }
            if (native && draws - before < 3) { r.violate({"C13"}, "too-little-randomness", strf("%" PRIu64 " random words for an identifier of 96 bits", draws - before)); }
            if (!poor && !repeat) { list.push_back(id); }
        }
        r.log("%" PRIu64 " transactions, %zu identifiers so far", made, all.size());
        r.now += 1000000;
        g_steady += I64(ch.pick(2000000000));
    }
    if (list.size() >= 160) {   // (fewer could fall short of 96 by chance)
        const unsigned k = affine_rank(list);
        r.eval("C13");
        r.log("rank of %zu identifiers: %u", list.size(), k);
        if (k < 96) { r.violate({"C13"}, "predictable-bits", strf("%zu identifiers of 96 bits vary in %u dimensions only", list.size(), k)); }
    }
}

// ------------------------------------------------ digests
template<typename H, typename F>
static void one_digest(Run& r, const char *name, F&& f, unsigned char *(*truth)(const unsigned char *, size_t, unsigned char *)) {
    auto& ch = r.ch;
    const unsigned n = ch.pick(7);
    std::vector<Bytes> parts;
    Bytes all;
    for (unsigned i = 0; i < n; ++i) {
        parts.push_back(ch.bulk(ch.chance(1, 10) ? ch.pick(20000) : ch.of<uint32_t>({0, 1, 55, 56, 63, 64, 65, 20, 119, 128, 200})));
        all.insert(all.end(), parts.back().begin(), parts.back().end());
    }
    typename H::Input in;
    for (auto& p : parts) { in.push_back(view(p)); }
    const bool bad = ch.chance(1, 2);
    const int at = bad ? int(ch.range(1, n + 4)) : 0;
    const bool silent = bad && ch.chance(1, 4);
    const uint64_t calls = seam::evp_calls;
    seam::arm(at, silent);
    auto res = f(in);
    const bool trig = seam::disarm();
    if (trig) { r.fault(silent ? "digest-failure-without-error" : "digest-failure"); }
    r.eval("H03");
    r.step(40 + (trig ? 1u : 0u) + (res.is_ok() ? 2u : 0u));
    r.state(sim::mix(n, uint64_t(at)));
    r.log("%s of %u parts, %zu bytes, %" PRIu64 " calls, failure at %d%s -> %s", name, n, all.size(), seam::evp_calls - calls, at, trig ? " (hit)" : "", res.is_ok() ? "ok" : "error");
    if (res.is_err() && !trig) { r.violate({"H03"}, "digest-fails", std::string(name) + " fails although nothing is wrong"); return; }
    if (res.is_ok()) {
        Bytes want(H::size), got(res.unwrap().view().begin(), res.unwrap().view().end());
        truth(all.data(), all.size(), want.data());
        if (got != want) {
            r.violate({"H03"}, trig ? "wrong-digest-after-failure" : "wrong-digest", strf("%s gives %s instead of %s%s", name, sim::hex(got).c_str(), sim::hex(want).c_str(), trig ? ", after call that failed" : ""));
        }
    }
}
static void digests(Run& r) {
    const unsigned n = r.ch.range(1, 12);
    for (unsigned i = 0; i < n; ++i) {
        namespace c = fw::crypto;
        switch (r.ch.pick(4)) {
        case 0: one_digest<c::SHA1Hash>(r, "node sha1", c::node_openssl::sha1, SHA1); break;
        case 1: one_digest<c::MD5Hash>(r, "node md5", c::node_openssl::md5, MD5); break;
        case 2: one_digest<c::SHA1Hash>(r, "sha1", c::openssl::sha1, SHA1); break;
        default: one_digest<c::MD5Hash>(r, "md5", c::openssl::md5, MD5); break;
        }
        r.now += 1;
    }
}

// ------------------------------------------------ parsers
static void parse_message(Run& r) {
    auto& ch = r.ch;
    auto bad = [&](const char *cls, const std::string& m) { r.violate({"B03"}, cls, m); };
    const unsigned n = ch.range(1, 10);
    std::vector<Bytes> seen;
    for (unsigned i = 0; i < n; ++i) {
        ref::Msg m = gen_msg(ch, true);
        ref::EncodeOpts o;
        o.fingerprint = ch.chance(1, 2);
        if (ch.chance(1, 3)) { o.mi_key = ch.bytes(4); }
        if (ch.chance(1, 4)) { o.pad = ch.byte(); }
        Bytes b = ref::encode(m, o);
        if (b.size() > 65000) { continue; }
        if (ch.chance(1, 3)) { r.fault(damage(ch, b, seen, int(ch.pick(6)))); }
        if (seen.size() < 20) { seen.push_back(b); }
        Ref arg = ch.chance(1, 20) ? odd_value(ch, Kind::Buffer) : buf(b);
        const bool odd = !is(arg, Kind::Buffer);
        if (odd) { r.fault("bad-argument"); }
        auto x = call(fw::node_stun::message_parse, undef(), {arg});
        if (!odd) { std::fill(arg->buffer->begin(), arg->buffer->end(), 0xEE); }
        arg.reset();
        const auto d = ref::decode(b);
        r.eval("B03");
        r.step(50 + (x.threw ? 1u : 0u) + (odd ? 2u : 0u) + 4 * unsigned(d.verdict));
        r.now += 1000;
        r.log("message_parse(%zu bytes, %s) -> %s", b.size(), odd ? "no buffer" : d.verdict == ref::Verdict::Accept ? "message" : d.why, x.threw ? x.error.c_str() : show(x.value).c_str());
        if (odd) { if (!x.threw) { bad("bad-argument-accepted", "message_parse() accepts something that is no buffer"); } continue; }
        if (d.verdict == ref::Verdict::Unspecified) { continue; }
        if (d.verdict == ref::Verdict::Reject) {
            if (!x.threw) { bad("no-message", std::string("message_parse() reads a datagram that is no message (") + d.why + ") as " + show(x.value) + " " + sim::hex(b, 200)); }
            continue;
        }
        r.state(sim::mix(d.msg.cls, d.msg.attrs.size()));
        if (x.threw) {
            if (d.msg.method == 1) { bad("message-refused", "message_parse() throws " + x.error + " for " + sim::hex(b, 300)); }
            else { r.probe("message-of-another-method"); }
            continue;
        }
        auto e = diff_object(x.value, d.msg);
        if (!e.empty()) { bad("misread", e + " in " + sim::hex(b, 300)); }
    }
}

static void parse_candidate(Run& r) {
    auto& ch = r.ch;
    auto bad = [&](const char *cls, const std::string& m) { r.violate({"B03"}, cls, m); };
    const unsigned n = ch.range(1, 10);
    for (unsigned i = 0; i < n; ++i) {
        static const char *const types[] = {"host", "srflx", "prflx", "relay"};
        const unsigned type = ch.pick(4);
        const unsigned comp = ch.range(1, 256), port = ch.pick(3) ? ch.pick(65536) : ch.of<unsigned>({0, 65535, 9, 32768});
        std::string fnd;
        for (unsigned k = ch.range(1, 32); k > 0; --k) { fnd += "abcXYZ0189+/"[ch.pick(12)]; }
        const bool name = ch.chance(1, 6);
        const Addr a = gen_addr(ch, 2);
        Addr ra = gen_addr(ch, 2);
        if (ch.chance(1, 4)) { ra.ip.assign(ra.ip.size(), 0); }
        const std::string host = name ? "host-" + std::to_string(ch.pick(100)) + ".local" : ip_text(a.ip);
        const uint32_t prio = uint32_t(ch.range64(1, 0x7FFFFFFF));
        std::string l = "candidate:" + fnd + strf(" %u %s %u ", comp, ch.of<const char *>({"udp", "UDP", "Udp"}), prio) + host + strf(" %u typ %s", port, types[type]);
        const bool rel = type != 0 && !ch.chance(1, 4);
        const unsigned rport = ch.pick(3) ? ch.pick(65536) : ch.of<unsigned>({0, 0, 65535, 9, 32768});
        if (rel) { l += " raddr " + ip_text(ra.ip) + strf(" rport %u", rport); }
        std::vector<std::pair<std::string, std::string>> ext;
        for (unsigned k = ch.pick(4); k > 0; --k) { ext.push_back({ch.of<const char *>({"generation", "ufrag", "network-id", "x"}) + std::to_string(k), ch.of<const char *>({"0", "EsAw", "10", "\xC3\xA9", "#"})}); }
        for (auto& [k, v] : ext) { l += " " + k + " " + v; }
        bool intact = true;
        if (ch.chance(1, 3)) {
            intact = false;
            r.fault("damaged-line");
            switch (ch.pick(5)) {
            case 0: l.resize(ch.pick(uint32_t(l.size()))); break;
            case 1: l[ch.pick(uint32_t(l.size()))] = char(ch.pick(128)); break;
            case 2: { auto p = l.find(" udp "); if (p != std::string::npos) { l.replace(p, 5, ch.of<const char *>({" tcp ", " sctp ", " UDPX "})); } break; }
            case 3: { auto p = l.find(" typ "); l.replace(p, 5 + strlen(types[type]), ch.of<const char *>({" typ xhost", " typ ", " type host", ""})); break; }
            default: l.insert(ch.pick(uint32_t(l.size()) + 1), 1, char(ch.of<int>({' ', 0, 'a', '-', 127}))); break;
            }
        }
        Ref arg = ch.chance(1, 20) ? odd_value(ch, Kind::String) : str(l);
        const bool odd = !is(arg, Kind::String);
        if (odd) { r.fault("bad-argument"); }
        auto x = call(fw::node_ice::ice_candidate_parse, undef(), {arg});
        r.eval("B03");
        r.now += 1000;
        r.log("candidate_parse(%s) -> %s", odd ? show(arg).c_str() : l.c_str(), x.threw ? x.error.c_str() : show(x.value).c_str());
        if (odd) { if (!x.threw) { bad("bad-argument-accepted", "candidate_parse() accepts something that is no string"); } continue; }
        auto nat = fw::ice::candidate::parse_sdp_attr(js::well_formed(l));
        r.step(60 + (x.threw ? 1u : 0u) + (nat.is_ok() ? 2u : 0u));
        r.state(sim::mix(sim::mix(type, rel), ext.size()));
        if (nat.is_err() != x.threw) { bad("candidate-verdict", "candidate_parse('" + l + "') " + (x.threw ? "throws " + x.error : std::string("does not throw")) + ", the native parser " + (nat.is_err() ? "refuses" : "accepts")); continue; }
        if (x.threw) { if (intact) { bad("candidate-refused", "candidate_parse('" + l + "') throws " + x.error); } continue; }
        const auto res = get(x.value, "result"), err = get(x.value, "error");
        auto v = nat.unwrap();
        if (auto *un = std::get_if<fw::ice::candidate::Unsupported>(&v)) {
            if (!is(res, Kind::Null) || !is_str(err, js::well_formed(un->value))) { bad("candidate-error", "an unsupported candidate is reported as " + show(x.value)); }
            if (intact) { bad("candidate-refused", "candidate_parse('" + l + "') calls it unsupported"); }
            continue;
        }
        const auto& c = std::get<fw::ice::candidate::Supported>(v);
        if (!is(err, Kind::Null) || !is(res, Kind::Object)) { bad("candidate-error", "a supported candidate is reported as " + show(x.value)); continue; }
        auto same_host = [](const Ref& got, const std::string& want) {
            if (!is(got, Kind::String)) { return false; }
            auto g = text_ip(got->string), w = text_ip(want);
            return g || w ? g == w : got->string == want;
        };
        auto text = [](auto&& rv) { return rv.is_ok() ? js::well_formed(rv.unwrap()) : std::string("?"); };
        auto field = [&](const char *n2, bool ok) { if (!ok) { bad("candidate-misread", std::string(n2) + " of candidate_parse('" + l + "'): " + show(res)); } };
        const auto& k = c.candidate;
        field("host", same_host(get(res, "host"), text(k.address.to_string())));
        field("port", is_int(get(res, "port"), k.port.value()));
        field("type", is_str(get(res, "type"), js::well_formed(k.type.to_string())));
        field("transport", is_str(get(res, "transport"), js::well_formed(k.transport_type.to_string())));
        field("foundation", is_str(get(res, "foundation"), js::well_formed(k.foundation.to_string())));
        field("component", is_int(get(res, "component"), k.component.value()));
        field("raddr", k.maybe_related_address.is_none() ? is(get(res, "raddr"), Kind::Undefined) : same_host(get(res, "raddr"), text(k.maybe_related_address.unwrap().to_string())));
        field("rport", k.maybe_related_port.is_none() ? is(get(res, "rport"), Kind::Undefined) : is_int(get(res, "rport"), k.maybe_related_port.unwrap().value()));
        const auto ex = get(res, "extensions");
        field("extensions", is(ex, Kind::Array) && ex->array.size() == c.extensions.size());
        for (size_t e = 0; is(ex, Kind::Array) && e < ex->array.size() && e < c.extensions.size(); ++e) {
            field("extensions", is_str(get(ex->array[e], "name"), js::well_formed(c.extensions[e].att_name)) && is_str(get(ex->array[e], "value"), js::well_formed(c.extensions[e].att_value)));
        }
        if (intact) {
            // and what the writer meant
            field("host", name ? is_str(get(res, "host"), host) : same_host(get(res, "host"), host));
            field("port", is_int(get(res, "port"), port));
            field("type", is_str(get(res, "type"), types[type]));
            field("foundation", is_str(get(res, "foundation"), fnd));
            field("component", is_int(get(res, "component"), comp));
            field("raddr", rel ? same_host(get(res, "raddr"), ip_text(ra.ip)) : is(get(res, "raddr"), Kind::Undefined));
            field("rport", rel ? is_int(get(res, "rport"), rport) : is(get(res, "rport"), Kind::Undefined));
            field("extensions", ex->array.size() == ext.size());
        }
    }
}

static void run_profile(Run& r) {
    seam::disarm();
    seam::libc_state = 1;
    std::string p = r.prop;
    if (p == "ALL") { static const char *const all[] = {"B01", "B03", "C13", "H03", "B02"}; p = all[r.ch.pick(5)]; }
    if (p == "H03") { digests(r); }
    else if (p == "C13" && r.ch.chance(1, 2)) { identifiers(r); }
    else if (p == "B03") { if (r.ch.chance(1, 3)) { parse_candidate(r); } else { parse_message(r); } }
    else { World(r).run(); }
}

// a thread of its own for every run: what the code keeps per thread (the
// converted clock) starts afresh, as in a new process
static void scenario(Run& r) {
    std::exception_ptr ex;
    std::thread t([&] { try { run_profile(r); } catch (...) { ex = std::current_exception(); } });
    t.join();
    if (ex) { std::rethrow_exception(ex); }
}

}

int main(int argc, char **argv) { return sim::sim_main(argc, argv, nw::scenario); }
