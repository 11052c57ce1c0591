// Glue between the repository's STUN API and the reference codec.
#pragma once

#include "core.hpp"
#include "counters.hpp"
#include "stun_ref.hpp"

#include "crypto/openssl/openssl_hash.hpp"
#include "stun/stun_client_udp.hpp"
#include "stun/stun_message.hpp"
#include "stun/stun_server_stateless.hpp"
#include "util/util_variant_overloaded.hpp"

namespace ws {

using sim::Bytes;
using sim::Run;
using sim::Choices;
using ref::Addr;
namespace fw = freewebrtc;
namespace stun = freewebrtc::stun;

inline Bytes to_bytes(const fw::util::ConstBinaryView& v) { return Bytes(v.begin(), v.end()); }
inline fw::util::ConstBinaryView view(const Bytes& b) {
    static const uint8_t none = 0;
    return fw::util::ConstBinaryView(b.empty() ? &none : b.data(), b.size());
}

fw::net::ip::Address to_ip(const Bytes& ip);
inline fw::net::UdpEndpoint to_ep(const Addr& a) { return fw::net::UdpEndpoint{to_ip(a.ip), fw::net::Port(a.port)}; }
inline Addr from_ep(const fw::net::ip::Address& a, const fw::net::Port& p) { return Addr{to_bytes(a.view()), p.value()}; }

// Does the parsed message say what the reference decoder says? Empty if so.
std::string diff_message(const stun::Message&, const ref::Msg&);

// Hash provider seam: SHA-1 through the repository's OpenSSL binding, with
// injected failures.
struct HashProvider {
    int fail_at = 0;          // fail the n-th invocation from now on (0: never)
    bool triggered = false;
    uint64_t calls = 0;
    void arm(int n) { fail_at = n; triggered = false; }
    void disarm() { fail_at = 0; triggered = false; }
    fw::crypto::SHA1Hash::Func func();
};

// A datagram under construction / modification
struct RawMsg {
    Bytes head;                                  // 20 bytes
    std::vector<Bytes> attrs;                    // type, length, value, padding
    static RawMsg split(const Bytes&);           // framing must be sound
    Bytes join() const;
};

ref::Attr gen_attr(Choices&, const Bytes& tid, bool allow_bad);
void many_attrs(Choices&, ref::Msg&);            // appends up to thousands
size_t wire_size(const ref::Msg&);               // without digest and fingerprint
Addr gen_addr(Choices&, int v6 /* 0 v4, 1 v6, 2 any */);
Addr near_addr(Choices&, Addr);
// in place structural or random damage; returns the kind of damage done
const char *damage(Choices&, Bytes&, const std::vector<Bytes>& captured, int kind);

}
