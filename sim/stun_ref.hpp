// Independent reference codec for STUN (RFC 5389 / 8489 / 8445 / 3489
// compatibility), written for the simulator. It shares no code with the
// repository: own framing, own bitwise CRC-32, OpenSSL's HMAC.
#pragma once

#include "core.hpp"
#include <array>
#include <optional>

namespace ref {

using sim::Bytes;

enum Cls { REQUEST = 0, INDICATION = 1, SUCCESS = 2, ERROR = 3 };

enum : uint16_t {
    MAPPED = 0x0001, USERNAME = 0x0006, MI = 0x0008, ERRCODE = 0x0009, UNKNOWN_ATTRS = 0x000A,
    XOR_MAPPED = 0x0020, PRIORITY = 0x0024, USE_CANDIDATE = 0x0025,
    SOFTWARE = 0x8022, ALT_SERVER = 0x8023, FINGERPRINT = 0x8028, ICE_CONTROLLED = 0x8029, ICE_CONTROLLING = 0x802A,
};
bool is_known(uint16_t type);
constexpr uint32_t COOKIE = 0x2112A442;

struct Addr {
    Bytes ip;  // 4 or 16 bytes
    uint16_t port = 0;
    bool operator==(const Addr&) const = default;
    std::string str() const;
};

struct Attr {
    uint16_t type;
    Bytes value;
    bool operator==(const Attr&) const = default;
};

struct Msg {
    unsigned cls = REQUEST;
    unsigned method = 1;
    bool rfc3489 = false;
    Bytes tid;                 // 12 bytes, 16 for rfc3489
    std::vector<Attr> attrs;   // attributes in force: up to and including the first MI, and FINGERPRINT
    std::optional<size_t> mi_off;
    bool has_fp = false;

    const Attr *find(uint16_t type) const;
    std::vector<uint16_t> unknown_required() const;
    std::optional<Addr> mapped() const;
    std::optional<Addr> xor_mapped() const;
    std::optional<Addr> alt_server() const;
    std::optional<std::pair<unsigned, std::string>> error() const;
    std::optional<std::vector<uint16_t>> unknown_attrs() const;
    std::optional<std::string> username() const;
};

enum class Verdict { Accept, Reject, Unspecified };
struct Decoded {
    Verdict verdict = Verdict::Reject;
    const char *why = "";
    bool damage = false;   // rejected by framing or fingerprint
    Msg msg;
};

// legacy_response: accept responses without the magic cookie (what an
// RFC 3489 client sees)
Decoded decode(const Bytes&, bool legacy_response = false);
uint32_t crc32(const uint8_t *p, size_t n);
Bytes sha1(const Bytes&);
Bytes hmac_sha1(const Bytes& key, const Bytes& data);
// is the MESSAGE-INTEGRITY of the decoded datagram right under key?
bool mi_valid(const Bytes& datagram, const Msg&, const Bytes& key);

struct EncodeOpts {
    std::optional<Bytes> mi_key;       // append MESSAGE-INTEGRITY with this key
    std::vector<Attr> after_mi;        // attributes placed after MESSAGE-INTEGRITY
    bool fingerprint = false;
    uint32_t fp_error = 0;             // xored onto the right value
    uint8_t pad = 0;                   // padding bytes
    bool bad_mi = false;
};
Bytes encode(const Msg&, const EncodeOpts& = {});
// recompute header length and fingerprint (if present as last attribute)
void refinger(Bytes&);

Bytes enc_addr(const Addr&);
Bytes enc_xor_addr(const Addr&, const Bytes& tid12);
Bytes enc_error(unsigned code, const std::string& reason, uint32_t reserved = 0);
Bytes u16(uint16_t);
Bytes u32(uint32_t);
Bytes u64(uint64_t);

}
