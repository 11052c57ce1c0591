#include "stun_ref.hpp"
#include <openssl/evp.h>
#include <openssl/hmac.h>

namespace ref {

static uint16_t rd16(const Bytes& b, size_t o) { return uint16_t(b[o] << 8 | b[o + 1]); }
static uint32_t rd32(const Bytes& b, size_t o) { return uint32_t(rd16(b, o)) << 16 | rd16(b, o + 2); }

Bytes u16(uint16_t v) { return {uint8_t(v >> 8), uint8_t(v)}; }
Bytes u32(uint32_t v) { return {uint8_t(v >> 24), uint8_t(v >> 16), uint8_t(v >> 8), uint8_t(v)}; }
Bytes u64(uint64_t v) { Bytes b = u32(uint32_t(v >> 32)), l = u32(uint32_t(v)); b.insert(b.end(), l.begin(), l.end()); return b; }

std::string Addr::str() const {
    return sim::hex(ip) + sim::strf(":%u", port);
}

bool is_known(uint16_t t) {
    switch (t) {
    case MAPPED: case USERNAME: case MI: case ERRCODE: case UNKNOWN_ATTRS: case XOR_MAPPED: case PRIORITY:
    case USE_CANDIDATE: case SOFTWARE: case ALT_SERVER: case FINGERPRINT: case ICE_CONTROLLED: case ICE_CONTROLLING:
        return true;
    }
    return false;
}

uint32_t crc32(const uint8_t *p, size_t n) {
    uint32_t c = 0xFFFFFFFFu;
    for (size_t i = 0; i < n; ++i) {
        c ^= p[i];
        for (int k = 0; k < 8; ++k) { c = (c & 1) ? (c >> 1) ^ 0xEDB88320u : c >> 1; }
    }
    return ~c;
}

Bytes sha1(const Bytes& d) {
    Bytes out(20);
    unsigned n = 20;
    EVP_Digest(d.data(), d.size(), out.data(), &n, EVP_sha1(), nullptr);
    return out;
}

Bytes hmac_sha1(const Bytes& key, const Bytes& data) {
    Bytes out(20);
    unsigned n = 20;
    static const uint8_t dummy = 0;
    HMAC(EVP_sha1(), key.empty() ? &dummy : key.data(), int(key.size()), data.data(), data.size(), out.data(), &n);
    return out;
}

const Attr *Msg::find(uint16_t type) const {
    for (auto& a : attrs) { if (a.type == type) { return &a; } }
    return nullptr;
}
std::vector<uint16_t> Msg::unknown_required() const {
    std::vector<uint16_t> v;
    for (auto& a : attrs) { if (!is_known(a.type) && a.type < 0x8000) { v.push_back(a.type); } }
    return v;
}
static Addr dec_addr(const Bytes& v) {
    return Addr{Bytes(v.begin() + 4, v.end()), rd16(v, 2)};
}
std::optional<Addr> Msg::mapped() const {
    auto *a = find(MAPPED);
    if (!a) { return std::nullopt; }
    return dec_addr(a->value);
}
std::optional<Addr> Msg::alt_server() const {
    auto *a = find(ALT_SERVER);
    if (!a) { return std::nullopt; }
    return dec_addr(a->value);
}
static Addr xored(Addr r, const Bytes& tid) {
    Bytes key = u32(COOKIE);
    key.insert(key.end(), tid.begin(), tid.end());
    for (size_t i = 0; i < r.ip.size(); ++i) { r.ip[i] ^= key[i]; }
    r.port = uint16_t(r.port ^ (COOKIE >> 16));
    return r;
}
std::optional<Addr> Msg::xor_mapped() const {
    auto *a = find(XOR_MAPPED);
    if (!a) { return std::nullopt; }
    return xored(dec_addr(a->value), tid);
}
std::optional<std::pair<unsigned, std::string>> Msg::error() const {
    auto *a = find(ERRCODE);
    if (!a) { return std::nullopt; }
    const auto& v = a->value;
    return std::make_pair(unsigned(v[2] & 7) * 100 + v[3], std::string(v.begin() + 4, v.end()));
}
std::optional<std::vector<uint16_t>> Msg::unknown_attrs() const {
    auto *a = find(UNKNOWN_ATTRS);
    if (!a) { return std::nullopt; }
    std::vector<uint16_t> r;
    for (size_t i = 0; i + 1 < a->value.size(); i += 2) { r.push_back(rd16(a->value, i)); }
    return r;
}
std::optional<std::string> Msg::username() const {
    auto *a = find(USERNAME);
    if (!a) { return std::nullopt; }
    return std::string(a->value.begin(), a->value.end());
}

static Decoded rej(const char *why, bool damage) {
    Decoded d;
    d.why = why;
    d.damage = damage;
    return d;
}

Decoded decode(const Bytes& b, bool legacy_response) {
    if (b.size() < 20) { return rej("shorter than the header", true); }
    const uint16_t type = rd16(b, 0);
    if (type & 0xC000) { return rej("leading bits not zero", true); }
    const uint16_t len = rd16(b, 2);
    if (len % 4) { return rej("length not a multiple of 4", true); }
    if (size_t(len) + 20 != b.size()) { return rej("length does not match", true); }
    Decoded d;
    Msg& m = d.msg;
    m.cls = ((type >> 4) & 1) | ((type >> 7) & 2);
    m.method = (type & 0xF) | ((type >> 1) & 0x70) | ((type >> 2) & 0xF80);
    const bool cookie = rd32(b, 4) == COOKIE;
    if (!cookie && m.cls != REQUEST && !legacy_response) { return rej("no magic cookie", true); }
    m.rfc3489 = !cookie;
    m.tid = cookie ? Bytes(b.begin() + 8, b.begin() + 20) : Bytes(b.begin() + 4, b.begin() + 20);
    bool unspecified = false;
    const char *uw = "";
    auto unspec = [&](const char *w) { unspecified = true; uw = w; };
    std::optional<Decoded> reject;
    size_t o = 20;
    bool fp_bad = false;
    while (o < b.size()) {
        const uint16_t t = rd16(b, o), l = rd16(b, o + 2);
        const size_t end = o + 4 + l, aligned = o + 4 + (size_t(l) + 3) / 4 * 4;
        if (end > b.size()) { return rej("attribute does not fit", true); }
        Bytes v(b.begin() + long(o) + 4, b.begin() + long(end));
        if (t == FINGERPRINT) {
            if (aligned < b.size()) { return rej("fingerprint not last", true); }
            if (l < 4) { return rej("short fingerprint", true); }
            if (l > 4) { unspec("long fingerprint"); }
            if (rd32(v, 0) != (crc32(b.data(), o) ^ 0x5354554Eu)) { fp_bad = true; }
            m.has_fp = true;
            m.attrs.push_back({t, v});
        } else if (!m.mi_off) {
            const bool dup = m.find(t) != nullptr && is_known(t);
            auto bad = [&](const char *w) {
                if (dup) { unspec("malformed duplicate"); } else if (!reject) { reject = rej(w, false); }
            };
            switch (t) {
            case MAPPED: case XOR_MAPPED: case ALT_SERVER:
                if (v.size() < 4 || !((v[1] == 1 && v.size() == 8) || (v[1] == 2 && v.size() == 20))) { bad("bad address attribute"); }
                break;
            case MI:
                if (v.size() != 20) { bad("bad integrity size"); }
                m.mi_off = o;
                break;
            case PRIORITY:
                if (v.size() < 4) { bad("short priority"); } else if (v.size() > 4) { unspec("long priority"); }
                break;
            case ICE_CONTROLLED: case ICE_CONTROLLING:
                if (v.size() < 8) { bad("short tie breaker"); } else if (v.size() > 8) { unspec("long tie breaker"); }
                break;
            case USE_CANDIDATE:
                if (!v.empty()) { bad("use-candidate with value"); }
                break;
            case UNKNOWN_ATTRS:
                if (v.size() % 2) { bad("odd unknown-attributes"); }
                break;
            case ERRCODE:
                if (v.size() < 4) { bad("short error code"); } else if (v[3] > 99) { unspec("error number above 99"); }
                break;
            default: break;
            }
            m.attrs.push_back({t, v});
        }
        o = aligned;
    }
    if (reject) { return *reject; }
    if (fp_bad) {
        if (unspecified) { d.verdict = Verdict::Unspecified; d.why = uw; return d; }
        return rej("fingerprint mismatch", true);
    }
    d.verdict = unspecified ? Verdict::Unspecified : Verdict::Accept;
    d.why = uw;
    return d;
}

bool mi_valid(const Bytes& b, const Msg& m, const Bytes& key) {
    if (!m.mi_off) { return false; }
    const size_t o = *m.mi_off;
    if (b.size() < o + 24) { return false; }
    Bytes covered(b.begin(), b.begin() + long(o));
    const uint16_t len = uint16_t(o + 24 - 20);
    covered[2] = uint8_t(len >> 8);
    covered[3] = uint8_t(len);
    return hmac_sha1(key, covered) == Bytes(b.begin() + long(o) + 4, b.begin() + long(o) + 24);
}

static void put(Bytes& b, uint16_t t, const Bytes& v, uint8_t pad) {
    Bytes h = u16(t), l = u16(uint16_t(v.size()));
    b.insert(b.end(), h.begin(), h.end());
    b.insert(b.end(), l.begin(), l.end());
    b.insert(b.end(), v.begin(), v.end());
    while (b.size() % 4) { b.push_back(pad); }
}
static void set_len(Bytes& b, size_t len) {
    b[2] = uint8_t(len >> 8);
    b[3] = uint8_t(len);
}

Bytes encode(const Msg& m, const EncodeOpts& o) {
    Bytes b;
    const uint16_t type = uint16_t((m.method & 0xF) | (m.method & 0x70) << 1 | (m.method & 0xF80) << 2 | (m.cls & 1) << 4 | (m.cls & 2) << 7);
    Bytes h = u16(type);
    b = h;
    b.push_back(0);
    b.push_back(0);
    if (m.tid.size() == 12) {
        Bytes c = u32(COOKIE);
        b.insert(b.end(), c.begin(), c.end());
    }
    b.insert(b.end(), m.tid.begin(), m.tid.end());
    b.resize(20);
    for (auto& a : m.attrs) { put(b, a.type, a.value, o.pad); }
    if (o.mi_key) {
        set_len(b, b.size() + 24 - 20);
        Bytes d = hmac_sha1(*o.mi_key, b);
        if (o.bad_mi) { d[7] ^= 0x10; }
        put(b, MI, d, 0);
    }
    for (auto& a : o.after_mi) { put(b, a.type, a.value, o.pad); }
    if (o.fingerprint) {
        set_len(b, b.size() + 8 - 20);
        put(b, FINGERPRINT, u32(crc32(b.data(), b.size()) ^ 0x5354554Eu ^ o.fp_error), 0);
    }
    set_len(b, b.size() - 20);
    return b;
}

void refinger(Bytes& b) {
    if (b.size() < 20) { return; }
    set_len(b, b.size() - 20);
    if (b.size() >= 28 && rd16(b, b.size() - 8) == FINGERPRINT && rd16(b, b.size() - 6) == 4) {
        Bytes f = u32(crc32(b.data(), b.size() - 8) ^ 0x5354554Eu);
        std::copy(f.begin(), f.end(), b.end() - 4);
    }
}

Bytes enc_addr(const Addr& a) {
    Bytes b = {0, uint8_t(a.ip.size() == 4 ? 1 : 2), uint8_t(a.port >> 8), uint8_t(a.port)};
    b.insert(b.end(), a.ip.begin(), a.ip.end());
    return b;
}
Bytes enc_xor_addr(const Addr& a, const Bytes& tid) { return enc_addr(xored(a, tid)); }
Bytes enc_error(unsigned code, const std::string& reason, uint32_t reserved) {
    Bytes b = u32((reserved & 0x1FFFFF) << 11 | (code / 100) << 8 | (code % 100));
    b.insert(b.end(), reason.begin(), reason.end());
    return b;
}

}
