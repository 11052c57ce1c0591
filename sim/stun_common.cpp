#include "stun_common.hpp"

namespace ws {

fw::net::ip::Address to_ip(const Bytes& ip) {
    if (ip.size() == 4) {
        fw::net::ip::AddressV4::Value v;
        std::copy(ip.begin(), ip.end(), v.begin());
        return fw::net::ip::Address(fw::net::ip::AddressV4(std::move(v)));
    }
    fw::net::ip::AddressV6::Value v;
    std::copy(ip.begin(), ip.end(), v.begin());
    return fw::net::ip::Address(fw::net::ip::AddressV6(std::move(v)));
}

static std::string type_list(const std::vector<stun::AttributeType>& v) {
    std::string s;
    for (auto& t : v) { s += sim::strf("%04x ", t.value()); }
    return s;
}
static std::string type_list(const std::vector<uint16_t>& v) {
    std::string s;
    for (auto t : v) { s += sim::strf("%04x ", t); }
    return s;
}

std::string diff_message(const stun::Message& m, const ref::Msg& r) {
    using sim::strf;
    static const stun::Class cls[4] = {stun::Class::request(), stun::Class::indication(), stun::Class::success_response(), stun::Class::error_response()};
    if (!(m.header.cls == cls[r.cls])) { return strf("class differs, expected %u", r.cls); }
    ref::Msg mm;
    const uint16_t mt = uint16_t((r.method & 0xF) | (r.method & 0x70) << 1 | (r.method & 0xF80) << 2);
    if (m.header.method.to_msg_type() != mt) { return strf("method differs, expected %u", r.method); }
    if (to_bytes(m.header.transaction_id.view()) != r.tid) { return "transaction id differs"; }
    if (bool(m.is_rfc3489) != r.rfc3489) { return "RFC 3489 flag differs"; }
    const auto& s = m.attribute_set;
    auto presence = [&](const char *n, bool got, bool want) -> std::string {
        return got == want ? "" : strf("%s %s, but %s", n, got ? "reported" : "not reported", want ? "present" : "absent");
    };
    std::string d;
    auto *mi = r.find(ref::MI);
    if (d = presence("MESSAGE-INTEGRITY", s.integrity().is_some(), mi != nullptr); !d.empty()) { return d; }
    if (mi && to_bytes(s.integrity().unwrap().get().value.view()) != mi->value) { return "MESSAGE-INTEGRITY value differs"; }
    auto un = r.username();
    if (d = presence("USERNAME", s.username().is_some(), un.has_value()); !d.empty()) { return d; }
    if (un && s.username().unwrap().get().value != *un) { return "USERNAME differs"; }
    auto *sw = r.find(ref::SOFTWARE);
    if (d = presence("SOFTWARE", s.software().is_some(), sw != nullptr); !d.empty()) { return d; }
    if (sw && s.software().unwrap().get() != std::string(sw->value.begin(), sw->value.end())) { return "SOFTWARE differs"; }
    if (!r.rfc3489) {
        auto xm = r.xor_mapped();
        if (d = presence("XOR-MAPPED-ADDRESS", s.xor_mapped().is_some(), xm.has_value()); !d.empty()) { return d; }
        if (xm) {
            auto& a = s.xor_mapped().unwrap().get();
            auto got = from_ep(a.addr.to_address(m.header.transaction_id), a.port);
            if (!(got == *xm)) { return "XOR-MAPPED-ADDRESS " + got.str() + " expected " + xm->str(); }
        }
    }
    auto ma = r.mapped();
    if (d = presence("MAPPED-ADDRESS", s.mapped().is_some(), ma.has_value()); !d.empty()) { return d; }
    if (ma) {
        auto& a = s.mapped().unwrap().get();
        auto got = from_ep(a.addr, a.port);
        if (!(got == *ma)) { return "MAPPED-ADDRESS " + got.str() + " expected " + ma->str(); }
    }
    auto al = r.alt_server();
    if (d = presence("ALTERNATE-SERVER", s.alternate_server().is_some(), al.has_value()); !d.empty()) { return d; }
    if (al) {
        auto& a = s.alternate_server().unwrap().get();
        auto got = from_ep(a.addr, a.port);
        if (!(got == *al)) { return "ALTERNATE-SERVER " + got.str() + " expected " + al->str(); }
    }
    auto be = [](const Bytes& b, size_t n) { uint64_t v = 0; for (size_t i = 0; i < n; ++i) { v = v << 8 | b[i]; } return v; };
    auto *pr = r.find(ref::PRIORITY);
    if (d = presence("PRIORITY", s.priority().is_some(), pr != nullptr); !d.empty()) { return d; }
    if (pr && s.priority().unwrap().get() != be(pr->value, 4)) { return "PRIORITY differs"; }
    auto *ig = r.find(ref::ICE_CONTROLLING);
    if (d = presence("ICE-CONTROLLING", s.ice_controlling().is_some(), ig != nullptr); !d.empty()) { return d; }
    if (ig && s.ice_controlling().unwrap().get() != be(ig->value, 8)) { return "ICE-CONTROLLING differs"; }
    auto *ic = r.find(ref::ICE_CONTROLLED);
    if (d = presence("ICE-CONTROLLED", s.ice_controlled().is_some(), ic != nullptr); !d.empty()) { return d; }
    if (ic && s.ice_controlled().unwrap().get() != be(ic->value, 8)) { return "ICE-CONTROLLED differs"; }
    if (d = presence("USE-CANDIDATE", s.has_use_candidate(), r.find(ref::USE_CANDIDATE) != nullptr); !d.empty()) { return d; }
    if (d = presence("FINGERPRINT", s.has_fingerprint(), r.has_fp); !d.empty()) { return d; }
    auto er = r.error();
    if (d = presence("ERROR-CODE", s.error_code().is_some(), er.has_value()); !d.empty()) { return d; }
    if (er) {
        auto& e = s.error_code().unwrap().get();
        if (e.code != er->first) { return strf("ERROR-CODE %u expected %u", e.code, er->first); }
        std::string ph = e.reason_phrase.is_some() ? e.reason_phrase.unwrap() : std::string();
        if (ph != er->second) { return "reason phrase differs"; }
    }
    auto ua = r.unknown_attrs();
    if (d = presence("UNKNOWN-ATTRIBUTES", s.unknown_attributes().is_some(), ua.has_value()); !d.empty()) { return d; }
    if (ua && type_list(s.unknown_attributes().unwrap().get().types) != type_list(*ua)) { return "UNKNOWN-ATTRIBUTES differs"; }
    if (type_list(s.unknown_comprehension_required()) != type_list(r.unknown_required())) {
        return "unknown comprehension-required: " + type_list(s.unknown_comprehension_required()) + "expected " + type_list(r.unknown_required());
    }
    return "";
}

fw::crypto::SHA1Hash::Func HashProvider::func() {
    return [this](const fw::crypto::SHA1Hash::Input& in) -> fw::crypto::SHA1Hash::Result {
        calls++;
        if (fail_at > 0 && --fail_at == 0) {
            triggered = true;
            return std::make_error_code(std::errc::io_error);
        }
        return fw::crypto::openssl::sha1(in);
    };
}

RawMsg RawMsg::split(const Bytes& b) {
    RawMsg m;
    m.head.assign(b.begin(), b.begin() + std::min<long>(20, long(b.size())));
    m.head.resize(20);
    size_t o = 20;
    while (o + 4 <= b.size()) {
        size_t len = size_t(b[o + 2]) << 8 | b[o + 3];
        size_t end = std::min(b.size(), o + 4 + (len + 3) / 4 * 4);
        m.attrs.emplace_back(b.begin() + long(o), b.begin() + long(end));
        o = end;
    }
    return m;
}
Bytes RawMsg::join() const {
    Bytes b = head;
    for (auto& a : attrs) { b.insert(b.end(), a.begin(), a.end()); }
    size_t len = b.size() - 20;
    b[2] = uint8_t(len >> 8);
    b[3] = uint8_t(len);
    return b;
}

Addr gen_addr(Choices& ch, int v6) {
    Addr a;
    bool six = v6 == 2 ? ch.chance(1, 3) : v6 == 1;
    switch (ch.pick(4)) {
    case 0: a.ip = six ? Bytes{0x20, 1, 0x0d, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, ch.byte()} : Bytes{10, 0, 0, ch.byte()}; break;
    case 1: a.ip = ch.bytes(six ? 16 : 4); break;
    case 2: a.ip = Bytes(six ? 16 : 4, ch.of<uint8_t>({0, 255, 0x21, 0x12})); break;
    default:
        a.ip = six ? Bytes{0x21, 0x12, 0xA4, 0x42, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0} : Bytes{0x21, 0x12, 0xA4, 0x42};
        a.ip.back() = uint8_t(a.ip.back() ^ ch.pick(3));
        break;
    }
    a.port = ch.pick(3) ? uint16_t(ch.pick(65536)) : uint16_t(ch.of<int>({3478, 0, 1, 65535, 0x2112, 255, 256, 50000}));
    return a;
}

// Resembles another: one host's next port, a host of the same network
Addr near_addr(Choices& ch, Addr a) {
    switch (ch.pick(4)) {
    case 0: { auto& b = a.ip[ch.pick(uint32_t(a.ip.size()))]; b = uint8_t(b ^ (1u << ch.pick(8))); break; }
    case 1: a.ip.back() = ch.byte(); break;
    case 2: a.port = uint16_t(a.port + ch.range(1, 3)); break;
    default: a.port = uint16_t(a.port ^ (1u << ch.pick(16))); break;
    }
    return a;
}

static std::string gen_str(Choices& ch, uint32_t maxlen) {
    uint32_t n = ch.pick(12);
    switch (ch.weighted({220, 20, 3, 1})) {
    case 1: n = ch.pick(maxlen + 1); break;
    case 2: n = ch.of<uint32_t>({255, 256, 257, 127, 128, 511, 512, 1023, 1024, 1500, 4095, 4097}); break;
    case 3: n = ch.of<uint32_t>({16383, 16384, 20001, 8191}); break;
    default: break;
    }
    Bytes b = n < 12 ? ch.bytes(n) : ch.bulk(n);
    return std::string(b.begin(), b.end());
}

ref::Attr gen_attr(Choices& ch, const Bytes& tid, bool allow_bad) {
    ref::Attr a{0, {}};
    auto str = [&](uint32_t max) { auto s = gen_str(ch, max); return Bytes(s.begin(), s.end()); };
    switch (ch.pick(13)) {
    case 0: a = {ref::SOFTWARE, str(763)}; break;
    case 1: a = {uint16_t(ch.of<int>({0x8030, 0x8023 + 0x100, 0xC001, 0xFFFF, 0x8000, 0xC057})), str(64)}; break;  // unknown optional
    case 2: a = {uint16_t(ch.of<int>({0x0030, 0x7FFF, 0x0014, 0x0015, 0x0002, 0x0024 + 0x4000, 0x0000, 0x0031})), str(64)}; break;  // unknown required
    case 3: a = {ref::MAPPED, ref::enc_addr(gen_addr(ch, 2))}; break;
    case 4: a = {ref::XOR_MAPPED, ref::enc_xor_addr(gen_addr(ch, 2), tid)}; break;
    case 5: a = {ref::ALT_SERVER, ref::enc_addr(gen_addr(ch, 2))}; break;
    case 6: a = {ref::PRIORITY, ref::u32(ch.u32())}; break;
    case 7: a = {ref::ICE_CONTROLLED, ref::u64(uint64_t(ch.u32()) << 32 | ch.u32())}; break;
    case 8: a = {ref::ICE_CONTROLLING, ref::u64(uint64_t(ch.u32()) << 32 | ch.u32())}; break;
    case 9: a = {ref::USE_CANDIDATE, {}}; break;
    case 10: {
        auto s = gen_str(ch, 100);
        a = {ref::ERRCODE, ref::enc_error(ch.range(3, 6) * 100 + ch.pick(100), s, ch.chance(1, 6) ? ch.u32() : 0)};
        break;
    }
    case 11: {
        Bytes v;
        const uint32_t n = ch.chance(1, 20) ? (ch.chance(1, 4) ? ch.range(200, 3000) : ch.range(5, 200)) : ch.pick(5);
        const Bytes more = ch.bulk(n > 4 ? 2 * n : 0);
        for (uint32_t i = 0; i < n; ++i) {
            auto t = n > 4 ? Bytes{more[2 * i], more[2 * i + 1]} : ref::u16(uint16_t(ch.pick(65536)));
            v.insert(v.end(), t.begin(), t.end());
        }
        if (allow_bad && n > 200 && ch.chance(1, 2)) { v.push_back(ch.byte()); }
        a = {ref::UNKNOWN_ATTRS, v};
        break;
    }
    default: a = {ref::USERNAME, str(513)}; break;
    }
    if (allow_bad && ch.chance(1, 6)) {
        // wrong size or content
        switch (ch.pick(4)) {
        case 0: a.value.resize(ch.pick(9)); break;
        case 1: a.value.push_back(ch.byte()); break;
        case 2: if (!a.value.empty()) { a.value[ch.pick(uint32_t(std::min<size_t>(4, a.value.size())))] = ch.byte(); } break;
        case 3: if (!a.value.empty()) { a.value.pop_back(); } break;
        }
    }
    return a;
}

void many_attrs(Choices& ch, ref::Msg& m) {
    const uint32_t n = ch.weighted({6, 3, 1}) == 0 ? ch.range(20, 200) : ch.chance(4, 5) ? ch.range(500, 2500) : ch.range(6000, 12000);
    const Bytes x = ch.bulk(3 * n);
    const uint32_t base = ch.of<uint32_t>({0x8030, 0x8030, 0x7000, 0xC000}), span = ch.of<uint32_t>({1, 200, 4000, 16});
    const uint32_t len = ch.of<uint32_t>({0, 1, 4, 0});
    size_t room = 60000;
    for (auto& a : m.attrs) { room -= std::min(room, a.value.size() + 8); }
    for (uint32_t i = 0; i < n && room > 16; ++i) {
        ref::Attr a{uint16_t(base + (uint32_t(x[3 * i]) << 8 | x[3 * i + 1]) % span), Bytes(len, x[3 * i + 2])};
        if (ref::is_known(a.type)) { a.type = 0x8040; }
        room -= 4 + (len + 3) / 4 * 4;
        m.attrs.push_back(std::move(a));
    }
}
size_t wire_size(const ref::Msg& m) {
    size_t n = 20;
    for (auto& a : m.attrs) { n += 4 + (a.value.size() + 3) / 4 * 4; }
    return n;
}

const char *damage(Choices& ch, Bytes& b, const std::vector<Bytes>& cap, int kind) {
    auto at = [&] { return ch.pick(uint32_t(b.size())); };
    switch (kind) {
    case 0: {  // bit errors
        if (b.empty()) { return "corrupt"; }
        uint32_t n = ch.range(1, 3);
        for (uint32_t i = 0; i < n; ++i) { uint32_t p = at(); b[p] = uint8_t(b[p] ^ (1u << ch.pick(8))); }
        return "corrupt-bits";
    }
    case 1:
        if (b.empty()) { return "corrupt"; }
        b[at()] = ch.byte();
        return "corrupt-byte";
    case 2:
        b.resize(ch.pick(uint32_t(b.size()) + 1));
        if (ch.chance(1, 3)) { b.resize(b.size() & ~size_t(3)); }
        if (b.size() >= 20 && ch.chance(1, 3)) { size_t l = b.size() - 20; b[2] = uint8_t(l >> 8); b[3] = uint8_t(l); }
        return "truncate";
    case 3: {
        uint32_t n = ch.range(1, 12);
        if (ch.chance(1, 2)) { n = (n + 3) / 4 * 4; }
        Bytes x = ch.bytes(n);
        b.insert(b.end(), x.begin(), x.end());
        if (b.size() >= 20 && ch.chance(1, 2)) { size_t l = b.size() - 20; b[2] = uint8_t(l >> 8); b[3] = uint8_t(l); }
        return "extend";
    }
    case 4: {
        if (cap.empty() || b.size() < 4) { return "splice"; }
        const Bytes& o = cap[ch.pick(uint32_t(cap.size()))];
        if (ch.chance(1, 2)) {
            // attribute-wise: our head, some of their attributes
            RawMsg m = RawMsg::split(b), q = RawMsg::split(o);
            size_t keep = ch.pick(uint32_t(m.attrs.size()) + 1);
            m.attrs.resize(keep);
            size_t from = ch.pick(uint32_t(q.attrs.size()) + 1);
            for (; from < q.attrs.size(); ++from) { m.attrs.push_back(q.attrs[from]); }
            b = m.join();
            if (ch.chance(2, 3)) { ref::refinger(b); }
        } else {
            size_t cut = ch.pick(uint32_t(std::min(b.size(), o.size())) + 1);
            b.resize(cut);
            b.insert(b.end(), o.begin() + long(cut), o.end());
        }
        return "splice";
    }
    default: {  // structured tampering, usually with repaired length and fingerprint
        RawMsg m = RawMsg::split(b);
        Bytes tid(m.head.begin() + 8, m.head.end());
        auto mk = [&](const ref::Attr& a) {
            Bytes x = ref::u16(a.type), l = ref::u16(uint16_t(a.value.size()));
            x.insert(x.end(), l.begin(), l.end());
            x.insert(x.end(), a.value.begin(), a.value.end());
            x.resize((x.size() + 3) / 4 * 4);
            return x;
        };
        const uint32_t n = uint32_t(m.attrs.size());
        const char *what = "tamper";
        switch (ch.pick(11)) {
        case 0: m.attrs.insert(m.attrs.begin() + ch.pick(n + 1), mk(gen_attr(ch, tid, true))); what = "tamper-insert"; break;
        case 1: if (n) { m.attrs.erase(m.attrs.begin() + ch.pick(n)); } what = "tamper-drop"; break;
        case 2: if (n) { auto a = m.attrs[ch.pick(n)]; m.attrs.insert(m.attrs.begin() + ch.pick(n + 1), a); } what = "tamper-duplicate"; break;
        case 3: if (n > 1) { std::swap(m.attrs[ch.pick(n)], m.attrs[ch.pick(n)]); } what = "tamper-reorder"; break;
        case 4: if (n) { auto& a = m.attrs[ch.pick(n)]; a[ch.pick(uint32_t(a.size()))] = ch.byte(); } what = "tamper-value"; break;
        case 5: m.head[ch.pick(2)] = uint8_t(m.head[0] ^ (1u << ch.pick(8))); what = "tamper-type"; break;
        case 6: m.head[1] = uint8_t(m.head[1] ^ 0x10); if (ch.chance(1, 2)) { m.head[0] = uint8_t(m.head[0] ^ 1); } what = "tamper-class"; break;
        case 7: { uint32_t p = 4 + ch.pick(16); m.head[p] = uint8_t(m.head[p] ^ (1u << ch.pick(8))); what = "tamper-id"; break; }
        case 8: { // attribute right before the last (after MESSAGE-INTEGRITY, before FINGERPRINT)
            m.attrs.insert(m.attrs.end() - (n ? 1 : 0), mk(gen_attr(ch, tid, false)));
            what = "tamper-append";
            break;
        }
        case 9: {  // a fingerprint that is right but not the last attribute
            for (size_t i = m.attrs.size(); i-- > 0;) {
                if (m.attrs[i].size() >= 2 && m.attrs[i][0] == 0x80 && m.attrs[i][1] == 0x28) { m.attrs.erase(m.attrs.begin() + long(i)); }
            }
            const size_t pos = m.attrs.size() - ch.pick(uint32_t(std::min<size_t>(2, m.attrs.size())) + 1);
            m.attrs.insert(m.attrs.begin() + long(pos), mk({ref::FINGERPRINT, Bytes(4)}));
            if (pos + 1 == m.attrs.size() || ch.chance(1, 2)) {
                m.attrs.push_back(ch.chance(1, 2) ? mk({uint16_t(ch.of<int>({0x8025 + 0x100, 0x0025, 0xC057})), {}}) : mk(gen_attr(ch, tid, false)));
            }
            b = m.join();
            size_t o = 20;
            for (size_t i = 0; i < pos; ++i) { o += m.attrs[i].size(); }
            const Bytes f = ref::u32(ref::crc32(b.data(), o) ^ 0x5354554Eu);
            std::copy(f.begin(), f.end(), b.begin() + long(o) + 4);
            return "tamper-fingerprint-not-last";
        }
        default: {  // second digest
            Bytes x = ref::u16(ref::MI), l = ref::u16(20), v = ch.bulk(20);
            x.insert(x.end(), l.begin(), l.end());
            x.insert(x.end(), v.begin(), v.end());
            m.attrs.insert(m.attrs.begin() + ch.pick(n + 1), x);
            what = "tamper-digest";
            break;
        }
        }
        b = m.join();
        if (!ch.chance(1, 4)) { ref::refinger(b); }
        return what;
    }
    }
}

}
