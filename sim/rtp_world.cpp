// RTP senders, a hostile network and a receiver that runs the real
// rtp::Packet::parse / rtp::PayloadMap, compared packet by packet with an
// independent reader and with what the sender meant.
#include "core.hpp"
#include "counters.hpp"

#include <algorithm>
#include <memory>
#include <optional>
#include <utility>

#include "rtp/rtp_packet.hpp"
#include "rtp/rtp_payload_map.hpp"

namespace rw {

namespace fw = freewebrtc;
namespace rtp = freewebrtc::rtp;
using sim::Bytes;
using sim::Choices;
using sim::Run;
using sim::strf;

// What a packet says
struct Ref {
    bool marker = false;
    uint8_t pt = 0;
    uint16_t seq = 0;
    uint32_t ts = 0, ssrc = 0;
    std::vector<uint32_t> csrc;
    bool ext = false;
    uint16_t profile = 0;
    size_t ext_off = 0, ext_len = 0;
    size_t pl_off = 0, pl_len = 0;
    size_t pad = 0;
};
struct Reading {
    enum V { Accept, Reject, Unspecified } v = Reject;
    const char *why = "";
    Ref r;
};

// RFC 3550, section 5.1
Reading read(const Bytes& b, const std::map<uint8_t, unsigned>& table) {
    Reading x;
    auto no = [&](const char *w) { x.v = Reading::Reject; x.why = w; return x; };
    const size_t n = b.size();
    auto u16 = [&](size_t o) { return unsigned(b[o]) * 256 + b[o + 1]; };
    auto u32 = [&](size_t o) { return uint32_t(u16(o)) * 65536u + uint32_t(u16(o + 2)); };
    if (n < 12) { return no("short"); }
    if (b[0] / 64 != 2) { return no("version"); }
    const bool pad = b[0] / 32 % 2, ext = b[0] / 16 % 2;
    const size_t cc = b[0] % 16;
    x.r.marker = b[1] >= 128;
    x.r.pt = b[1] % 128;
    x.r.seq = uint16_t(u16(2));
    x.r.ts = u32(4);
    x.r.ssrc = u32(8);
    size_t o = 12 + 4 * cc;
    if (o > n) { return no("csrc"); }
    for (size_t i = 0; i < cc; ++i) { x.r.csrc.push_back(u32(12 + 4 * i)); }
    if (!table.count(x.r.pt)) { return no("payload type"); }
    if (ext) {
        if (n - o < 4) { return no("extension header"); }
        x.r.ext = true;
        x.r.profile = uint16_t(u16(o));
        x.r.ext_len = size_t(u16(o + 2)) * 4;
        x.r.ext_off = o + 4;
        if (n - x.r.ext_off < x.r.ext_len) { return no("extension length"); }
        o = x.r.ext_off + x.r.ext_len;
    }
    x.r.pl_off = o;
    x.r.pl_len = n - o;
    if (pad) {
        if (n == o) { return no("padding missing"); }
        x.r.pad = b[n - 1];
        if (x.r.pad > n - o) { return no("padding count"); }
        if (x.r.pad == 0) { x.v = Reading::Unspecified; x.why = "padding count zero"; x.r.pl_len = n - o; return x; }
        x.r.pl_len = n - o - x.r.pad;
    }
    x.v = Reading::Accept;
    return x;
}

struct Sent {
    Ref r;
    Bytes bytes;
};

struct Sender {
    uint32_t ssrc, ts;
    uint16_t seq;
    uint8_t pt;
    unsigned clock;
};

struct Wire {
    Bytes b;
    bool intact = true;
    Sent what;
};

template<size_t N, size_t... I>
rtp::PayloadMap make_map(const std::vector<rtp::PayloadMap::InitPair>& v, std::index_sequence<I...>) {
    return rtp::PayloadMap(std::initializer_list<rtp::PayloadMap::InitPair>{v[I]...});
}
template<size_t N>
rtp::PayloadMap map_n(const std::vector<rtp::PayloadMap::InitPair>& v) { return make_map<N>(v, std::make_index_sequence<N>{}); }

struct Receiver {
    std::map<uint8_t, unsigned> table;
    std::unique_ptr<rtp::PayloadMap> map;
};

class World {
public:
    explicit World(Run& r) : r(r), ch(r.ch) {}
    void run();
private:
    Run& r;
    Choices& ch;
    Receiver rx;
    rtp::ParseStat stat;
    uint64_t parsed = 0;
    std::vector<Sender> senders;
    std::multimap<std::pair<int64_t, uint64_t>, Wire> q;
    uint64_t seq = 0;
    Bytes last;
    uint32_t fault_pct = 0;

    void setup_receiver();
    Sent make(Sender&);
    void send(Sender&);
    void deliver(const Wire&);
    void check_table();
    static uint64_t reasons(const rtp::ParseStat&);
};

void World::setup_receiver() {
    rx.table.clear();
    const size_t n = ch.of<size_t>({3, 1, 0, 2, 5, 9, 24, 64, 128});
    std::vector<rtp::PayloadMap::InitPair> init;
    while (init.size() < n) {
        uint8_t pt = n == 128 ? uint8_t(init.size()) : uint8_t(ch.chance(1, 3) ? ch.of<int>({0, 127, 96, 1, 126, 63, 64}) : ch.pick(128));
        while (rx.table.count(pt)) { pt = uint8_t((pt + 1) % 128); }
        const unsigned clk = ch.of<unsigned>({8000, 90000, 48000, 16000, 1, 4294967295u, 44100});
        rx.table[pt] = clk;
        init.emplace_back(rtp::PayloadType::from_uint8(pt).unwrap(), rtp::PayloadMapItem{rtp::ClockRate(clk)});
    }
    switch (n) {
    case 0: rx.map = std::make_unique<rtp::PayloadMap>(map_n<0>(init)); break;
    case 1: rx.map = std::make_unique<rtp::PayloadMap>(map_n<1>(init)); break;
    case 2: rx.map = std::make_unique<rtp::PayloadMap>(map_n<2>(init)); break;
    case 3: rx.map = std::make_unique<rtp::PayloadMap>(map_n<3>(init)); break;
    case 5: rx.map = std::make_unique<rtp::PayloadMap>(map_n<5>(init)); break;
    case 9: rx.map = std::make_unique<rtp::PayloadMap>(map_n<9>(init)); break;
    case 24: rx.map = std::make_unique<rtp::PayloadMap>(map_n<24>(init)); break;
    case 64: rx.map = std::make_unique<rtp::PayloadMap>(map_n<64>(init)); break;
    default: rx.map = std::make_unique<rtp::PayloadMap>(map_n<128>(init)); break;
    }
    r.log("receiver with %zu payload types", n);
    check_table();
}

void World::check_table() {
    r.eval("R01");
    for (unsigned v = 0; v < 256; ++v) {
        auto pt = rtp::PayloadType::from_uint8(uint8_t(v));
        if (pt.is_some() != (v < 128)) { r.violate({"R01"}, "payload-type-range", strf("payload type %u is %s", v, pt.is_some() ? "accepted" : "refused")); continue; }
        if (v >= 128) { continue; }
        if (pt.unwrap().value() != v) { r.violate({"R01"}, "payload-type-value", strf("payload type %u reads as %u", v, pt.unwrap().value())); }
        auto c = rx.map->rtp_clock_rate(pt.unwrap());
        auto it = rx.table.find(uint8_t(v));
        if (c.is_some() != (it != rx.table.end())) { r.violate({"R01"}, "payload-map-membership", strf("payload type %u is %sregistered", v, c.is_some() ? "" : "not ")); continue; }
        if (c.is_some() && c.unwrap().count() != it->second) { r.violate({"R01"}, "payload-map-clock", strf("payload type %u has clock %u, registered %u", v, c.unwrap().count(), it->second)); }
    }
}

Sent World::make(Sender& s) {
    Sent w;
    Ref& p = w.r;
    Bytes& b = w.bytes;
    auto u16 = [&](unsigned v) { b.push_back(uint8_t(v >> 8)); b.push_back(uint8_t(v)); };
    auto u32 = [&](uint32_t v) { u16(v >> 16); u16(v & 0xFFFF); };
    p.marker = ch.chance(1, 3);
    p.pt = ch.chance(1, 10) ? uint8_t(ch.pick(128)) : s.pt;
    p.seq = s.seq++;
    p.ts = s.ts;
    s.ts += ch.of<uint32_t>({160, 3000, 1, 0, 0x80000000u});
    p.ssrc = s.ssrc;
    const uint32_t cc = ch.chance(1, 3) ? ch.pick(16) : 0;
    for (uint32_t i = 0; i < cc; ++i) { p.csrc.push_back(ch.chance(1, 4) ? senders[ch.pick(uint32_t(senders.size()))].ssrc : ch.u32()); }
    p.ext = ch.chance(1, 3);
    const uint32_t words = p.ext ? ch.of<uint32_t>({1, 0, 2, 3, 16}) : 0;
    const bool pad = ch.chance(1, 3);
    p.pl_len = ch.chance(1, 6) ? ch.of<uint32_t>({0, 1, 255, 256, 1200}) : ch.pick(40);
    p.pad = pad ? (ch.chance(1, 4) ? ch.of<uint32_t>({1, 2, 4, 254, 255}) : ch.range(1, 16)) : 0;
    b.push_back(uint8_t(0x80 | (pad ? 0x20 : 0) | (p.ext ? 0x10 : 0) | cc));
    b.push_back(uint8_t((p.marker ? 0x80 : 0) | p.pt));
    u16(p.seq); u32(p.ts); u32(p.ssrc);
    for (auto c : p.csrc) { u32(c); }
    if (p.ext) {
        p.profile = uint16_t(ch.chance(1, 2) ? 0xBEDE : ch.pick(65536));
        u16(p.profile); u16(words);
        p.ext_off = b.size();
        p.ext_len = words * 4;
        auto e = ch.bulk(p.ext_len);
        b.insert(b.end(), e.begin(), e.end());
    }
    p.pl_off = b.size();
    auto d = ch.bulk(p.pl_len);
    b.insert(b.end(), d.begin(), d.end());
    if (pad) {
        auto z = ch.bulk(p.pad);
        z.back() = uint8_t(p.pad);
        b.insert(b.end(), z.begin(), z.end());
    }
    return w;
}

void World::send(Sender& s) {
    Wire w;
    w.what = make(s);
    w.b = w.what.bytes;
    int64_t delay = 1000;
    if (ch.chance(fault_pct, 100)) {
        r.fault("loss");
        r.log("packet %u of %08x lost", w.what.r.seq, s.ssrc);
        r.step(1);
        return;
    }
    if (ch.chance(fault_pct, 100)) { delay += int64_t(ch.pick(80000)); r.fault("reorder-delay"); }
    const unsigned copies = ch.chance(fault_pct, 200) ? 2 : 1;
    if (copies == 2) { r.fault("duplicate"); }
    for (unsigned k = 0; k < copies; ++k) {
        Wire c = w;
        if (ch.chance(fault_pct, 60)) {
            c.intact = false;
            Bytes& b = c.b;
            switch (ch.pick(8)) {
            case 0: b.resize(ch.pick(uint32_t(b.size()) + 1)); r.fault("truncate"); break;
            case 1: b.resize(ch.pick(std::min<uint32_t>(uint32_t(b.size()), 40) + 1)); r.fault("truncate-header"); break;
            case 2: { uint32_t i = ch.pick(uint32_t(b.size())); b[i] = uint8_t(b[i] ^ (1u << ch.pick(8))); r.fault("corrupt-bit"); break; }
            case 3: { uint32_t i = ch.pick(std::min<uint32_t>(uint32_t(b.size()), 20)); b[i] = ch.byte(); r.fault("corrupt-header"); break; }
            case 4: b[0] = uint8_t((b[0] & 0xF0) | ch.pick(16)); r.fault("corrupt-cc"); break;
            case 5: b.back() = ch.of<uint8_t>({0, 255, 1, 200}); b[0] |= 0x20; r.fault("corrupt-padding"); break;
            case 6: { auto x = ch.bulk(ch.range(1, 30)); b.insert(b.end(), x.begin(), x.end()); r.fault("extend"); break; }
            default:
                if (!last.empty()) { const uint32_t cut = ch.pick(uint32_t(std::min(b.size(), last.size())) + 1); std::copy(last.begin(), last.begin() + cut, b.begin()); r.fault("splice"); }
                else { r.fault("corrupt-extension"); b[0] |= 0x10; }
                break;
            }
        }
        q.emplace(std::make_pair(r.now + delay + int64_t(k) * 700, seq++), std::move(c));
    }
    last = w.b;
}

uint64_t World::reasons(const rtp::ParseStat& s) { return sim::sum_counters(s, {&s.success, &s.error}); }

void World::deliver(const Wire& w) {
    auto copy = std::make_unique<uint8_t[]>(w.b.size());  // exact: any access outside is caught
    std::copy(w.b.begin(), w.b.end(), copy.get());
    const fw::util::ConstBinaryView v(copy.get(), w.b.size());
    const auto ref = read(w.b, rx.table);
    const auto s0 = stat.success.count(), e0 = stat.error.count();
    const auto r0 = reasons(stat);
    const uint64_t work0 = sim::heap_bytes();
    auto res = rtp::Packet::parse(v, *rx.map, stat);
    r.work("parsing", v.size(), work0);
    parsed++;
    const unsigned ds = stat.success.count() - s0, de = stat.error.count() - e0;
    const uint64_t dr = sim::counters_only<rtp::ParseStat> ? reasons(stat) - r0 : uint64_t(de);
    r.log("%zu bytes (%s%s) -> %s", w.b.size(), w.intact ? "intact" : "damaged", ref.v == Reading::Accept ? "" : (std::string(", ") + ref.why).c_str(), res.is_ok() ? "packet" : "error");
    r.step(uint32_t(sim::fnv(ref.why, strlen(ref.why)) ^ (ref.r.csrc.size() << 3) ^ (ref.r.ext ? 2 : 0) ^ (ref.r.pad ? 1 : 0)));
    r.eval("R01"); r.eval("W03"); r.eval("W04");
    r.probe(ref.v == Reading::Accept ? "accept" : ref.v == Reading::Reject ? (std::string("reject-") + ref.why).c_str() : "unspecified");
    const std::string hx = sim::hex(w.b, 120);
    if (res.is_ok() ? !(ds == 1 && de == 0 && dr == 0) : !(ds == 0 && de == 1 && dr == 1)) {
        r.violate({"W04"}, res.is_ok() ? "success-miscounted" : "error-miscounted",
                  strf("RTP packet that is %s counted as %u successes, %u errors with %" PRIu64 " reasons: ", res.is_ok() ? "accepted" : "rejected", ds, de, dr) + hx);
    }
    if (uint64_t(stat.success.count()) + stat.error.count() != parsed) {
        r.violate({"W04"}, "totals", strf("%u successes and %u errors for %" PRIu64 " packets", stat.success.count(), stat.error.count(), parsed));
        parsed = uint64_t(stat.success.count()) + stat.error.count();
    }
    if (ref.v == Reading::Unspecified) { return; }
    if (ref.v == Reading::Reject) {
        if (res.is_ok()) { r.violate({"R01"}, "accepts-malformed", std::string("packet accepted although its ") + ref.why + " does not fit: " + hx); }
        return;
    }
    if (res.is_err()) { r.violate({"R01"}, "rejects-wellformed", "well-formed packet rejected: " + hx); return; }
    const auto pk = res.unwrap();
    const auto& h = pk.header;
    auto diff = [&](const char *f, uint64_t got, uint64_t want) {
        if (got != want) { r.violate({"R01"}, f, strf("%s is %" PRIu64 ", the packet says %" PRIu64 ": ", f, got, want) + hx); }
    };
    const Ref& x = ref.r;
    diff("marker", bool(h.marker), x.marker);
    diff("payload-type", h.payload_type.value(), x.pt);
    diff("sequence-number", h.sequence.value(), x.seq);
    diff("timestamp", h.timestamp.value(), x.ts);
    diff("ssrc", h.ssrc.value(), x.ssrc);
    diff("csrc-count", h.csrcs.size(), x.csrc.size());
    for (size_t i = 0; i < h.csrcs.size() && i < x.csrc.size(); ++i) { diff("csrc", h.csrcs[i].value(), x.csrc[i]); }
    diff("extension-present", h.maybe_extension.is_some(), x.ext);
    if (x.ext && h.maybe_extension.is_some()) {
        const auto& e = h.maybe_extension.unwrap();
        diff("extension-profile", e.profile_defined, x.profile);
        diff("extension-offset", e.data.offset, x.ext_off);
        diff("extension-length", e.data.count, x.ext_len);
    }
    diff("payload-offset", pk.payload.offset, x.pl_off);
    diff("payload-length", pk.payload.count, x.pl_len);
    if (!w.intact) { return; }
    // and it is what the sender meant
    r.probe("intact-compared-with-sender");
    const Ref& m = w.what.r;
    diff("sent-marker", bool(h.marker), m.marker);
    diff("sent-sequence-number", h.sequence.value(), m.seq);
    diff("sent-timestamp", h.timestamp.value(), m.ts);
    diff("sent-ssrc", h.ssrc.value(), m.ssrc);
    diff("sent-payload-length", pk.payload.count, m.pl_len);
    diff("sent-payload-offset", pk.payload.offset, m.pl_off);
}

void World::run() {
    fault_pct = ch.of<uint32_t>({0, 5, 15, 35});
    setup_receiver();
    const uint32_t ns = ch.range(1, 3);
    for (uint32_t i = 0; i < ns; ++i) {
        Sender s;
        s.ssrc = ch.chance(1, 4) ? ch.of<uint32_t>({0, 0xFFFFFFFFu, 0x80000000u}) : ch.u32();
        s.ts = ch.chance(1, 3) ? 0xFFFFFFF0u : ch.u32();
        s.seq = uint16_t(ch.chance(1, 3) ? 0xFFF8 : ch.pick(65536));
        if (!rx.table.empty() && !ch.chance(1, 8)) {
            auto it = rx.table.begin();
            std::advance(it, ch.pick(uint32_t(rx.table.size())));
            s.pt = it->first;
        } else { s.pt = uint8_t(ch.pick(128)); }
        senders.push_back(s);
    }
    const uint32_t n = ch.range(3, 40);
    auto drain = [&](int64_t until) {
        while (!q.empty() && q.begin()->first.first <= until) {
            auto it = q.begin();
            r.now = std::max(r.now, it->first.first);
            Wire w = std::move(it->second);
            q.erase(it);
            deliver(w);
        }
    };
    for (uint32_t i = 0; i < n; ++i) {
        send(senders[ch.pick(uint32_t(senders.size()))]);
        if (ch.chance(1, 12)) {  // not RTP at all
            Wire w;
            w.intact = false;
            w.b = ch.bulk(ch.pick(60));
            if (!w.b.empty() && ch.chance(1, 2)) { w.b[0] = uint8_t(0x80 | (w.b[0] & 0x3F)); }
            r.fault("noise");
            q.emplace(std::make_pair(r.now + 500, seq++), std::move(w));
        }
        if (ch.chance(1, 15)) { setup_receiver(); r.fault("receiver-restart"); }
        const int64_t t = r.now + int64_t(ch.pick(20000));
        drain(t);
        r.now = std::max(r.now, t);
    }
    drain(INT64_MAX);
    r.state(sim::mix(stat.success.count(), stat.error.count()));
    r.log("%u accepted, %u rejected", stat.success.count(), stat.error.count());
}

}

int main(int argc, char **argv) {
    return sim::sim_main(argc, argv, [](sim::Run& r) { rw::World(r).run(); });
}
