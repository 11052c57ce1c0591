From 39cc510ef44b3f30b7e42869904811268ded133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 01/24] fix: copy the hashed HMAC key while the hash value is
 alive

Keys longer than the hash block were read from a destroyed temporary.
---
 src/crypto/crypto_hmac.hpp | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/crypto/crypto_hmac.hpp b/src/crypto/crypto_hmac.hpp
index afcb894..77c4483 100644
--- a/src/crypto/crypto_hmac.hpp
+++ b/src/crypto/crypto_hmac.hpp
@@ -67,21 +67,16 @@ template<uint8_t xorv>
 template<typename HashFunc>
 inline Result<PadKey<xorv>> PadKey<xorv>::from_key(const util::ConstBinaryView& view, HashFunc h)
 {
-    using ViewRV = Result<util::ConstBinaryView>;
-    return ViewRV(view)
-        .bind([&](auto&& v) -> ViewRV {
-            if (v.size() > B) {
-                // TODO: is result of v.view is valid after exit from this function?
-                return h({v}).fmap([](auto&& v) { return v.view(); });
-            } else {
-                return v;
-            }
-        })
-        .fmap([](auto&& v) {
-            Data data = {0};
-            std::copy(v.begin(), v.end(), data.begin());
-            return PadKey<xorv>(std::move(data));
-        });
+    const auto make_key = [](const util::ConstBinaryView& v) {
+        Data data = {0};
+        std::copy(v.begin(), v.end(), data.begin());
+        return PadKey<xorv>(std::move(data));
+    };
+    if (view.size() > B) {
+        // Hashed key must be copied while the hash value is still alive
+        return h({view}).fmap([&](auto&& v) { return make_key(v.view()); });
+    }
+    return make_key(view);
 }
 
 template<uint8_t xorv>
-- 
2.43.0


From 6629e38a13a38fc0758e16ffafddbf61fe017164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 02/24] fix: murmur64 must not read unaligned 64-bit words

The transaction identifier hash is fed datagram data and wrapped
addresses of any alignment.
---
 src/util/util_hash_murmur.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/util/util_hash_murmur.cpp b/src/util/util_hash_murmur.cpp
index 1b3e314..9de985d 100644
--- a/src/util/util_hash_murmur.cpp
+++ b/src/util/util_hash_murmur.cpp
@@ -6,6 +6,7 @@
 // Murmur hash implementation
 //
 
+#include <cstring>
 #include "util/util_hash_murmur.hpp"
 
 namespace freewebrtc::util::hash {
@@ -14,11 +15,13 @@ uint64_t murmur64(const ConstBinaryView& view, uint64_t seed) noexcept {
   const uint64_t m = 0xc6a4a7935bd1e995ULL;
   const int r = 47;
   uint64_t h = seed ^ (view.size() * m);
-  const uint64_t *data = (const uint64_t *)view.data();
-  const uint64_t *end = data + view.size() / sizeof(*data);
+  const uint8_t *data = view.data();
+  const uint8_t *end = data + (view.size() / sizeof(uint64_t)) * sizeof(uint64_t);
 
   while (data != end) {
-      uint64_t v = *data++;
+      uint64_t v;
+      std::memcpy(&v, data, sizeof(v)); // data may be unaligned
+      data += sizeof(v);
       v *= m;
       v ^= v >> r;
       v *= m;
@@ -27,7 +30,7 @@ uint64_t murmur64(const ConstBinaryView& view, uint64_t seed) noexcept {
       h *= m;
   }
 
-  const unsigned char * data2 = (const unsigned char*)data;
+  const unsigned char * data2 = data;
 
   switch (view.size() & 7) {
   case 7: h ^= uint64_t(data2[6]) << 48;
-- 
2.43.0


From f5ddc58b47ed53cfbea39bf702ba222772fc31c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 03/24] fix: write the address family of MAPPED-ADDRESS and
 ALTERNATE-SERVER

The family was shifted out of the word, so nobody could read the attribute.
---
 src/stun/stun_attribute.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stun/stun_attribute.cpp b/src/stun/stun_attribute.cpp
index 3788ec5..f86b028 100644
--- a/src/stun/stun_attribute.cpp
+++ b/src/stun/stun_attribute.cpp
@@ -121,7 +121,7 @@ util::ByteVec MappedAddressAttribute::build() const {
                     return std::make_pair(attr_registry::FAMILY_IPV6, a.view());
                 }
             }, addr.value());
-    const uint32_t first_word = util::host_to_network_u32(port.value() | (family >> 16));
+    const uint32_t first_word = util::host_to_network_u32(port.value() | (family << 16));
     return util::ConstBinaryView::concat({
             util::ConstBinaryView(&first_word, sizeof(first_word)),
             view
-- 
2.43.0


From e9103fab4892a431c4dac1c96b5f73f0abbf958f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 04/24] fix: count parse errors of too short mapped addresses

---
 src/stun/stun_attribute.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/stun/stun_attribute.cpp b/src/stun/stun_attribute.cpp
index f86b028..33085f0 100644
--- a/src/stun/stun_attribute.cpp
+++ b/src/stun/stun_attribute.cpp
@@ -80,6 +80,11 @@ Result<MappedAddressAttribute> MappedAddressAttribute::parse(const util::ConstBi
     auto family_rv = vv.read_u8(1).require();
     auto port_rv = vv.read_u16be(2)
         .require()
+        .bind_err([&](auto&& err) {
+            stat.error.inc();
+            stat.invalid_mapped_address.inc();
+            return err;
+        })
         .fmap(net::Port::from_uint16);
     const auto addr_view_rv = vv.subview(4).require();
     return combine(
-- 
2.43.0


From d786a8e157b810ba0672aa68cb79892cc89c0c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 05/24] fix: ignore the reserved bits of ERROR-CODE

---
 src/stun/stun_attribute.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stun/stun_attribute.cpp b/src/stun/stun_attribute.cpp
index 33085f0..35ec0d2 100644
--- a/src/stun/stun_attribute.cpp
+++ b/src/stun/stun_attribute.cpp
@@ -335,7 +335,7 @@ Result<ErrorCodeAttribute> ErrorCodeAttribute::parse(const util::ConstBinaryView
         })
         .fmap([&](uint32_t first_word) {
             return ErrorCodeAttribute{
-                .code = (first_word >> 8) * 100 + (first_word & 0xFF),
+                .code = ((first_word >> 8) & 0x7) * 100 + (first_word & 0xFF),
                 .reason_phrase = maybe_reason.fmap(
                     [](auto&& view) {
                         return std::string(view.begin(), view.end());
-- 
2.43.0


From b316095dd1d5837dd4d89785484939542a9f0320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 06/24] fix: reject datagrams whose two most significant bits
 are not zero

They are not STUN (RFC 5389, section 6) but were read, and answered, as STUN.
---
 src/stun/stun_error.cpp      | 1 +
 src/stun/stun_error.hpp      | 1 +
 src/stun/stun_message.cpp    | 7 +++++++
 src/stun/stun_parse_stat.hpp | 1 +
 4 files changed, 10 insertions(+)

diff --git a/src/stun/stun_error.cpp b/src/stun/stun_error.cpp
index 0f0e9c6..821d5a2 100644
--- a/src/stun/stun_error.cpp
+++ b/src/stun/stun_error.cpp
@@ -19,6 +19,7 @@ public:
         switch ((ParseError)code) {
         case ParseError::ok:                        return "success";
         case ParseError::invalid_message_size:      return "invalid message size";
+        case ParseError::invalid_message_type:      return "invalid message type";
         case ParseError::not_padded_attributes:     return "not padded attributes";
         case ParseError::invalid_message_len:       return "invalid message length";
         case ParseError::invalid_magic_cookie:      return "invalid magic cookie";
diff --git a/src/stun/stun_error.hpp b/src/stun/stun_error.hpp
index 2521942..6089285 100644
--- a/src/stun/stun_error.hpp
+++ b/src/stun/stun_error.hpp
@@ -15,6 +15,7 @@ namespace freewebrtc::stun {
 enum class ParseError {
     ok = 0,
     invalid_message_size,
+    invalid_message_type,
     not_padded_attributes,
     invalid_message_len,
     invalid_magic_cookie,
diff --git a/src/stun/stun_message.cpp b/src/stun/stun_message.cpp
index 237d54f..6a41a3b 100644
--- a/src/stun/stun_message.cpp
+++ b/src/stun/stun_message.cpp
@@ -62,6 +62,13 @@ Result<Message> Message::parse(const util::ConstBinaryView& vv, ParseStat& stat)
     const uint16_t msg_length = vv.assured_read_u16be(2);
     const uint32_t magic_cookie = vv.assured_read_u32be(4);
 
+    // The most significant 2 bits of every STUN message MUST be zeroes.
+    if ((msg_type & 0xC000) != 0) {
+        stat.error.inc();
+        stat.invalid_msg_type.inc();
+        return make_error_code(ParseError::invalid_message_type);
+    }
+
     // The message length MUST contain the size, in bytes, of the message
     // not including the 20-byte STUN header.  Since all STUN attributes are
     // padded to a multiple of 4 bytes, the last 2 bits of this field are
diff --git a/src/stun/stun_parse_stat.hpp b/src/stun/stun_parse_stat.hpp
index 7105cef..687e175 100644
--- a/src/stun/stun_parse_stat.hpp
+++ b/src/stun/stun_parse_stat.hpp
@@ -16,6 +16,7 @@ struct ParseStat {
     stat::Counter success;
     stat::Counter error;
     stat::Counter invalid_size;
+    stat::Counter invalid_msg_type;
     stat::Counter not_padded;
     stat::Counter message_length_error;
     stat::Counter magic_cookie_error;
-- 
2.43.0


From f6b155022f226f211e3a6442dbb855c716d642fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 07/24] fix: ignore a second MESSAGE-INTEGRITY attribute

As any other attribute after the first one. Its position was taken for
the end of the signed part while the digest of the first was compared.
---
 src/stun/stun_message.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stun/stun_message.cpp b/src/stun/stun_message.cpp
index 6a41a3b..88eb3f9 100644
--- a/src/stun/stun_message.cpp
+++ b/src/stun/stun_message.cpp
@@ -292,8 +292,10 @@ Result<ParseAttrsResult> parse_attrs(util::ConstBinaryView vv, size_t attr_offse
             // The text used as input to HMAC is the STUN message,
             // including the header, up to and including the attribute
             // preceding the MESSAGE-INTEGRITY attribute.
-            raw_attrs.emplace_back(raw_attr);
-            maybe_integrity_interval = util::ConstBinaryView::Interval{0, attr_offset};
+            if (!maybe_integrity_interval.is_some()) {
+                raw_attrs.emplace_back(raw_attr);
+                maybe_integrity_interval = util::ConstBinaryView::Interval{0, attr_offset};
+            } // Attributes that follow MESSAGE-INTEGRITY are ignored, see below.
             break;
         default:
             if (!maybe_integrity_interval.is_some()) {
-- 
2.43.0


From 54256e0ff3e5992496c5a1ab5c0d8fb6bf1ef991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 08/24] fix: max_rto is the maximum, not the minimum, of
 retransmission intervals

---
 src/stun/stun_client_udp.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index 47d70d2..dff414b 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -27,6 +27,7 @@ public:
     Duration last_timeout() const;
 private:
     std::pair<MaybeTimepoint, Duration> calc_next(Timepoint now) const noexcept;
+    Duration limited(Duration timeout) const noexcept;
     const Duration m_initial_rto;
     const Settings::RetransmitDefault m_settings;
     MaybeTimepoint m_maybe_next;
@@ -409,7 +410,7 @@ ClientUDP::RetransmitAlgo::RetransmitAlgo(Duration initial_rto, const Settings::
     : m_initial_rto(initial_rto)
     , m_settings(settings)
     , m_maybe_next(now.advance(initial_rto))
-    , m_last_timeout(initial_rto)
+    , m_last_timeout(limited(initial_rto))
 {}
 
 ClientUDP::MaybeTimepoint ClientUDP::RetransmitAlgo::init(Timepoint now) {
@@ -462,12 +463,16 @@ std::pair<ClientUDP::MaybeTimepoint, client_udp::Duration> ClientUDP::Retransmit
         ? m_initial_rto * m_settings.retransmission_multiplier
         : m_last_timeout * 2;
 
-    auto timeout = m_settings.max_rto
+    auto timeout = limited(current);
+    return std::make_pair(now.advance(timeout), timeout);
+}
+
+ClientUDP::Duration ClientUDP::RetransmitAlgo::limited(Duration timeout) const noexcept {
+    return m_settings.max_rto
         .fmap([&](auto&& settings_max_rto) {
-            return std::max(current, settings_max_rto);
+            return std::min(timeout, settings_max_rto);
         })
-        .value_or(current);
-    return std::make_pair(now.advance(timeout), timeout);
+        .value_or(timeout);
 }
 
 }
-- 
2.43.0


From ff6751bc84555123f44ac2de7a8535a7d224031d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 09/24] fix: wait Rm * RTO for the answer when the first
 request is the last one

---
 src/stun/stun_client_udp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index dff414b..33a00db 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -410,7 +410,9 @@ ClientUDP::RetransmitAlgo::RetransmitAlgo(Duration initial_rto, const Settings::
     : m_initial_rto(initial_rto)
     , m_settings(settings)
     , m_maybe_next(now.advance(initial_rto))
-    , m_last_timeout(limited(initial_rto))
+    , m_last_timeout(limited(settings.request_count == 1
+                             ? initial_rto * settings.retransmission_multiplier
+                             : initial_rto))
 {}
 
 ClientUDP::MaybeTimepoint ClientUDP::RetransmitAlgo::init(Timepoint now) {
-- 
2.43.0


From 277f39ec40f293dabafe33c4ea1fe13db3642499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 10/24] fix: a STUN client transaction has exactly one outcome

Between the decision and its delivery by next() a duplicated response, or
an expired timer, added more effects for the same transaction: a second
outcome, or data to send that was already freed.
---
 src/stun/stun_client_udp.cpp | 34 +++++++++++++++++++++-------------
 src/stun/stun_client_udp.hpp |  3 +++
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index 33a00db..66a7879 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -83,7 +83,7 @@ ClientUDP::Effect ClientUDP::next(Timepoint now) {
     while (!m_tid_timeline.empty() && !m_tid_timeline.top().first.is_after(now)) {
         Handle hnd = m_tid_timeline.top().second;
         m_tid_timeline.pop();
-        if (auto it = m_tmap.find(hnd); it != m_tmap.end()) {
+        if (auto it = m_tmap.find(hnd); it != m_tmap.end() && !it->second.finished) {
             auto& t = it->second;
             auto se = t.rtx_algo->next(now)
                 .fmap([&](auto&& next) -> Effect {
@@ -92,7 +92,10 @@ ClientUDP::Effect ClientUDP::next(Timepoint now) {
                     m_tid_timeline.emplace(std::make_pair(next, hnd));
                     return SendData{hnd, util::ConstBinaryView(t.msg_data)};
                 })
-                .value_or(TransactionFailed{hnd, TransactionFailed::Timeout{}});
+                .value_or_call([&]() -> Effect {
+                    t.finished = true;
+                    return TransactionFailed{hnd, TransactionFailed::Timeout{}};
+                });
             m_effects.emplace(std::move(se));
         } // When not found transaction were cleaned before.
     }
@@ -121,7 +124,7 @@ Result<ClientUDP::TransactionRef> ClientUDP::find_transaction(const TransactionI
     }
     auto hnd = i->second;
     auto j = m_tmap.find(hnd);
-    if (j == m_tmap.end()) {
+    if (j == m_tmap.end() || j->second.finished) {
         m_stat.transaction_not_found.inc();
         return make_error_code(ClientError::transaction_not_found);
     }
@@ -217,7 +220,7 @@ MaybeError ClientUDP::handle_success_response(Timepoint now, Transaction& t, Mes
     if (!ucr.empty()) {
         m_stat.unknown_attribute.inc();
         auto reason = TransactionFailed::UnknownComprehensionRequiredAttribute{std::move(ucr)};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
 
@@ -256,7 +259,7 @@ MaybeError ClientUDP::handle_success_response(Timepoint now, Transaction& t, Mes
                     return TransactionFailed{t.hnd, std::move(reason)};
                 });
         });
-    m_effects.emplace(effect);
+    finish(t, std::move(effect));
 
     return success();
 }
@@ -271,7 +274,7 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
     if (!ucr.empty()) {
         m_stat.unknown_attribute.inc();
         auto reason = TransactionFailed::UnknownComprehensionRequiredAttribute{std::move(ucr)};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
 
@@ -279,7 +282,7 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
     if (maybe_msg_error_code.is_none()) {
         m_stat.no_error_code.inc();
         auto reason = TransactionFailed::Error{make_error_code(ClientError::no_error_code_in_response)};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
     const auto& msg_error_code = maybe_msg_error_code.unwrap().get();
@@ -290,13 +293,13 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
         if (maybe_alt_srv.is_none()) {
             m_stat.no_alternate_server_attr.inc();
             auto reason = TransactionFailed::Error{make_error_code(ClientError::no_alternate_server_in_response)};
-            m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+            finish(t, TransactionFailed{t.hnd, std::move(reason)});
             return success();
         }
         const auto& alt_srv = maybe_alt_srv.unwrap().get();
         m_stat.try_alternate_responses.inc();
         auto reason = TransactionFailed::AlternateServer{{alt_srv.addr, alt_srv.port}};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
 
@@ -310,7 +313,7 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
         // Alternate server is checked above.
         m_stat.response_3xx.inc();
         auto reason = TransactionFailed::ErrorCode{msg_error_code};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
     case 4: {
@@ -323,12 +326,12 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
             const auto& maybe_ua = msg.attribute_set.unknown_attributes();
             if (maybe_ua.is_some()) {
                 auto reason = TransactionFailed::UnknownAttributeReported{maybe_ua.unwrap().get().types};
-                m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+                finish(t, TransactionFailed{t.hnd, std::move(reason)});
                 return success();
             }
         }
         auto reason = TransactionFailed::ErrorCode{msg_error_code};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
     case 5: {
@@ -341,7 +344,7 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
             return success();
         case RetransmitAlgo::Process5xxResult::TransactionFailed: {
             auto reason = TransactionFailed::ErrorCode{msg_error_code};
-            m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+            finish(t, TransactionFailed{t.hnd, std::move(reason)});
             return success();
         }
         }
@@ -352,6 +355,11 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
     return success();
 }
 
+void ClientUDP::finish(Transaction& t, Effect&& outcome) {
+    t.finished = true;
+    m_effects.emplace(std::move(outcome));
+}
+
 ClientUDP::Handle ClientUDP::allocate_handle() noexcept {
     while (true) {
         if (auto hnd = Handle{m_next_handle_value++}; !m_tmap.contains(hnd)) {
diff --git a/src/stun/stun_client_udp.hpp b/src/stun/stun_client_udp.hpp
index ef7ee7e..a1a07ce 100644
--- a/src/stun/stun_client_udp.hpp
+++ b/src/stun/stun_client_udp.hpp
@@ -120,6 +120,8 @@ private:
         Timepoint create_time;
         MaybeAuth maybe_auth;
         unsigned rtx_count = 0;
+        // Outcome is decided (it may be still not delivered by next())
+        bool finished = false;
     };
     using TransactionRef = std::reference_wrapper<Transaction>;
     using TimelineItem = std::pair<Timepoint, Handle>;
@@ -134,6 +136,7 @@ private:
     Result<Handle> do_create(Timepoint, TransactionId&&, Request&&);
     MaybeError handle_success_response(Timepoint now, Transaction& trans, Message&& msg);
     MaybeError handle_error_response(Timepoint now, Transaction& trans, Message&& msg);
+    void finish(Transaction& trans, Effect&& outcome);
     Handle allocate_handle() noexcept;
     RetransmitAlgoPtr allocate_rtx_algo(const net::Path& path, Timepoint now);
     void cleanup(const Handle&);
-- 
2.43.0


From 3af854b3e5c638757d9070370f62b47e576d3927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 11/24] fix: a request rescheduled by a server error is sent
 when it is due

The rescheduled transmission had no item in the timeline: it was sent at
the old due time, or never when that had passed, and the final wait was
taken before the additional transmissions.
---
 src/stun/stun_client_udp.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index 66a7879..681dda2 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -19,11 +19,13 @@ public:
     explicit RetransmitAlgo(Duration initial_rto, const Settings::RetransmitDefault& settings, Timepoint now);
     MaybeTimepoint init(Timepoint now);
     MaybeTimepoint next(Timepoint now);
+    bool is_due(Timepoint now) const noexcept;
     enum class Process5xxResult {
         TransactionFailed,
         RetransmitScheduled
     };
     Process5xxResult process_5xx(Timepoint, int code);
+    MaybeTimepoint next_timepoint() const noexcept;
     Duration last_timeout() const;
 private:
     std::pair<MaybeTimepoint, Duration> calc_next(Timepoint now) const noexcept;
@@ -85,6 +87,9 @@ ClientUDP::Effect ClientUDP::next(Timepoint now) {
         m_tid_timeline.pop();
         if (auto it = m_tmap.find(hnd); it != m_tmap.end() && !it->second.finished) {
             auto& t = it->second;
+            if (!t.rtx_algo->is_due(now)) {
+                continue; // Was rescheduled, there is another item in the timeline.
+            }
             auto se = t.rtx_algo->next(now)
                 .fmap([&](auto&& next) -> Effect {
                     m_stat.retransmits.inc();
@@ -341,6 +346,10 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
         m_stat.response_5xx.inc();
         switch (t.rtx_algo->process_5xx(now, msg_error_code.code)) {
         case RetransmitAlgo::Process5xxResult::RetransmitScheduled:
+            t.rtx_algo->next_timepoint()
+                .with_inner([&](Timepoint&& timepoint) {
+                    m_tid_timeline.emplace(timepoint, t.hnd);
+                });
             return success();
         case RetransmitAlgo::Process5xxResult::TransactionFailed: {
             auto reason = TransactionFailed::ErrorCode{msg_error_code};
@@ -428,13 +437,16 @@ ClientUDP::MaybeTimepoint ClientUDP::RetransmitAlgo::init(Timepoint now) {
     return m_maybe_next;
 }
 
-ClientUDP::MaybeTimepoint ClientUDP::RetransmitAlgo::next(Timepoint now) {
-    bool time_for_next = m_maybe_next
+bool ClientUDP::RetransmitAlgo::is_due(Timepoint now) const noexcept {
+    return m_maybe_next
         .fmap([&](auto&& next) {
             return !now.is_before(next);
         })
         .value_or(false);
-    if (time_for_next) {
+}
+
+ClientUDP::MaybeTimepoint ClientUDP::RetransmitAlgo::next(Timepoint now) {
+    if (is_due(now)) {
         auto [maybe_next, timeout] = calc_next(now);
         m_maybe_next = maybe_next;
         if (maybe_next.is_some()) {
@@ -461,6 +473,10 @@ ClientUDP::RetransmitAlgo::process_5xx(Timepoint now, int) {
         .value_or(Process5xxResult::TransactionFailed);
 }
 
+ClientUDP::MaybeTimepoint ClientUDP::RetransmitAlgo::next_timepoint() const noexcept {
+    return m_maybe_next;
+}
+
 ClientUDP::Duration ClientUDP::RetransmitAlgo::last_timeout() const {
     return m_last_timeout;
 }
@@ -469,7 +485,7 @@ std::pair<ClientUDP::MaybeTimepoint, client_udp::Duration> ClientUDP::Retransmit
     if (m_rtx_count + 1 >= m_settings.request_count + m_5xx_count) {
         return std::make_pair(none(), Duration(0));
     }
-    auto current = m_rtx_count + 2 == m_settings.request_count
+    auto current = m_rtx_count + 2 == m_settings.request_count + m_5xx_count
         ? m_initial_rto * m_settings.retransmission_multiplier
         : m_last_timeout * 2;
 
-- 
2.43.0


From 6f3721346b601f49625f3308f3bd93919a5a2cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 12/24] fix: RTO has a lower bound of the clock granularity
 (RFC 6298)

Round trips of 0 microseconds gave the zero RTO: all requests at once.
---
 src/stun/details/stun_client_udp_rto.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stun/details/stun_client_udp_rto.cpp b/src/stun/details/stun_client_udp_rto.cpp
index fd7362f..88f5a61 100644
--- a/src/stun/details/stun_client_udp_rto.cpp
+++ b/src/stun/details/stun_client_udp_rto.cpp
@@ -5,6 +5,7 @@
 //
 // Retransmit timeout (RTO) calculation for STUN UDP Client
 
+#include <algorithm>
 #include <cmath>
 #include "stun/details/stun_client_udp_rto.hpp"
 
@@ -30,7 +31,9 @@ Duration ClientUDPRtoCalculator::rto(const net::Path& path) const {
     // we get reliable RTT value.
     return data.backoff
         .value_or(
-            data.smooth.fmap([](auto&& s) { return s.srtt + K * s.rttvar; })
+            // RFC6298:
+            // RTO <- SRTT + max (G, K*RTTVAR), the granularity of the clock is one tick.
+            data.smooth.fmap([](auto&& s) { return s.srtt + std::max(Duration(1), Duration(K * s.rttvar)); })
                 .value_or(m_settings.initial_rto));
 }
 
-- 
2.43.0


From cd8957e5e570bb72f80b7af9e5e388b13869ae30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 13/24] fix: Timepoint::advance_from of negative durations
 shorter than a microsecond

Conversion of the negative count to the unsigned representation before
the division gave a jump of 2^64/1000 microseconds.
---
 src/clock/clock_timepoint.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/clock/clock_timepoint.hpp b/src/clock/clock_timepoint.hpp
index 25fd481..06b1df9 100644
--- a/src/clock/clock_timepoint.hpp
+++ b/src/clock/clock_timepoint.hpp
@@ -76,7 +76,8 @@ inline Timepoint Timepoint::epoch() noexcept {
 
 template<typename ChronoDuration>
 inline Timepoint Timepoint::advance_from(ChronoDuration& duration) const noexcept {
-    auto advance = std::chrono::duration_cast<UnderlyingDuration>(duration);
+    // Signed: fraction of a negative duration must remain in the parameter
+    auto advance = std::chrono::duration_cast<Duration>(duration);
     duration -= std::chrono::duration_cast<ChronoDuration>(advance);
     return Timepoint{m_value + advance};
 }
-- 
2.43.0


From 2d8b66401b6ae837cb1197339379c5f0700c247d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 14/24] fix: do not copy all parsed STUN attributes for each
 attribute

The accumulated vector was copied by every step of the reduce, so the
work of parsing one datagram grew with the square of its number of
attributes: 64 KiB of empty attributes kept a server busy for seconds.
---
 src/stun/stun_message.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/stun/stun_message.cpp b/src/stun/stun_message.cpp
index 88eb3f9..4a13480 100644
--- a/src/stun/stun_message.cpp
+++ b/src/stun/stun_message.cpp
@@ -14,6 +14,7 @@
 #include "util/util_variant_overloaded.hpp"
 #include "util/util_result.hpp"
 #include "util/util_reduce.hpp"
+#include "util/util_unit.hpp"
 #include <iostream>
 
 namespace freewebrtc::stun {
@@ -311,18 +312,19 @@ Result<ParseAttrsResult> parse_attrs(util::ConstBinaryView vv, size_t attr_offse
         }
         attr_offset += raw_attr.aligned_length();
     }
-    using Result = std::vector<Attribute::ParseResult>;
-    Result result;
-    result.reserve(raw_attrs.size());
-    return util::reduce(raw_attrs.begin(), raw_attrs.end(), result, [&](Result&& result, const RawAttr& raw_attr) {
+    // Note: attributes are collected aside: if they were passed through the
+    // reduce then the whole vector would be copied for each attribute.
+    std::vector<Attribute::ParseResult> attrs;
+    attrs.reserve(raw_attrs.size());
+    return util::reduce(raw_attrs.begin(), raw_attrs.end(), [&](const RawAttr& raw_attr) -> MaybeError {
         const auto attr_view = raw_attr.value();
         const auto attr_type = AttributeType::from_uint16(raw_attr.type());
         return Attribute::parse(attr_view, attr_type, stat)
             .fmap([&](Attribute::ParseResult&& attr) {
-                result.emplace_back(std::move(attr));
-                return result;
+                attrs.emplace_back(std::move(attr));
+                return Unit::create();
             });
-    }).fmap([&](Result&& attrs) {
+    }).fmap([&](auto&&) {
         return ParseAttrsResult {
             .attrs = std::move(attrs),
             .maybe_integrity_interval = maybe_integrity_interval,
-- 
2.43.0


From b09ae9b4e811a95d4d055403c4c23698f239bc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 15/24] fix: refuse to build STUN messages that do not fit the
 length in the header

---
 src/stun/details/stun_constants.hpp | 2 ++
 src/stun/stun_attribute_set.cpp     | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/src/stun/details/stun_constants.hpp b/src/stun/details/stun_constants.hpp
index a83a79b..269192c 100644
--- a/src/stun/details/stun_constants.hpp
+++ b/src/stun/details/stun_constants.hpp
@@ -29,5 +29,7 @@ static constexpr size_t STUN_HEADER_SIZE = 20;
 static constexpr size_t STUN_ATTR_HEADER_SIZE = 4;
 //
 static constexpr size_t FINGERPRINT_CRC_SIZE = 4;
+// Length in the header is 16 bit (header is not counted)
+static constexpr size_t STUN_MAX_MESSAGE_SIZE = 0xFFFF;
 
 }
diff --git a/src/stun/stun_attribute_set.cpp b/src/stun/stun_attribute_set.cpp
index 1c97b6c..4426ba8 100644
--- a/src/stun/stun_attribute_set.cpp
+++ b/src/stun/stun_attribute_set.cpp
@@ -244,6 +244,13 @@ Result<util::ByteVec> AttributeSet::build(const Header& header, const MaybeInteg
     }
 
 
+    const size_t message_size = total_size
+        + (maybe_integrity.is_some() ? details::STUN_ATTR_HEADER_SIZE + crypto::SHA1Hash::size : 0)
+        + (has_fingerprint() ? details::STUN_ATTR_HEADER_SIZE + details::FINGERPRINT_CRC_SIZE : 0);
+    if (message_size > details::STUN_MAX_MESSAGE_SIZE) {
+        return std::make_error_code(std::errc::message_size);
+    }
+
     Maybe<Result<MessageIntegityAttribute::Digest>> maybe_integrity_digest_rv = none();
     auto add_integrity = [&](auto&& integrity) -> MaybeError {
         const auto& h = integrity.hash;
-- 
2.43.0


From 9458b34584a26d26570d249daad8655cd68afd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 16/24] fix: refuse textual IP addresses with an embedded zero
 character

---
 src/net/ip/ip_address.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net/ip/ip_address.cpp b/src/net/ip/ip_address.cpp
index b6c0ccb..ba46ada 100644
--- a/src/net/ip/ip_address.cpp
+++ b/src/net/ip/ip_address.cpp
@@ -14,6 +14,10 @@ namespace freewebrtc::net::ip {
 
 template<typename AddressType, typename InetStruct, int INET_FAMILY>
 Result<AddressType> inet_pton_adapter(const std::string_view& v) {
+    // inet_pton takes C-string and would ignore everything after zero char
+    if (v.find('\0') != std::string_view::npos) {
+        return make_error_code(Error::ip_address_parse_error);
+    }
     InetStruct ip_addr;
     // IEEE Std 1003.1-2017:
     // The inet_pton() function shall return 1 if the conversion
-- 
2.43.0


From 902f34e1c938165d98950f89995447dea0fbc95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 17/24] fix: refuse ICE component identifiers above 256 in
 candidate lines

---
 src/ice/candidate/ice_candidate_component_id.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ice/candidate/ice_candidate_component_id.cpp b/src/ice/candidate/ice_candidate_component_id.cpp
index a7f5c94..915c27f 100644
--- a/src/ice/candidate/ice_candidate_component_id.cpp
+++ b/src/ice/candidate/ice_candidate_component_id.cpp
@@ -35,6 +35,9 @@ Result<ComponentId> ComponentId::from_string(const std::string_view& v) noexcept
     }
     std::string vstr{v};
     auto value = std::atoi(vstr.c_str());
+    if (value > 256) {
+        return make_error_code(Error::invalid_component_id_value);
+    }
     return ComponentId(value);
 }
 
-- 
2.43.0


From 6527c582359c9789ecd1e9d67fea014e786a2655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:19 +0000
Subject: [PATCH 18/24] fix: node: take STUN transaction identifiers from a
 random device

POSIX random() yields 31 bits and, never seeded, the same sequence in
every process: identifiers of a restarted client repeat those of the
previous one and can be guessed by anyone.
---
 node/node_stun/node_stun_client_udp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/node/node_stun/node_stun_client_udp.cpp b/node/node_stun/node_stun_client_udp.cpp
index ff79d5d..3057022 100644
--- a/node/node_stun/node_stun_client_udp.cpp
+++ b/node/node_stun/node_stun_client_udp.cpp
@@ -7,6 +7,7 @@
 
 #include <memory>
 #include <iostream>
+#include <random>
 
 #include "util/util_result_sugar.hpp"
 #include "stun/stun_client_udp.hpp"
@@ -80,6 +81,7 @@ Result<craftnapi::Value> create(craftnapi::Env& env, const craftnapi::CallbackIn
     auto client_rv = info.this_arg.unwrap<stun::ClientUDP>();
     return combine(
         [](auto&& client, stun::ClientUDP::Request&& req) {
+            std::random_device random;
             return client.get().create(random, clock::steady_clock_now(), std::move(req));
         }
         , std::move(client_rv)
-- 
2.43.0


From f79b910c317d22cc15f0314b05fe4ea4f62b1679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:39 +0000
Subject: [PATCH 19/24] fix: node: report a failed update of an OpenSSL digest

The result of update() was ignored, so that a failing EVP_DigestUpdate
gave a digest of something else instead of an error.
---
 node/openssl/node_openssl_hash.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/node/openssl/node_openssl_hash.cpp b/node/openssl/node_openssl_hash.cpp
index bfc341c..178310e 100644
--- a/node/openssl/node_openssl_hash.cpp
+++ b/node/openssl/node_openssl_hash.cpp
@@ -55,7 +55,9 @@ typename Hash::Result MessageDigest::calc(const typename Hash::Input& input) {
     }
 
     for (const auto& chunk: input) {
-        update(chunk);
+        if (auto maybe_err = update(chunk); maybe_err.is_err()) {
+            return maybe_err.unwrap_err();
+        }
     }
 
     typename Hash::Value v;
-- 
2.43.0


From f7d077b2f81a752b5c47b0b38c6c2e42bb081bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:39 +0000
Subject: [PATCH 20/24] fix: node: say which transaction succeeded or is to be
 sent

Only transaction_fail named its handle: with more than one transaction
at a time there was no way to tell which one a success belongs to.
---
 node/node_stun/node_stun_client_udp_effects.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/node/node_stun/node_stun_client_udp_effects.cpp b/node/node_stun/node_stun_client_udp_effects.cpp
index 3005824..23e27c9 100644
--- a/node/node_stun/node_stun_client_udp_effects.cpp
+++ b/node/node_stun/node_stun_client_udp_effects.cpp
@@ -21,6 +21,7 @@ namespace {
 Result<craftnapi::Object> send_data_to_craftnapi(craftnapi::Env& env, const stun::ClientUDP::SendData& d) {
     return env.create_object({
         {"type", env.create_string("send_data")},
+        {"handle", client_udp_handle_to_craftnapi(env, d.handle)},
         {"message", env.create_buffer(d.message_view)}
     });
 }
@@ -28,6 +29,7 @@ Result<craftnapi::Object> send_data_to_craftnapi(craftnapi::Env& env, const stun
 Result<craftnapi::Object> transaction_ok_to_craftnapi(craftnapi::Env& env, const stun::ClientUDP::TransactionOk& t) {
     return env.create_object({
         {"type", env.create_string("transaction_ok")},
+        {"handle", client_udp_handle_to_craftnapi(env, t.handle)},
         {"result", env.create_object({
                 { "addr", t.result.address.to_string() > [&](auto&& s) { return env.create_string(std::move(s)); }},
                 { "port", env.create_int32(t.result.port.value()) }
-- 
2.43.0


From 5ceddc76446f7458a280942ab95bcf4613960e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 21/24] fix: node: refuse remote ports that are not 16-bit
 numbers

They were truncated, so that the server reported another port to the
client than the one the caller named.
---
 node/node_stun/node_stun_server_stateless.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/node/node_stun/node_stun_server_stateless.cpp b/node/node_stun/node_stun_server_stateless.cpp
index fe495fd..d720d4f 100644
--- a/node/node_stun/node_stun_server_stateless.cpp
+++ b/node/node_stun/node_stun_server_stateless.cpp
@@ -11,6 +11,7 @@
 #include "node/openssl/node_openssl_hash.hpp"
 #include "node_stun_server_stateless.hpp"
 #include "node_stun_message.hpp"
+#include "node_stun_error.hpp"
 #include <craftnapi/error.hpp>
 
 namespace freewebrtc::node_stun {
@@ -38,11 +39,16 @@ Result<net::Endpoint> extract_rinfo(const Value& v) {
     auto port_rv = (v_as_obj
         > [](auto obj) { return obj.named_property("port"); }
         > [](const auto& v) { return v.as_int32(); }
-        ).add_context("rinfo.port");
+        > [](int32_t v) -> Result<net::Port> {
+            if (v < 0 || v > 65535) {
+                return make_error_code(Error::invalid_port_number);
+            }
+            return net::Port(v);
+        }).add_context("rinfo.port");
 
     return combine(
         [](auto&& addr, auto&& port) -> Result<net::Endpoint> {
-            return net::Endpoint(net::UdpEndpoint{addr, net::Port(port)});
+            return net::Endpoint(net::UdpEndpoint{addr, port});
         },
         std::move(addr_rv),
         std::move(port_rv));
-- 
2.43.0


From 8601cd7f066808d6595bb63d4d07d3f802c83ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:24 +0000
Subject: [PATCH 22/24] fix: node: a datagram the server ignores is never an
 error

An indication or response of a method other than Binding made process()
throw, so that any remote peer could bring down a server written in
JavaScript with one datagram.
---
 node/node_stun/node_stun_server_stateless.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/node/node_stun/node_stun_server_stateless.cpp b/node/node_stun/node_stun_server_stateless.cpp
index d720d4f..5e0b9e0 100644
--- a/node/node_stun/node_stun_server_stateless.cpp
+++ b/node/node_stun/node_stun_server_stateless.cpp
@@ -67,12 +67,18 @@ Result<Value> process_message(Env& env, const CallbackInfo& info) {
             return std::visit(
                 util::overloaded {
                     [&](const stun::server::Stateless::Ignore& ign) -> RVO {
+                        // Anyone can send a message that has no representation
+                        // (of another method): that must not be an error.
                         return
                             env.create_object({
                                 {"result", env.create_string("ignore")},
                                 {"message",
-                                        std::move(ign.message).fmap([&](const auto& msg) {
-                                            return node_stun::message(env, msg);
+                                        ign.message.bind([&](const auto& msg) -> Maybe<RVO> {
+                                            auto msg_rv = node_stun::message(env, msg);
+                                            if (msg_rv.is_err()) {
+                                                return none();
+                                            }
+                                            return msg_rv;
                                         })}
                             });
                     },
-- 
2.43.0


From 95faf3e3e5170f6a39d8350965854485de73b8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:27 +0000
Subject: [PATCH 23/24] fix: node: long round trips and waits do not turn
 negative

A round trip of more than 35 minutes (the caller was suspended) was
reported as a negative number, as was a wait of more than 24 days.
---
 node/node_stun/node_stun_client_udp_effects.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/node/node_stun/node_stun_client_udp_effects.cpp b/node/node_stun/node_stun_client_udp_effects.cpp
index 23e27c9..c3a4163 100644
--- a/node/node_stun/node_stun_client_udp_effects.cpp
+++ b/node/node_stun/node_stun_client_udp_effects.cpp
@@ -6,7 +6,9 @@
 // Mapping of STUN UDP client effects to NAPI
 //
 
+#include <algorithm>
 #include <iostream>
+#include <limits>
 
 #include "util/util_result_sugar.hpp"
 #include "stun/stun_client_udp.hpp"
@@ -18,6 +20,11 @@ namespace freewebrtc::node_stun {
 
 namespace {
 
+// Numbers are passed to JavaScript as int32
+int32_t to_int32(int64_t v) {
+    return int32_t(std::min<int64_t>(v, std::numeric_limits<int32_t>::max()));
+}
+
 Result<craftnapi::Object> send_data_to_craftnapi(craftnapi::Env& env, const stun::ClientUDP::SendData& d) {
     return env.create_object({
         {"type", env.create_string("send_data")},
@@ -36,7 +43,7 @@ Result<craftnapi::Object> transaction_ok_to_craftnapi(craftnapi::Env& env, const
                 })},
         {"response", message(env, t.response)},
         {"rtt_us", t.round_trip.fmap([&](auto rtt) {
-            return env.create_int32(std::chrono::duration_cast<std::chrono::microseconds>(rtt).count());
+            return env.create_int32(to_int32(std::chrono::duration_cast<std::chrono::microseconds>(rtt).count()));
         })}
     });
 }
@@ -79,7 +86,7 @@ Result<craftnapi::Object> sleep_to_craftnapi(craftnapi::Env& env, const stun::Cl
     auto adj = s.sleep == ms ? 0 : 1; // adjust to next whole ms
     return env.create_object({
         {"type", env.create_string("sleep")},
-        {"timeout_ms", env.create_int32(ms.count() + adj)}
+        {"timeout_ms", env.create_int32(to_int32(ms.count() + adj))}
     });
 }
 
-- 
2.43.0


From 3780ec0ee04f89415cf4da3ea77603282fa58c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 24/24] fix: a message of another method does not answer a
 Binding request

RFC 5389 7.3: such messages are discarded. They used to decide the
outcome of the transaction with the same identifier.
---
 src/stun/stun_client_udp.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index 681dda2..b4c1309 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -60,7 +60,13 @@ MaybeError ClientUDP::response(Timepoint now, util::ConstBinaryView view, Maybe<
     // message validation if we don't know anything about
     // transaction
     auto trans_ref_rv = msg_rv
-        .bind([&](const Message& msg) {
+        .bind([&](const Message& msg) -> Result<TransactionRef> {
+            // RFC5389: 7.3: messages of a method that is not supported are
+            // discarded. All transactions are Binding transactions.
+            if (msg.header.method != Method::binding()) {
+                m_stat.transaction_not_found.inc();
+                return make_error_code(ClientError::transaction_not_found);
+            }
             return find_transaction(msg.header.transaction_id);
         });
 
-- 
2.43.0

