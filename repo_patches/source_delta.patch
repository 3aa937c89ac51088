From 95e78b693310542746464dc29ef88a7b26dc9f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:06 +0000
Subject: [PATCH 01/18] fix: SysEx8 packetisation chooses complete/start from
 the real payload size

send_sysex8 always writes a two byte manufacturer field, but decided between
complete and start packets with a size counting one or three ID bytes. A message
with a one byte ID and 12 data bytes became 'complete' + 'end', one with a three
byte ID and 11 data bytes became a lone 'start' that never ended.
---
 inc/midi/sysex.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/inc/midi/sysex.h b/inc/midi/sysex.h
index 3ade2bd..8d0f977 100644
--- a/inc/midi/sysex.h
+++ b/inc/midi/sysex.h
@@ -362,11 +362,12 @@ inline std::vector<data_message> as_sysex7_packets(const sysex7& sysex, group_t
 template<typename Sender>
 void send_sysex8(const sysex8& sysex, uint8_t stream_id, group_t group, Sender&& sender)
 {
-    constexpr size_t max_payload_size = 13;
+    constexpr size_t max_payload_size  = 13;
+    constexpr size_t manufacturer_size = 2; // always two bytes in SysEx8
 
     // initialize first packet
-    auto p = (sysex.total_data_size() <= max_payload_size) ? make_sysex8_complete_packet(stream_id, group)
-                                                           : make_sysex8_start_packet(stream_id, group);
+    auto p = (sysex.data.size() + manufacturer_size <= max_payload_size) ? make_sysex8_complete_packet(stream_id, group)
+                                                                         : make_sysex8_start_packet(stream_id, group);
 
     // write manufacturerID bytes
     if (sysex.manufacturerID & 0x00FFFF)
-- 
2.43.0


From fb482b7c9eda5ebdd23e83d47e15dab51a56afae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:30 +0000
Subject: [PATCH 02/18] fix: discard partial data when a SysEx exceeds the
 collector limit

The collectors only went back to 'expect start' and kept the data and manufacturer
ID state of the rejected message. When it was rejected on its last packet, or its
remaining packets never arrived, the next message was delivered with the old ID
and the old data in front.
---
 src/sysex_collector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sysex_collector.cpp b/src/sysex_collector.cpp
index c641553..ec8cb23 100644
--- a/src/sysex_collector.cpp
+++ b/src/sysex_collector.cpp
@@ -82,7 +82,7 @@ void sysex7_collector::feed(const universal_packet& p)
         if (limited_sysex_data_size && (m_sysex7.data.size() + numBytes > m_sysex7.data.capacity()))
         {
             // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
-            m_state = data_status::sysex7_start;
+            reset();
             return;
         }
     }
@@ -201,7 +201,7 @@ void sysex8_collector::feed(const universal_packet& p)
         if (limited_sysex_data_size && (m_sysex8.data.size() + numBytes > m_sysex8.data.capacity()))
         {
             // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
-            m_state = packet_format::start;
+            reset();
             return;
         }
     }
-- 
2.43.0


From a6cbeb84c6059037951fb545b2330dafe04d1161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:24 +0000
Subject: [PATCH 03/18] fix: enforce the collectors' SysEx data size limit
 exactly

The limit was compared against the buffer's capacity and counted manufacturer ID
bytes. A limit lowered below the current capacity was not enforced, and a message
within a small limit was rejected when its first packet also carried the ID.
---
 src/sysex_collector.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/sysex_collector.cpp b/src/sysex_collector.cpp
index ec8cb23..cc0482c 100644
--- a/src/sysex_collector.cpp
+++ b/src/sysex_collector.cpp
@@ -78,13 +78,6 @@ void sysex7_collector::feed(const universal_packet& p)
             new_capacity = std::min(new_capacity, m_max_sysex_data_size);
         }
         m_sysex7.data.reserve(new_capacity);
-
-        if (limited_sysex_data_size && (m_sysex7.data.size() + numBytes > m_sysex7.data.capacity()))
-        {
-            // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
-            reset();
-            return;
-        }
     }
 
     for (unsigned b = 0; b < numBytes; ++b)
@@ -112,6 +105,13 @@ void sysex7_collector::feed(const universal_packet& p)
             m_manufacturerIDBytesRead = 3;
             break;
         default:
+            if ((m_max_sysex_data_size > 0) && (m_sysex7.data.size() >= m_max_sysex_data_size))
+            {
+                // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
+                reset();
+                return;
+            }
+
             // collect data
             m_sysex7.data.push_back(byte);
             break;
@@ -197,13 +197,6 @@ void sysex8_collector::feed(const universal_packet& p)
             new_capacity = std::min(new_capacity, m_max_sysex_data_size);
         }
         m_sysex8.data.reserve(new_capacity);
-
-        if (limited_sysex_data_size && (m_sysex8.data.size() + numBytes > m_sysex8.data.capacity()))
-        {
-            // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
-            reset();
-            return;
-        }
     }
 
     for (unsigned b = 0; b < numBytes; ++b)
@@ -236,6 +229,13 @@ void sysex8_collector::feed(const universal_packet& p)
             m_manufacturer_id_state = done;
             break;
         default:
+            if ((m_max_sysex_data_size > 0) && (m_sysex8.data.size() >= m_max_sysex_data_size))
+            {
+                // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
+                reset();
+                return;
+            }
+
             // collect data
             m_sysex8.data.push_back(byte);
             break;
-- 
2.43.0


From 85299afc69c4cef5be76b969da9c77f16bb02b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:01 +0000
Subject: [PATCH 04/18] fix: no signed overflow in pitch_increment(double) just
 above -64

---
 inc/midi/types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/types.h b/inc/midi/types.h
index b5f9457..6ba8824 100644
--- a/inc/midi/types.h
+++ b/inc/midi/types.h
@@ -645,7 +645,7 @@ constexpr pitch_increment::pitch_increment(double d)
     }
     else
     {
-        value = -static_cast<int32_t>(pitch_7_25(-d).value);
+        value = static_cast<int32_t>(-static_cast<int64_t>(pitch_7_25(-d).value));
     }
 }
 
-- 
2.43.0


From e0c191f417ddd6d2903f84ca35ef4bb33141a952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:40 +0000
Subject: [PATCH 05/18] fix: midi2_channel_voice_message_view::byte4 returns
 all 8 bits

Note attribute types and per-note controller indices use the full byte. With
bit 7 masked off, notes with attribute 0x80 were translated to MIDI 1 as if
they had no attribute.
---
 inc/midi/midi2_channel_voice_message.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/midi2_channel_voice_message.h b/inc/midi/midi2_channel_voice_message.h
index ffd4d74..d98ff4c 100644
--- a/inc/midi/midi2_channel_voice_message.h
+++ b/inc/midi/midi2_channel_voice_message.h
@@ -92,7 +92,7 @@ struct midi2_channel_voice_message_view
     constexpr status_t  status() const { return p.status() & 0xF0; }
     constexpr channel_t channel() const { return p.status() & 0x0F; }
     constexpr uint7_t   byte3() const { return p.byte3() & 0x7F; }
-    constexpr uint7_t   byte4() const { return p.byte4() & 0x7F; }
+    constexpr uint8_t   byte4() const { return p.byte4(); }
     constexpr uint32_t  data() const { return p.data[1]; }
 
   private:
-- 
2.43.0


From 703619b211602589435d2558506aeec4a424cc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:13 +0000
Subject: [PATCH 06/18] fix: mask MIDI 1 data bytes in
 get_channel_pitch_bend_value

A data byte with bit 7 set produced a value of more than 14 bits and undefined
behaviour when upscaling it.
---
 inc/midi/channel_voice_message.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/channel_voice_message.h b/inc/midi/channel_voice_message.h
index 545f659..4464d0c 100644
--- a/inc/midi/channel_voice_message.h
+++ b/inc/midi/channel_voice_message.h
@@ -241,7 +241,7 @@ constexpr pitch_bend get_channel_pitch_bend_value(const universal_packet& p)
     // assert(is_channel_pitch_bend_message(p));
     if (p.type() == packet_type::midi1_channel_voice)
     {
-        return pitch_bend{ uint14_t(p.byte3() | (p.byte4() << 7)) };
+        return pitch_bend{ uint14_t((p.byte3() & 0x7F) | ((p.byte4() & 0x7F) << 7)) };
     }
     return pitch_bend{ p.data[1] };
 }
-- 
2.43.0


From 7c6fb2b380b2cab5f8a27497ea38a13ffa8b8ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:21 +0000
Subject: [PATCH 07/18] fix: operator<< restores the stream's fill character

---
 src/universal_packet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/universal_packet.cpp b/src/universal_packet.cpp
index 5089e1d..681df38 100644
--- a/src/universal_packet.cpp
+++ b/src/universal_packet.cpp
@@ -56,13 +56,15 @@ namespace {
 std::ostream& operator<<(std::ostream& out, const universal_packet& p)
 {
     iobase_restore_flags flag_restorer(out);
+    const auto           fill = out.fill('0');
 
     for (auto w = 0u; w < p.size(); ++w)
     {
         if (w)
             out << ' ';
-        out << std::hex << std::setfill('0') << std::setw(8) << p.data[w];
+        out << std::hex << std::setw(8) << p.data[w];
     }
+    out.fill(fill);
     return out;
 }
 
-- 
2.43.0


From e749f77d27a5901500d03766a3084944a9129dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:19 +0000
Subject: [PATCH 08/18] fix: packet text form does not depend on the stream's
 base and adjustment flags

With std::left or std::showbase set, operator<< wrote the text of a different
packet or text that cannot be read back.
---
 src/universal_packet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/universal_packet.cpp b/src/universal_packet.cpp
index 681df38..4a2724c 100644
--- a/src/universal_packet.cpp
+++ b/src/universal_packet.cpp
@@ -62,7 +62,7 @@ std::ostream& operator<<(std::ostream& out, const universal_packet& p)
     {
         if (w)
             out << ' ';
-        out << std::hex << std::setw(8) << p.data[w];
+        out << std::hex << std::noshowbase << std::right << std::setw(8) << p.data[w];
     }
     out.fill(fill);
     return out;
-- 
2.43.0


From 8e76ba1e7e5ca3248ffc698d3dbea0b90b9447eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:42 +0000
Subject: [PATCH 09/18] fix: return endpoint and function block names
 unmodified

Names are UTF-8 and are sent with all 8 bits, but bit 7 was masked off when
reading them back.
---
 inc/midi/stream_message.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/stream_message.h b/inc/midi/stream_message.h
index 7547027..39eddf0 100644
--- a/inc/midi/stream_message.h
+++ b/inc/midi/stream_message.h
@@ -63,7 +63,7 @@ struct stream_message : universal_packet
         result.reserve(16 - offset);
         for (uint8_t b = offset; b < 16; ++b)
         {
-            if (auto c = char(p.get_byte_7bit(b)))
+            if (auto c = char(p.get_byte(b)))
             {
                 result.push_back(c);
             }
-- 
2.43.0


From 463b8fa846690e12e9c08d9bf104794eb5767e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:38 +0000
Subject: [PATCH 10/18] fix: function blocks can span all 16 groups

A span of 16 groups was sent as 0.
---
 inc/midi/stream_message.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/midi/stream_message.h b/inc/midi/stream_message.h
index 39eddf0..a181c86 100644
--- a/inc/midi/stream_message.h
+++ b/inc/midi/stream_message.h
@@ -619,7 +619,7 @@ constexpr stream_message make_function_block_info_message(uint7_t function_block
     m.set_byte(2, 0x80u | (function_block & 0x1F));
     m.set_byte(3, ((direction & 0x03u) << 4) | (direction & 0x03u));
     m.set_byte(4, first_group & 0xF);
-    m.set_byte(5, num_groups_spanned & 0xF);
+    m.set_byte(5, num_groups_spanned & 0x1F);
     return m;
 }
 
@@ -640,7 +640,7 @@ constexpr stream_message make_function_block_info_message(uint7_t
                (((options.ui_hint ? options.ui_hint : options.direction) & 0x03u) << 4) |
                  ((options.midi1 & 0x03u) << 2) | (options.direction & 0x03u));
     m.set_byte(4, first_group & 0xF);
-    m.set_byte(5, num_groups_spanned & 0xF);
+    m.set_byte(5, num_groups_spanned & 0x1F);
     m.set_byte(6, options.ci_message_version);
     m.set_byte(7, options.max_num_sysex8_streams);
     return m;
-- 
2.43.0


From f94ce5fd086fbe2b92a8c8a4ee7b6032bc5668ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:39 +0000
Subject: [PATCH 11/18] fix: compare all 10 status bits of stream messages

Packets with a reserved status above 0xFF were taken for the message with the
same low 8 status bits.
---
 inc/midi/stream_message.h | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/inc/midi/stream_message.h b/inc/midi/stream_message.h
index a181c86..367b05d 100644
--- a/inc/midi/stream_message.h
+++ b/inc/midi/stream_message.h
@@ -77,6 +77,7 @@ struct stream_message : universal_packet
 //--------------------------------------------------------------------------
 
 constexpr bool is_stream_message(const universal_packet&);
+constexpr bool is_stream_message_with_status(const universal_packet&, status_t);
 
 //--------------------------------------------------------------------------
 
@@ -433,11 +434,17 @@ constexpr bool is_stream_message(const universal_packet& p)
     return (p.type() == packet_type::stream);
 }
 
+constexpr bool is_stream_message_with_status(const universal_packet& p, status_t status)
+{
+    // stream messages have a 10 bit status
+    return is_stream_message(p) && (((p.data[0] >> 16) & 0x3FF) == status);
+}
+
 //--------------------------------------------------------------------------
 
 constexpr std::optional<endpoint_discovery_view> as_endpoint_discovery_view(const universal_packet& p)
 {
-    if (is_stream_message(p) && (p.status() == stream_status::endpoint_discovery))
+    if (is_stream_message_with_status(p, stream_status::endpoint_discovery))
         return endpoint_discovery_view{ p };
     else
         return std::nullopt;
@@ -445,7 +452,7 @@ constexpr std::optional<endpoint_discovery_view> as_endpoint_discovery_view(cons
 
 constexpr std::optional<endpoint_info_view> as_endpoint_info_view(const universal_packet& p)
 {
-    if (is_stream_message(p) && (p.status() == stream_status::endpoint_info))
+    if (is_stream_message_with_status(p, stream_status::endpoint_info))
         return endpoint_info_view{ p };
     else
         return std::nullopt;
@@ -453,7 +460,7 @@ constexpr std::optional<endpoint_info_view> as_endpoint_info_view(const universa
 
 constexpr std::optional<device_identity_view> as_device_identity_view(const universal_packet& p)
 {
-    if (is_stream_message(p) && (p.status() == stream_status::device_identity))
+    if (is_stream_message_with_status(p, stream_status::device_identity))
         return device_identity_view{ p };
     else
         return std::nullopt;
@@ -461,7 +468,7 @@ constexpr std::optional<device_identity_view> as_device_identity_view(const univ
 
 constexpr std::optional<endpoint_name_view> as_endpoint_name_view(const universal_packet& p)
 {
-    if (is_stream_message(p) && (p.status() == stream_status::endpoint_name))
+    if (is_stream_message_with_status(p, stream_status::endpoint_name))
         return endpoint_name_view{ p };
     else
         return std::nullopt;
@@ -469,7 +476,7 @@ constexpr std::optional<endpoint_name_view> as_endpoint_name_view(const universa
 
 constexpr std::optional<product_instance_id_view> as_product_instance_id_view(const universal_packet& p)
 {
-    if (is_stream_message(p) && (p.status() == stream_status::product_instance_id))
+    if (is_stream_message_with_status(p, stream_status::product_instance_id))
         return product_instance_id_view{ p };
     else
         return std::nullopt;
@@ -477,8 +484,8 @@ constexpr std::optional<product_instance_id_view> as_product_instance_id_view(co
 
 constexpr std::optional<stream_configuration_view> as_stream_configuration_view(const universal_packet& p)
 {
-    if (is_stream_message(p) && ((p.status() == stream_status::stream_configuration_request) ||
-                                 (p.status() == stream_status::stream_configuration_notify)))
+    if (is_stream_message_with_status(p, stream_status::stream_configuration_request) ||
+        is_stream_message_with_status(p, stream_status::stream_configuration_notify))
         return stream_configuration_view{ p };
     else
         return std::nullopt;
@@ -486,7 +493,7 @@ constexpr std::optional<stream_configuration_view> as_stream_configuration_view(
 
 constexpr std::optional<function_block_discovery_view> as_function_block_discovery_view(const universal_packet& p)
 {
-    if (is_stream_message(p) && (p.status() == stream_status::function_block_discovery))
+    if (is_stream_message_with_status(p, stream_status::function_block_discovery))
         return function_block_discovery_view{ p };
     else
         return std::nullopt;
@@ -494,7 +501,7 @@ constexpr std::optional<function_block_discovery_view> as_function_block_discove
 
 constexpr std::optional<function_block_info_view> as_function_block_info_view(const universal_packet& p)
 {
-    if (is_stream_message(p) && (p.status() == stream_status::function_block_info))
+    if (is_stream_message_with_status(p, stream_status::function_block_info))
         return function_block_info_view{ p };
     else
         return std::nullopt;
@@ -502,7 +509,7 @@ constexpr std::optional<function_block_info_view> as_function_block_info_view(co
 
 constexpr std::optional<function_block_name_view> as_function_block_name_view(const universal_packet& p)
 {
-    if (is_stream_message(p) && (p.status() == stream_status::function_block_name))
+    if (is_stream_message_with_status(p, stream_status::function_block_name))
         return function_block_name_view{ p };
     else
         return std::nullopt;
-- 
2.43.0


From b123dc838062669c809d78ae6b36266e7f857a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:51 +0000
Subject: [PATCH 12/18] fix: jr_clock_follower preserves message order when a
 clock arrives late

If messages were scheduled ahead of their receive time (the first clocks took
longer than later ones), a clock arriving on time reset the time of the last
message, so that following messages were scheduled before earlier ones.
---
 src/jitter_reduction_timestamps.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/jitter_reduction_timestamps.cpp b/src/jitter_reduction_timestamps.cpp
index 79d96c9..f18ac10 100644
--- a/src/jitter_reduction_timestamps.cpp
+++ b/src/jitter_reduction_timestamps.cpp
@@ -86,15 +86,14 @@ void jr_clock_follower::process_clock(time_point received, jr_timestamp_t jr_tim
     {
         // use received as new reference time
         m_clock_time = received;
-
-        if (received > m_message_time) // ensure that message order is preserved
-        {
-            m_message_time = received;
-        }
     }
     else
     {
-        m_clock_time   = expected_receive_time;
+        m_clock_time = expected_receive_time;
+    }
+
+    if (received > m_message_time) // ensure that message order is preserved
+    {
         m_message_time = received;
     }
 
-- 
2.43.0


From 49f81923318ba231a95ab21370c95af3a9ff9db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:10 +0000
Subject: [PATCH 13/18] fix: discovery views check the size of a SysEx before
 reading its version

---
 inc/midi/capability_inquiry.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/midi/capability_inquiry.h b/inc/midi/capability_inquiry.h
index 87a00e6..5005f3d 100644
--- a/inc/midi/capability_inquiry.h
+++ b/inc/midi/capability_inquiry.h
@@ -1072,6 +1072,7 @@ inline uint7_t discovery::message_view::output_path_id() const
 inline bool discovery_inquiry_view::validate(const sysex7& sx)
 {
     return (sx.manufacturerID == manufacturer::universal_non_realtime) &&
+           (sx.data.size() >= field_offsets::output_path_id) &&
            (sx.data.size() >= field_offsets::output_path_id + ((sx.data[3] > 1) ? 1u : 0u)) && (sx.data[1] == 0x0D) &&
            (sx.data[2] == subtype::discovery_inquiry);
 }
@@ -1107,6 +1108,7 @@ inline uint7_t discovery_reply_view::function_block() const
 inline bool discovery_reply_view::validate(const sysex7& sx)
 {
     return (sx.manufacturerID == manufacturer::universal_non_realtime) &&
+           (sx.data.size() >= field_offsets::output_path_id) &&
            (sx.data.size() >= field_offsets::output_path_id + ((sx.data[3] > 1) ? 2u : 0u)) && (sx.data[1] == 0x0D) &&
            (sx.data[2] == subtype::discovery_reply);
 }
-- 
2.43.0


From 1a407cc32adf71b2be6b67188b91e9a5bd3e8046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:25 +0000
Subject: [PATCH 14/18] fix: profile specific data from a vector is not
 truncated at 64 KiB

---
 inc/midi/capability_inquiry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/capability_inquiry.h b/inc/midi/capability_inquiry.h
index 5005f3d..70d3163 100644
--- a/inc/midi/capability_inquiry.h
+++ b/inc/midi/capability_inquiry.h
@@ -1729,7 +1729,7 @@ inline message make_profile_specific_data_message(
   muid_t source_muid, muid_t destination_muid, const profile_id& p, const std::vector<uint7_t>& data, uint7_t device_id)
 {
     return make_profile_specific_data_message(
-      source_muid, destination_muid, p, data.data(), static_cast<uint14_t>(data.size()), device_id);
+      source_muid, destination_muid, p, data.data(), data.size(), device_id);
 }
 
 //-----------------------------------------------
-- 
2.43.0


From 824265efe7c1d0599432458800023c7903e4ef4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:33 +0000
Subject: [PATCH 15/18] fix: empty, '-' and zero-padded option values are
 quoted in property exchange headers

---
 src/capability_inquiry.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/capability_inquiry.cpp b/src/capability_inquiry.cpp
index d99f6ee..a3c00d7 100644
--- a/src/capability_inquiry.cpp
+++ b/src/capability_inquiry.cpp
@@ -289,8 +289,11 @@ message property_exchange::make_property_data_message(subtype_t     subtype,
 namespace {
     bool is_number(std::string_view s)
     {
-        if (s[0] == '-')
+        if (!s.empty() && (s[0] == '-'))
             s.remove_prefix(1);
+        // JSON: at least one digit, no leading zeros
+        if (s.empty() || ((s[0] == '0') && (s.size() > 1)))
+            return false;
         while (!s.empty())
         {
             if ((s[0] < '0') || (s[0] > '9'))
-- 
2.43.0


From 96c0764c69dc3bc63d866676e6731d24efb2a662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:29 +0000
Subject: [PATCH 16/18] fix: SysEx collectors keep data of a message whose
 callback threw

The collectors cleaned up only after the callback returned: if it threw,
the data stayed in the buffer and became part of the next message, and a
repeated end packet delivered the message again.
---
 src/sysex_collector.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/sysex_collector.cpp b/src/sysex_collector.cpp
index cc0482c..a138579 100644
--- a/src/sysex_collector.cpp
+++ b/src/sysex_collector.cpp
@@ -53,11 +53,8 @@ void sysex7_collector::feed(const universal_packet& p)
     {
     case data_status::sysex7_complete:
     case data_status::sysex7_start:
-        if (m_state != data_status::sysex7_start)
-        {
-            // invalid message sequence, reset
-            reset();
-        }
+        // discard whatever an incomplete or aborted message left behind
+        reset();
         break;
     default:
         if (m_state != data_status::sysex7_continue)
@@ -122,6 +119,7 @@ void sysex7_collector::feed(const universal_packet& p)
     {
     case data_status::sysex7_complete:
     case data_status::sysex7_end:
+        m_state = data_status::sysex7_start; // message is complete, even if the callback throws
         if (m_cb)
         {
             m_cb(m_sysex7);
@@ -166,11 +164,8 @@ void sysex8_collector::feed(const universal_packet& p)
     {
     case packet_format::complete:
     case packet_format::start:
-        if (m_state != packet_format::start)
-        {
-            // invalid message sequence, reset
-            reset();
-        }
+        // discard whatever an incomplete or aborted message left behind
+        reset();
         m_stream_id = m.stream_id();
         break;
     default:
@@ -246,6 +241,7 @@ void sysex8_collector::feed(const universal_packet& p)
     {
     case packet_format::complete:
     case packet_format::end:
+        m_state = packet_format::start; // message is complete, even if the callback throws
         if (m_cb)
         {
             m_cb(m_sysex8, m_stream_id);
-- 
2.43.0


From d79e4edf30f3bdbd6ae77f2c53b723aaeced8493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:29 +0000
Subject: [PATCH 17/18] fix: byte stream parser state is stale while SysEx
 packet callbacks run

The parser advanced its state only after the packet callback returned. If
the callback threw, the following SysEx bytes were written behind the end of
the packet, and a reset from inside the callback was undone.
---
 src/midi1_byte_stream.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/midi1_byte_stream.cpp b/src/midi1_byte_stream.cpp
index 5c4bf9d..68bff8b 100644
--- a/src/midi1_byte_stream.cpp
+++ b/src/midi1_byte_stream.cpp
@@ -314,14 +314,17 @@ void midi1_byte_stream_parser::sysex_continue_packet(uint8_t byte)
     m_packet.set_byte(m_packet_byte, byte);
     if (++m_packet_byte == 8)
     {
-        if (m_invoke_callbacks)
-        {
-            m_packet.set_byte(1, (m_packet.status() & 0xF0) + 6);
-            m_packet_callback(m_packet);
-        }
+        auto packet = m_packet;
+        packet.set_byte(1, (packet.status() & 0xF0) + 6);
 
+        // update state first, the callback might throw or reset the parser
         m_packet      = make_sysex7_continue_packet(m_group);
         m_packet_byte = 2;
+
+        if (m_invoke_callbacks)
+        {
+            m_packet_callback(packet);
+        }
     }
 }
 
@@ -348,13 +351,16 @@ void midi1_byte_stream_parser::sysex_end_packet()
         m_packet.set_byte(1, data_status::sysex7_end + cur_packet_size);
     }
 
-    if (m_invoke_callbacks)
-    {
-        m_packet_callback(m_packet);
-    }
+    const auto packet = m_packet;
 
+    // update state first, the callback might throw or reset the parser
     m_packet      = universal_packet{};
     m_packet_byte = 2;
+
+    if (m_invoke_callbacks)
+    {
+        m_packet_callback(packet);
+    }
 }
 
 //--------------------------------------------------------------------------
-- 
2.43.0


From 036271f2a48ed0133525c6b30071728bc95fb117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:17 +0000
Subject: [PATCH 18/18] fix: packet text form must not depend on the stream's
 locale

With a digit grouping locale imbued, operator<< wrote separators into the words
and operator>> refused what operator<< had written.
---
 src/universal_packet.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/universal_packet.cpp b/src/universal_packet.cpp
index 4a2724c..43d5fc9 100644
--- a/src/universal_packet.cpp
+++ b/src/universal_packet.cpp
@@ -27,6 +27,7 @@
 #include <cassert>
 #include <iomanip>
 #include <iostream>
+#include <locale>
 
 //--------------------------------------------------------------------------
 
@@ -41,12 +42,19 @@ namespace {
         explicit iobase_restore_flags(std::ios_base& strm)
           : strm(strm)
         {
+            // no digit grouping, whatever locale the stream uses
+            strm.imbue(std::locale::classic());
         }
 
-        ~iobase_restore_flags() { strm.flags(flags); }
+        ~iobase_restore_flags()
+        {
+            strm.flags(flags);
+            strm.imbue(locale);
+        }
 
         std::ios_base&          strm;
-        std::ios_base::fmtflags flags = strm.flags();
+        std::ios_base::fmtflags flags  = strm.flags();
+        std::locale             locale = strm.getloc();
     };
 
 } // namespace
-- 
2.43.0

