#!/usr/bin/env python3
"""Planted bugs: regenerate /verif/seeded/<id>/ from the specs below, each confirmed in a scratch copy.

  seeds.py make [ID...]    build patch + demo, confirm (compiles, stable tests pass, demo fails / passes)
  seeds.py run [ID...]     apply each kept patch to a scratch copy and run the property's quick check on it
"""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")

DEMO_SH = '''#!/bin/bash
# exit 0: behaviour as specified; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$tmp"' EXIT
g++ %s -O1 -DNDEBUG -w -Iinc "$here/demo.cpp" src/*.cpp -o "$tmp/demo" || exit 98
timeout 200 "$tmp/demo"
'''
DEMO_HEAD = '''#include <midi/capability_inquiry.h>
#include <midi/channel_voice_message.h>
#include <midi/flex_data_message.h>
#include <midi/jitter_reduction_timestamps.h>
#include <midi/midi1_byte_stream.h>
#include <midi/stream_message.h>
#include <midi/sysex_collector.h>
#include <midi/system_message.h>
#include <midi/universal_sysex.h>
#include <midi/utility_message.h>
#include <cstdio>
#include <cmath>
#include <sstream>
#include <string>
#include <vector>
using namespace midi;
#define CHECK(x) do { if (!(x)) { std::printf("FAILED line %d: %s\\n", __LINE__, #x); return 1; } } while (0)

'''

def specs():
    S = []
    def add(id, prop, needs, breaks, edits, demo, std="-std=c++17", pre=""):
        S.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, std=std, pre=pre))

    add("C01-long-sysex7", "C01", "a SysEx7 message with more than 65535 data bytes",
        "the remaining-bytes counter wraps, an end packet is sent in the middle of the message",
        [("inc/midi/sysex.h",
          "size_t dataBytesLeft = sysex.data.size();\n    for (auto b : sysex.data)\n    {\n        p.add_payload_byte(b);\n        --dataBytesLeft;\n\n        if (p.payload_size() == max_payload_size) // packet full?\n        {\n            sender(p);\n\n            p =\n",
          "auto dataBytesLeft = static_cast<uint16_t>(sysex.data.size());\n    for (auto b : sysex.data)\n    {\n        p.add_payload_byte(b);\n        --dataBytesLeft;\n\n        if (p.payload_size() == max_payload_size) // packet full?\n        {\n            sender(p);\n\n            p =\n")],
        '''for (size_t n : { size_t(10), size_t(6000), size_t(70000) }) {
        sysex7 s{ 0x3E0000u }; for (size_t i = 0; i < n; ++i) s.data.push_back(uint8_t(i * 7 & 0x7F));
        std::vector<sysex7> got; sysex7_collector c{ [&](const sysex7& x) { got.push_back(x); } };
        for (auto& p : as_sysex7_packets(s, 3)) c.feed(p);
        CHECK(got.size() == 1); CHECK(got[0] == s); }''')

    add("C02-id-00-00-xx", "C02", "a three-byte manufacturer ID whose middle byte is zero",
        "the SysEx8 manufacturer field is written as if the ID had one byte",
        [("inc/midi/sysex.h",
          "    if (sysex.manufacturerID & 0x00FFFF)\n    {\n        p.add_payload_byte(0x80 +",
          "    if (sysex.manufacturerID & 0x00FF00)\n    {\n        p.add_payload_byte(0x80 +")],
        '''for (uint32_t id : { 0x002109u, 0x430000u, 0x000066u }) {
        sysex8 s{ id }; for (int i = 0; i < 40; ++i) s.data.push_back(uint8_t(i * 9));
        std::vector<sysex8> got; sysex8_collector c{ [&](const sysex8& x, uint8_t) { got.push_back(x); } };
        for (auto& p : as_sysex8_packets(s, 5, 3)) c.feed(p);
        CHECK(got.size() == 1); CHECK(got[0] == s); }''')

    add("C03-abort-mid-id", "C03", "a SysEx7 message aborted after the leading zero of its three-byte ID, then a new message",
        "the half-read manufacturer ID of the aborted message corrupts the next message",
        [("src/sysex_collector.cpp",
          "    m_sysex7.clear();\n    m_state                   = data_status::sysex7_start;\n    m_manufacturerIDBytesRead = 0;",
          "    if ((m_state == data_status::sysex7_start) || !m_sysex7.empty())\n        m_manufacturerIDBytesRead = 0;\n\n    m_sysex7.clear();\n    m_state = data_status::sysex7_start;")],
        '''std::vector<sysex7> got; sysex7_collector c{ [&](const sysex7& x) { got.push_back(x); } };
    c.feed(universal_packet{ 0x30110000u, 0u });
    sysex7 s{ 0x410000u, { 1, 2, 3 } };
    for (auto& p : as_sysex7_packets(s, 0)) c.feed(p);
    CHECK(got.size() == 1); CHECK(got[0] == s);''')

    add("C03-sysex8-foreign-stream", "C03", "a packet of another SysEx8 stream arriving between the packets of a message",
        "a foreign stream's end packet finishes the message in progress",
        [("src/sysex_collector.cpp",
          "        if (m.stream_id() != m_stream_id)\n        {",
          "        if ((m.stream_id() != m_stream_id) && (m.format() == packet_format::cont))\n        {")],
        '''std::vector<sysex8> got; sysex8_collector c{ [&](const sysex8& x, uint8_t) { got.push_back(x); } };
    sysex8 s{ 0x410000u }; for (int i = 0; i < 60; ++i) s.data.push_back(uint8_t(i * 5));
    auto ps = as_sysex8_packets(s, 7, 0);
    for (size_t i = 0; i < ps.size(); ++i) { if (i == 2) { auto e = make_sysex8_end_packet(9, 0); e.add_payload_byte(0x55); c.feed(e); } c.feed(ps[i]); }
    CHECK(got.size() == 1); CHECK(got[0] == s);''')

    add("C04-unlimit", "C04", "a limit set and later removed again by setting it to zero",
        "a limit of zero no longer means unlimited once another limit has been set",
        [("src/sysex_collector.cpp",
          "    if ((m_max_sysex_data_size = s))\n    {\n        m_sysex8.data.reserve(m_max_sysex_data_size);",
          "    if (s)\n    {\n        m_max_sysex_data_size = s;\n        m_sysex8.data.reserve(m_max_sysex_data_size);")],
        '''std::vector<sysex8> got; sysex8_collector c{ [&](const sysex8& x, uint8_t) { got.push_back(x); } };
    sysex8 s{ 0x410000u }; for (int i = 0; i < 300; ++i) s.data.push_back(uint8_t(i * 5));
    c.set_max_sysex_data_size(20); for (auto& p : as_sysex8_packets(s, 7, 0)) c.feed(p); CHECK(got.empty());
    c.set_max_sysex_data_size(0);  for (auto& p : as_sysex8_packets(s, 7, 0)) c.feed(p);
    CHECK(got.size() == 1); CHECK(got[0] == s);''')

    add("C05-undefined-common", "C05", "an undefined status byte F4 or F5 between a channel message and stray data bytes",
        "undefined system common bytes no longer cancel running status",
        [("src/midi1_byte_stream.cpp",
          "    else if (byte > 0xF0) // System Common\n    {",
          "    else if ((byte == 0xF4) || (byte == 0xF5)) // undefined\n    {\n        return;\n    }\n    else if (byte > 0xF0) // System Common\n    {")],
        '''int n = 0; midi1_byte_stream_parser p{ [&](universal_packet) { ++n; } };
    for (uint8_t b : { 0x90, 60, 100, 0xF4, 61, 101 }) p.feed(b);
    CHECK(n == 1);''')

    add("C05-three-byte-id", "C05", "a SysEx with a three-byte manufacturer ID while SysEx callbacks are on, with data long enough to wrap",
        "the last ID byte of a three-byte manufacturer ID is masked with the realtime range",
        [("src/midi1_byte_stream.cpp",
          "m_sysex.manufacturerID += (byte << ((4 - m_packet_byte) * 8));",
          "m_sysex.manufacturerID |= (byte << ((m_packet_byte == 3) ? 8 : 0)) & 0x3FFF;")],
        '''std::vector<sysex7> got; midi1_byte_stream_parser p{ [&](universal_packet) {}, [&](const sysex7& s) { got.push_back(s); } };
    for (uint8_t b : { 0xF0, 0x00, 0x20, 0x6B, 1, 2, 0xF7, 0xF0, 0x00, 0x60, 0x05, 1, 2, 0xF7 }) p.feed(b);
    CHECK(got.size() == 2); CHECK(got[0].manufacturerID == 0x00206Bu); CHECK(got[1].manufacturerID == 0x006005u);''')

    add("C08-few-repeats", "C08", "upscaling from a very small width (2 or 3 bits) to 32 bits",
        "the bit repeat stops early, maximum does not map to maximum",
        [("inc/midi/types.h",
          "    while (repeat_value != 0)\n    {\n        result |= repeat_value;       // fill lower bits with repeat_value\n        repeat_value >>= repeat_bits; // move repeat bit sequence to next position\n    }",
          "    for (unsigned n = 0; n < 12; ++n)\n    {\n        result |= repeat_value;       // fill lower bits with repeat_value\n        repeat_value >>= repeat_bits; // move repeat bit sequence to next position\n    }")],
        '''for (int x = 2; x < 32; ++x) for (int y = x + 1; y <= 32; ++y)
        CHECK(upsample_x_to_ybit(uint32_t((1ull << x) - 1), x, y) == uint32_t((1ull << y) - 1));''')

    add("C10-shift-product", "C10", "a downward bend whose product is not a whole number of steps",
        "bend times sensitivity rounds towards minus infinity instead of truncating",
        [("inc/midi/types.h", "        result /= 2147483648;", "        result >>= 31;")],
        '''CHECK((pitch_bend{ uint32_t{ 0x7FFFFFFF } } * pitch_bend_sensitivity{ uint32_t{ 1000 } }).value == 0);
    CHECK((pitch_bend{ uint32_t{ 0x80000001 } } * pitch_bend_sensitivity{ uint32_t{ 1000 } }).value == 0);
    CHECK((pitch_bend{ uint32_t{ 0x7FF00001 } } * pitch_bend_sensitivity{ uint32_t{ 0x04000000 } }).value == -32767);''')

    add("C11-soft-note-on", "C11", "a MIDI 2 note-on with a velocity between 1 and 511",
        "a soft MIDI 2 note-on becomes a MIDI 1 note-on with velocity zero, which is a note-off",
        [("inc/midi/channel_voice_message.h", "if (vel.as_uint7() == 0)", "if (vel.value == 0)")],
        '''for (uint32_t v = 0; v < 0x10000; v += 37) {
        const auto m = make_midi2_note_on_message(1, 2, 60, velocity{ uint16_t(v) });
        auto r = as_midi1_channel_voice_message(midi2_channel_voice_message_view{ m });
        CHECK(r); CHECK(is_note_on_message(*r)); }''')

    add("C12-bank-msb", "C12", "a program change with a bank number of 8192 or more",
        "the topmost bank bit is lost in MIDI 2 program changes",
        [("inc/midi/midi2_channel_voice_message.h", "((bank & 0x3F80) << 1)", "((bank & 0x1F80) << 1)")],
        '''for (unsigned bank = 0; bank < 0x4000; bank += 5) { auto m = make_midi2_program_change_message(1, 2, 5, uint14_t(bank));
        CHECK(m.data[1] == (0x05000000u | ((bank >> 7) << 8) | (bank & 0x7F))); }''')

    add("C17-details-length", "C17", "profile details target data of 256 bytes or more",
        "the announced length of the profile details target data is truncated to eight bits",
        [("inc/midi/capability_inquiry.h",
          "    m.add_data(&p.byte1, 5);\n    m.add_uint7(target);\n    m.add_uint14(static_cast<uint14_t>(data_size));",
          "    m.add_data(&p.byte1, 5);\n    m.add_uint7(target);\n    m.add_uint14(static_cast<uint7_t>(data_size));")],
        '''for (size_t n : { size_t(3), size_t(200), size_t(300), size_t(16000) }) { std::vector<uint7_t> d(n, 0x11);
        auto m = ci::make_profile_details_reply(1, 2, ci::profile_id{ 1, 2, 3, 4, 5 }, 6, d.data(), d.size());
        auto v = ci::as<ci::profile_details_reply_view>(m); CHECK(v); CHECK(v->target_data_length() == n); }''')

    add("C18-profile-count-wrap", "C18", "a profile inquiry reply announcing more than 13,000 profiles in a short message",
        "the expected size wraps at 16 bits, so a truncated reply is accepted and its accessors read outside the message",
        [("src/capability_inquiry.cpp", "size_t expected_size = field_offsets::minimum_message_size;", "uint16_t expected_size = field_offsets::minimum_message_size;")],
        '''for (unsigned n : { 0u, 1u, 13107u, 13108u, 16000u }) { auto m = ci::make_profile_inquiry_reply(1, 2, std::vector<ci::profile_id>{}, std::vector<ci::profile_id>{});
        m.data[12] = n & 0x7F; m.data[13] = n >> 7; for (int i = 0; i < 30; ++i) m.data.push_back(0);
        CHECK(ci::profile_inquiry_reply_view::validate(m) == (n < 2)); }''')

    add("C19-dotted-number", "C19", "a header option whose value has digits and dots, such as a version",
        "option values such as 1.2.3 are written without quotes, the header is no longer valid JSON",
        [("src/capability_inquiry.cpp", "if ((s[0] < '0') || (s[0] > '9'))", "if (((s[0] < '0') || (s[0] > '9')) && (s[0] != '.'))")],
        '''CHECK(ci::property_exchange::make_rjson("resource", "X", { { "v", "1.2.3" } }) == "{\\"resource\\":\\"X\\",\\"v\\":\\"1.2.3\\"}");
    CHECK(ci::property_exchange::make_rjson("resource", "X", { { "v", "12" } }) == "{\\"resource\\":\\"X\\",\\"v\\":12}");''')

    add("C21-reset-offset", "C21", "a follower that has been given or has learnt a security offset and is then reset",
        "the security offset survives a reset, a reset follower does not behave like a new one",
        [("src/jitter_reduction_timestamps.cpp", "    m_security_offset = std::chrono::milliseconds(2);\n", "    if (m_security_offset < std::chrono::milliseconds(2))\n        m_security_offset = std::chrono::milliseconds(2);\n")],
        '''jr_clock_follower a, b; a.set_security_offset(std::chrono::milliseconds(20)); a.reset();
    CHECK(a.security_offset() == b.security_offset());
    a.set_security_offset(std::chrono::milliseconds(0)); a.reset(); CHECK(a.security_offset() == b.security_offset());''')

    add("C22-moved-vector", "C22", "the PMR configuration, a data vector moved into a SysEx together with a memory resource",
        "the given memory resource is ignored for a data vector, the data stays in the vector's own resource",
        [("inc/midi/sysex.h", "      , data(std::move(d) NIMIDI2_PMR_SYSEX_DATA_DATA_INITIALIZER_SUFFIX)", "      , data(std::move(d))")],
        '''std::pmr::monotonic_buffer_resource mr; sysex::data_type d(100, 5);
    sysex s{ 0x410000u, d, &mr }; CHECK(s.data.get_allocator().resource() == &mr); CHECK(s.data == d);''',
        std="-std=c++20 -DNIMIDI2_PMR_SYSEX_DATA=1")
    add("C06-stale-sysex", "C06", "a SysEx aborted by another status byte, then a complete SysEx, with a SysEx callback installed",
        "data of an aborted SysEx shows up in the next one",
        [("src/midi1_byte_stream.cpp", "        m_sysex.clear();\n        if (m_sysex.data.capacity() < 1024)\n            m_sysex.data.reserve(1024);",
          "        m_sysex.manufacturerID = 0;\n        if (m_sysex.data.capacity() < 1024)\n            m_sysex.data.reserve(1024);")],
        '''std::vector<sysex7> got; midi1_byte_stream_parser p{ [&](universal_packet) {}, [&](const sysex7& s) { got.push_back(s); } };
    for (uint8_t b : { 0xF0, 0x41, 1, 2, 3, 0x90, 60, 100, 0xF0, 0x42, 7, 8, 0xF7 }) p.feed(b);
    CHECK(got.size() == 1); CHECK((got[0] == sysex7{ 0x420000u, { 7, 8 } }));''')

    add("C06-big-block", "C06", "a block of more than 65535 bytes fed at once",
        "bytes beyond a multiple of 65536 in one block are dropped, bytewise feeding is not affected",
        [("inc/midi/midi1_byte_stream.h", "    feed(data, data + num_bytes);", "    feed(data, data + static_cast<uint16_t>(num_bytes));")],
        '''std::vector<uint8_t> in; for (int i = 0; i < 30000; ++i) { in.push_back(0x90); in.push_back(i & 0x7F); in.push_back(100); }
    size_t a = 0, b = 0; midi1_byte_stream_parser p{ [&](universal_packet) { ++a; } }, q{ [&](universal_packet) { ++b; } };
    p.feed(in.data(), in.size()); for (auto c : in) q.feed(c);
    CHECK(a == b); CHECK(a == 30000);''')

    add("C07-malformed-data", "C07", "a 7-bit data packet whose size field is larger than six",
        "a packet without MIDI 1 byte form converts to SysEx framing bytes",
        [("src/midi1_byte_stream.cpp", "        if (is_sysex7_packet(p))\n        {", "        if ((p.status() & 0xF0) <= data_status::sysex7_end)\n        {")],
        '''for (unsigned s = 0; s < 256; ++s) { universal_packet p{ 0x30000000u | (s << 16) | 0x0102u, 0x03040506u }; uint8_t r[16];
        auto n = to_midi1_byte_stream(p, r); CHECK(is_sysex7_packet(p) || n == 0); }''')

    add("C09-increment-top", "C09", "a pitch increment within half a step below +64 semitones",
        "the largest increments wrap to the most negative one",
        [("inc/midi/types.h", "        if (result <= uint32_t(std::numeric_limits<int32_t>::max()))\n            value = result;\n        else\n            value = std::numeric_limits<int32_t>::max();",
          "        value = static_cast<int32_t>(result);")],
        '''CHECK(pitch_increment{ 63.999999999 }.value == 0x7FFFFFFF); CHECK(pitch_increment{ 1.0 }.value == 1 << 25);''')

    add("C13-in-flags", "C13", "reading a packet from a stream whose numbers are afterwards read in decimal",
        "reading a packet leaves the stream in hexadecimal mode",
        [("src/universal_packet.cpp", "    iobase_restore_flags flag_restorer(in);\n", "")],
        '''std::stringstream s{ "20903c40 12" }; universal_packet p; int n = 0; s >> p >> n; CHECK(p.data[0] == 0x20903c40u); CHECK(n == 12);''')

    add("C14-sens-bank", "C14", "a registered controller with index 7 in a bank other than zero",
        "registered controllers of other banks are taken for per-note pitch bend sensitivity",
        [("inc/midi/midi2_channel_voice_message.h", "    return is_registered_controller_message(p) && (p.byte3() == 0) &&\n           (p.byte4() == registered_parameter_number::per_note_pitch_bend_sensitivity);",
          "    return is_registered_controller_message(p) &&\n           (p.byte4() == registered_parameter_number::per_note_pitch_bend_sensitivity);")],
        '''for (unsigned b = 0; b < 128; ++b) CHECK(is_per_note_pitch_bend_sensitivity_message(make_registered_controller_message(0, 1, b, 7, controller_value{ 0.5 })) == (b == 0));''')

    add("C14-info-groups", "C14", "a function block info packet with group count bits above the low four set",
        "the function block info view drops part of the spanned groups field",
        [("inc/midi/stream_message.h", "    constexpr uint8_t num_groups_spanned() const { return p.get_byte(5); }", "    constexpr uint8_t num_groups_spanned() const { return p.get_byte(5) & 0x0F; }")],
        '''for (unsigned g = 0; g <= 16; ++g) { universal_packet p{ 0xF0118003u, g << 16, 0, 0 }; auto v = as_function_block_info_view(p); CHECK(v); CHECK(v->num_groups_spanned() == g); }''')

    add("C15-flats", "C15", "a key signature with flats (negative, i.e. the top bit of the four bit field set)",
        "the sign of the key signature is lost",
        [("inc/midi/flex_data_message.h", "result.set_byte(4, (sharps_or_flats << 4) | (tonic_note & 0x0F));", "result.set_byte(4, ((sharps_or_flats & 0x07) << 4) | (tonic_note & 0x0F));")],
        '''for (int s = -7; s <= 7; ++s) { auto m = make_set_key_signature_message(0, packet_address::group, 0, uint4_t(s & 0xF), 3); CHECK(m.get_byte(4) == (((s & 0xF) << 4) | 3)); }''')

    add("C16-identity-revision", "C16", "a device identity whose software revision uses its topmost bit",
        "the top bit of the revision is lost in the device identity notification",
        [("inc/midi/stream_message.h", "((i.revision >> 21) & 0x0000007Fu);", "((i.revision >> 21) & 0x0000003Fu);")],
        '''for (uint32_t r : { 1u, 0x7FFFFFFu, 0x8000000u, 0xFFFFFFFu }) { device_identity i{ 0x002109u, 0x1234, 0x2345, r }; auto m = make_device_identity_message(i); CHECK(device_identity_view{ m }.identity().revision == r); }''')

    add("C16-name-17", "C16", "a function block name whose remainder after the first packet is a multiple of 13",
        "the last full piece of a long function block name is sent twice or dropped",
        [("inc/midi/stream_message.h", "        while (name.size() > 13)\n        {\n            sender(make_function_block_name_message(packet_format::cont, function_block, name.substr(0, 13)));\n            name.remove_prefix(13);\n        }\n\n        sender(make_function_block_name_message(packet_format::end, function_block, name));",
          "        const auto num_conts = name.size() / 13;\n        for (size_t n = 0; n < num_conts; ++n)\n        {\n            sender(make_function_block_name_message(packet_format::cont, function_block, name.substr(0, 13)));\n            name.remove_prefix(13);\n        }\n\n        if (!name.empty())\n            sender(make_function_block_name_message(packet_format::end, function_block, name));")],
        '''for (size_t n = 0; n < 80; ++n) { int ends = 0; std::string t(n, 'x'), r; send_function_block_name(2, t, [&](const stream_message& m) { function_block_name_view v{ m }; r += v.payload(); ends += (v.format() == packet_format::end) || (v.format() == packet_format::complete); }); CHECK(r == t); CHECK(ends == 1); }''')

    add("C18-nak-length", "C18", "a NAK announcing a text longer than the message",
        "a NAK with a truncated text is accepted, its text reaches beyond the message",
        [("inc/midi/capability_inquiry.h", "           (sx.data.size() >= field_offsets::message_data + sx.make_uint14(field_offsets::message_length)) &&\n           (sx.data[1] == 0x0D) && (sx.data[2] == subtype::nak) && (sx.data[3] >= message_version_2);",
          "           (sx.data.size() >= field_offsets::message_data + (sx.data[field_offsets::message_length] & 0x7Fu)) &&\n           (sx.data[1] == 0x0D) && (sx.data[2] == subtype::nak) && (sx.data[3] >= message_version_2);")],
        '''uint7_t d[5] = {}; auto m = ci::make_nak_message(1, 2, 0x7F, 3, 4, 5, d, "hello"); CHECK(ci::nak_view::validate(m));
    m.data[21] = 1; CHECK(!ci::nak_view::validate(m));''')

    add("C19-header-long", "C19", "a property exchange header longer than 127 bytes followed by chunk data",
        "the position of the chunk data is computed from a 7 bit header size",
        [("inc/midi/capability_inquiry.h", "    return sx.data.data() + field_offsets::chunk_data + header_size();", "    return sx.data.data() + field_offsets::chunk_data + sx.data[field_offsets::header_size];")],
        '''using namespace ci::property_exchange; for (size_t n : { size_t(5), size_t(127), size_t(128), size_t(400) }) { std::string h(n, 'h'), c = "body";
        auto m = make_property_data_message(ci::subtype::get_property_data_reply, 1, 2, header{ h }, 1, 1, chunk{ c });
        property_data_message_view v{ m }; CHECK(std::string((const char*)v.chunk_begin(), v.chunk_size()) == "body"); }''')

    add("C20-family-msb", "C20", "a device identity with a family or model of 128 or more appended to other data",
        "reading a device identity takes the family from the wrong position",
        [("src/sysex.cpp", "    result.family       = make_uint14(data_pos + 3);", "    result.family       = d[3] | (data[4] << 7);")],
        '''sysex7 s{ 0x7E0000u }; device_identity i{ 0x002109u, 0x1234, 0x0345, 0x1234567 };
    for (size_t n = 0; n < 5; ++n) { s.data.assign(n, 0x7F); s.add_device_identity(i); auto r = s.make_device_identity(n); CHECK(r.family == i.family); CHECK(r.model == i.model); CHECK(r.revision == i.revision); }''')

    add("C20-reply-3byte", "C20", "an identity reply of a manufacturer with a three-byte ID and a non-zero last revision byte",
        "an identity reply of such a manufacturer is written with a one-byte ID", [("src/universal_sysex.cpp", "    const bool threeByteManufacturerID = (sysex_id < 0x10000);", "    const bool threeByteManufacturerID = (sysex_id < 0x8000) && (sysex_id & 0xFF00);")],
        '''for (uint32_t id : { 0x410000u, 0x002109u, 0x000007u }) { universal_sysex::identity_reply r{ id, 1, 2, 3 }; universal_sysex::identity_reply_view v{ r }; CHECK(v.identity().manufacturer == id); CHECK(r.data.size() == (id < 0x10000 ? 14u : 12u)); }''')

    add("C21-late-clock", "C21", "a sender whose clock runs faster than ours for a while, then messages",
        "a clock received earlier than expected does not become the new reference, messages are scheduled late",
        [("src/jitter_reduction_timestamps.cpp", "    if (received < expected_receive_time)\n", "    if (received + m_jitter < expected_receive_time)\n")],
        '''using namespace std::chrono; jr_clock_follower f; auto t0 = jr_clock_follower::system_clock::now() + seconds(1);
    f.process_clock(t0, jr_timestamp_t(0)); f.process_clock(t0 + milliseconds(110), jr_timestamp_t(3125)); f.process_clock(t0 + milliseconds(195), jr_timestamp_t(6250));
    auto s = f.schedule_message(t0 + milliseconds(196), jr_timestamp_t(6250)); auto e = t0 + milliseconds(195) + f.security_offset();
    CHECK(s == e);''')

    add("C07-empty-end", "C07", "a SysEx7 message whose length is a multiple of six, so that the parser ends it with an empty end packet",
        "an end packet without payload converts to no bytes, the SysEx is never terminated",
        [("src/midi1_byte_stream.cpp", "        if (is_sysex7_packet(p))\n        {", "        if (is_sysex7_packet(p) && payload_bytes)\n        {")],
        '''for (size_t n = 1; n < 20; ++n) {
        std::vector<uint8_t> in{ 0xF0, 0x41 }; for (size_t i = 1; i < n; ++i) in.push_back(uint8_t(i)); in.push_back(0xF7);
        std::vector<uint8_t> out; midi1_byte_stream_parser p{ [&](universal_packet u) { uint8_t b[8]; auto k = to_midi1_byte_stream(u, b); out.insert(out.end(), b, b + k); } };
        p.feed(in.data(), in.size()); CHECK(out == in); }''')

    add("C07-tune-common", "C07", "a system message whose unused data bytes are not zero",
        "song select takes its data from the wrong byte if the other one is set",
        [("src/midi1_byte_stream.cpp", "                result[result_bytes] = p.get_byte(1 + result_bytes);", "                result[result_bytes] = p.get_byte(1 + result_bytes) | ((payload_bytes == 2) ? (p.get_byte(3) & 0x01) << result_bytes * 7 : 0);")],
        '''for (uint32_t d2 : { 0u, 2u, 1u }) { uint8_t b[8] = {}; universal_packet p{ 0x10F31200u | d2 }; CHECK(to_midi1_byte_stream(p, b) == 2); CHECK(b[0] == 0xF3); CHECK(b[1] == 0x12); }''')

    add("C09-pitch-top", "C09", "a double within half a step below 128 semitones",
        "a 7.9 pitch just below the top wraps to zero",
        [("inc/midi/types.h", "        auto result = std::round(d * (1 << fractional_bits));\n        value       = (result < 0x10000) ? static_cast<uint16_t>(result) : 0xFFFF;",
          "        value = static_cast<uint16_t>(static_cast<uint32_t>(std::round(d * (1 << fractional_bits))));")],
        '''for (double d : { 127.0, 127.99, 127.9985, 127.9995 }) { pitch_7_9 p(d); CHECK(std::fabs(p.as_double() - d) < 0.002); }''')

    add("C09-bend-negative", "C09", "the lowest pitch bend values read as double and rebuilt",
        "negative bends are scaled by the positive range, the lowest bend reads below -1",
        [("inc/midi/types.h", "        return (0x80000000 - value) / (-static_cast<double>(0x80000000));", "        return (0x80000000 - value) / (-static_cast<double>(0x7FFFFFFF));")],
        '''for (uint32_t v : { 0x80000000u, 0xFFFFFFFFu, 0x40000000u, 1u, 0u }) { pitch_bend p(v); const double d = p.as_double(); CHECK(d >= -1. && d <= 1.); }''')

    add("C15-empty-sysex8", "C15", "setting the payload size of a SysEx8 packet back to zero",
        "the stream ID is no longer counted in an emptied packet, its view is refused",
        [("inc/midi/extended_data_message.h", "    set_byte(1, (status() & 0xF0) + ((size + 1) & 0x0F));", "    set_byte(1, (status() & 0xF0) + (size ? ((size + 1) & 0x0F) : 0));")],
        '''auto p = make_sysex8_complete_packet(7, 3); p.add_payload_byte(0x55); CHECK(p.payload_size() == 1); p.set_payload_size(0);
    CHECK(p.payload_size() == 0); auto v = as_sysex8_packet_view(p); CHECK(v); CHECK(v->stream_id() == 7); CHECK(v->payload_size() == 0);''')

    add("C15-flex-utf8", "C15", "a flex data text with a non-ASCII character",
        "reading a flex data text stops at the first byte of a multi-byte character",
        [("inc/midi/flex_data_message.h", "        if (auto c = char(p.get_byte(b)))\n", "        if (auto c = static_cast<signed char>(p.get_byte(b)); c > 0)\n")],
        '''for (std::string s : { "abc", "", "Stra\xc3\x9f" "e", "\xe2\x99\xaf" }) { auto m = make_flex_data_text_message(1, packet_format::complete, packet_address::group, 0, 1, 2, s); CHECK(m.payload_as_string() == s); }''')

    add("C13-eq-last-word", "C13", "two 128-bit packets that differ only in their last word",
        "they compare equal",
        [("inc/midi/universal_packet.h", "        const auto len = size();\n        for (auto i = 0u; i < len; ++i)\n        {\n            if (data[i] != o.data[i])",
          "        const auto len = size() & 3u ? size() : 3u;\n        for (auto i = 0u; i < len; ++i)\n        {\n            if (data[i] != o.data[i])")],
        '''universal_packet a{ 0xF0030001u, 1, 2, 3 }, b{ 0xF0030001u, 1, 2, 4 }, c{ 0xF0030001u, 1, 2, 3 }; CHECK(a == c); CHECK(a != b); CHECK(!(a == b));''')

    add("C13-text-group", "C13", "reading a packet into a packet object that was used before, from text ending with the packet",
        "reading a packet keeps the size of the previous content",
        [("src/universal_packet.cpp", "    in >> std::hex >> p.data[0];\n    if (in.good())\n    {\n        const auto num_words = p.size();", "    const auto prev_words = p.size();\n    in >> std::hex >> p.data[0];\n    if (in.good())\n    {\n        const auto num_words = p.group() == 15 ? prev_words : p.size();")],
        '''universal_packet a{ 0x4f904000u, 0x12345678u }, b{ 0x20904050u }; std::stringstream s; s << a << ' '; s >> b; CHECK(a == b);''')

    add("C08-14-lsb", "C08", "a 14-bit value above center with particular low bits",
        "the repeated bits of 14-bit values are misplaced by one",
        [("inc/midi/types.h", "        result |= (bits << 5u) | (bits >> 8u);\n    }\n\n    return result;\n}\n\n//--------------------------------------------------------------------------\n\nconstexpr uint32_t upsample_x",
          "        result |= (bits << 5u) | (bits >> 7u);\n    }\n\n    return result;\n}\n\n//--------------------------------------------------------------------------\n\nconstexpr uint32_t upsample_x")],
        '''for (uint32_t v = 0; v < 16384; ++v) CHECK(upsample_14_to_32bit(uint14_t(v)) == upsample_x_to_ybit(v, 14, 32));''')

    add("C10-float-detune", "C10", "a detune amount that is not representable as float",
        "the detune amount loses precision before it is added",
        [("inc/midi/types.h", "        pitch_7_25 inc(detune);\n", "        const pitch_7_25 inc(static_cast<float>(detune));\n")],
        '''for (double d : { 1.5, 12.0, 100.0 + 1. / 1024, 64.0 + 3. / 33554432. }) { pitch_7_25 p(uint32_t(0)); CHECK((p + d).value == uint32_t(std::llround(d * 33554432.))); }''')

    add("C21-reset-jitter", "C21", "a follower that has seen jitter, is reset, and then sees less jitter than before the reset",
        "the jitter statistics survive a reset",
        [("src/jitter_reduction_timestamps.cpp", "    m_jitter          = std::chrono::milliseconds(0);\n", "")],
        '''using namespace std::chrono; auto t0 = jr_clock_follower::system_clock::now() + seconds(1);
    jr_clock_follower f, g; f.process_clock(t0, jr_timestamp_t(0)); f.process_clock(t0 + milliseconds(150), jr_timestamp_t(3125)); f.reset();
    for (auto x : { &f, &g }) { x->process_clock(t0 + seconds(1), jr_timestamp_t(0)); x->process_clock(t0 + milliseconds(1120), jr_timestamp_t(3125)); }
    CHECK(f.security_offset() == g.security_offset()); CHECK(f.schedule_message(t0 + milliseconds(1130), jr_timestamp_t(3500)) == g.schedule_message(t0 + milliseconds(1130), jr_timestamp_t(3500)));''')

    add("C11-reserved-in-note", "C11", "a MIDI 2 program change whose option flags other than bank valid are set, or notes of velocity just below a step",
        "a program change with reserved option bits is refused",
        [("inc/midi/channel_voice_message.h", "        if ((m.byte4() & 0b1) == 0) // bank valid bit clear?", "        if (m.byte4() == 0) // bank valid bit clear?")],
        '''for (uint32_t f : { 0u, 2u, 0x40u }) { universal_packet p{ 0x42C30000u | f, 0x11000000u }; auto m = as_midi1_channel_voice_message(midi2_channel_voice_message_view{ p }); CHECK(m); CHECK(m->data[0] == 0x22C31100u); }''')

    add("C04-lowered", "C04", "a limit lowered between two messages",
        "the collector keeps accepting up to the capacity of the earlier limit",
        [("src/sysex_collector.cpp", "            if ((m_max_sysex_data_size > 0) && (m_sysex7.data.size() >= m_max_sysex_data_size))\n", "            if ((m_max_sysex_data_size > 0) && (m_sysex7.data.size() >= std::max(m_max_sysex_data_size, size_t(m_sysex7.data.size() < m_sysex7.data.capacity() ? m_sysex7.data.capacity() : 0))))\n")],
        '''std::vector<sysex7> got; sysex7_collector c{ [&](const sysex7& x) { got.push_back(x); } };
    auto msg = [](size_t n) { sysex7 s{ 0x410000u }; s.data.assign(n, 0x11); return s; };
    c.set_max_sysex_data_size(100); for (auto& p : as_sysex7_packets(msg(90), 0)) c.feed(p); CHECK(got.size() == 1);
    c.set_max_sysex_data_size(20); for (auto& p : as_sysex7_packets(msg(50), 0)) c.feed(p); CHECK(got.size() == 1);
    for (auto& p : as_sysex7_packets(msg(20), 0)) c.feed(p); CHECK(got.size() == 2);''')

    add("C16-multi-continue", "C16", "a function block name of at least 40 bytes",
        "the second and later continue packets of a function block name lose the block number",
        [("inc/midi/stream_message.h", "        while (name.size() > 13)\n        {\n            sender(make_function_block_name_message(packet_format::cont, function_block, name.substr(0, 13)));\n            name.remove_prefix(13);",
          "        uint7_t block = function_block;\n        while (name.size() > 13)\n        {\n            sender(make_function_block_name_message(packet_format::cont, block, name.substr(0, 13)));\n            name.remove_prefix(13);\n            block = 0;")],
        '''for (size_t n : { size_t(5), size_t(20), size_t(39), size_t(60) }) { std::string t(n, 'x'), got; bool ok = true; send_function_block_name(5, t, [&](const stream_message& m) { auto v = as_function_block_name_view(m); ok = ok && v && v->function_block() == 5; if (v) got += v->payload(); }); CHECK(ok); CHECK(got == t); }''')

    add("C09-single-precision", "C09", "a pitch given as a double that no float represents",
        "pitch_7_25(double) rounds its argument to single precision first",
        [("inc/midi/types.h", "        auto result = std::round(d * float(1 << fractional_bits));", "        auto result = std::round(static_cast<float>(d) * float(1 << fractional_bits));")],
        '''for (uint32_t v : { 0u, 0x80000000u, 0x3C000000u, 0x7B000001u, 0x12345679u }) CHECK(pitch_7_25(pitch_7_25{ v }.as_double()).value == v);''')

    add("C09-denormals", "C09", "controller values below about 1/2^20 of the range given as float or double",
        "small positive arguments are flushed to zero",
        [("inc/midi/types.h", "        if (f <= F(0))\n            return 0;\n\n        if (f >= F(1))", "        if (f <= F(1e-6)) // flush denormals\n            return 0;\n\n        if (f >= F(1))")],
        '''for (uint32_t v : { 0u, 0x80000000u, 0xFFFFFFFFu, 5000u, 3000u, 17u }) CHECK(controller_value(controller_value{ v }.as_double()).value == v);''')

    add("C02-last-full", "C02", "a SysEx8 message whose last packet is exactly full",
        "the last packet is sent as a continue packet and the message never ends",
        [("inc/midi/sysex.h", "            p = (dataBytesLeft <= max_payload_size) ? make_sysex8_end_packet", "            p = (dataBytesLeft < max_payload_size) ? make_sysex8_end_packet")],
        '''for (size_t n = 0; n < 60; ++n) { sysex8 s{ 0x410000u }; for (size_t i = 0; i < n; ++i) s.data.push_back(uint8_t(i * 37));
        std::vector<sysex8> got; sysex8_collector c{ [&](const sysex8& x, uint8_t) { got.push_back(x); } };
        for (auto& p : as_sysex8_packets(s, 4, 3)) c.feed(p); CHECK(got.size() == 1); CHECK(got[0] == s); }''')

    add("C03-sysex8-id-state", "C03", "a SysEx8 message aborted after the first byte of its manufacturer field, then a new message",
        "the manufacturer state of the aborted message is applied to the next one",
        [("src/sysex_collector.cpp", "    m_state                 = packet_format::start;\n    m_manufacturer_id_state = detect;", "    m_state                 = packet_format::start;\n    if (m_manufacturer_id_state == done)\n        m_manufacturer_id_state = detect;")],
        '''std::vector<sysex8> got; sysex8_collector c{ [&](const sysex8& x, uint8_t) { got.push_back(x); } };
    sysex8 s{ 0x002109u, { 1, 2, 3 } };
    for (auto& p : as_sysex8_packets(s, 4, 3)) c.feed(p); CHECK(got.size() == 1); CHECK(got[0] == s);
    auto st = make_sysex8_start_packet(4, 3); st.add_payload_byte(0x80); c.feed(st);
    sysex8 t{ 0x410000u, { 4, 5 } };
    for (auto& p : as_sysex8_packets(t, 4, 3)) c.feed(p); CHECK(got.size() == 2); CHECK(got[1] == t);''')

    add("C06-system-reset", "C06", "a System Reset real-time byte in the middle of a channel message, running status or SysEx",
        "the message in progress and running status are lost",
        [("src/midi1_byte_stream.cpp", "        m_packet_callback(make_system_message(m_group, byte));\n    }\n", "        m_packet_callback(make_system_message(m_group, byte));\n    }\n\n    if (byte == system_status::reset)\n        reset();\n")],
        '''auto run = [](std::vector<uint8_t> b) { std::vector<universal_packet> r; midi1_byte_stream_parser p{ [&](universal_packet u) { if (u.status() < 0xF8) r.push_back(u); } }; p.feed(b.data(), b.size()); return r; };
    CHECK(run({ 0x90, 0x40, 0x50 }) == run({ 0x90, 0xF8, 0x40, 0x50 })); CHECK(run({ 0x90, 0x40, 0x50, 0x41, 0x51 }) == run({ 0x90, 0x40, 0x50, 0xFF, 0x41, 0x51 }));''')

    add("C05-stray-eox", "C05", "an End of Exclusive byte outside of a SysEx followed by data bytes",
        "running status survives a system common status byte",
        [("src/midi1_byte_stream.cpp", "    if (byte == 0xF0) // SysEx start\n", "    if (byte == 0xF7) // nothing to end\n    {\n        return;\n    }\n    else if (byte == 0xF0) // SysEx start\n")],
        '''std::vector<universal_packet> r; midi1_byte_stream_parser p{ [&](universal_packet u) { r.push_back(u); } };
    for (uint8_t b : { 0x90, 0x40, 0x50, 0xF7, 0x41, 0x51 }) p.feed(b); CHECK(r.size() == 1);
    for (uint8_t b : { 0x90, 0x40, 0x50, 0xF4, 0x41, 0x51 }) p.feed(b); CHECK(r.size() == 2);''')

    add("C05-disabled-sysex", "C05", "callbacks disabled while a SysEx is received in packets and enabled again before its end",
        "a packet of the part received while disabled is kept back and delivered late",
        [("src/midi1_byte_stream.cpp", "    if (m_invoke_callbacks)\n    {\n        m_sysex_callback(m_sysex);\n    }\n    m_sysex.clear();", "    m_sysex_callback(m_sysex);\n    m_sysex.clear();")],
        '''unsigned n = 0; midi1_byte_stream_parser p{ [](universal_packet) {}, [&](const sysex7&) { ++n; } };
    for (uint8_t b : { 0xF0, 0x41, 0x50, 0xF7 }) p.feed(b); CHECK(n == 1);
    p.enable_callbacks(false); for (uint8_t b : { 0xF0, 0x41, 0x50, 0xF7 }) p.feed(b); CHECK(n == 1);
    p.enable_callbacks(true); for (uint8_t b : { 0xF0, 0x41, 0x50 }) p.feed(b); p.enable_callbacks(false); p.feed(0xF7); CHECK(n == 1);''')

    add("C11-hires-prefix", "C11", "the high resolution velocity prefix controller (88) in a MIDI 1 stream",
        "the reserved controller is translated instead of refused",
        [("inc/midi/channel_voice_message.h", "        case control_change::data_entry_lsb:\n        case control_change::hi_res_velocity_prefix:\n        case control_change::nrpn_lsb:\n        case control_change::nrpn_msb:\n        case control_change::rpn_lsb:\n        case control_change::rpn_msb:\n            break;\n        default:\n            return make_midi2_control_change_message(", "        case control_change::data_entry_lsb:\n        case control_change::nrpn_lsb:\n        case control_change::nrpn_msb:\n        case control_change::rpn_lsb:\n        case control_change::rpn_msb:\n            break;\n        default:\n            return make_midi2_control_change_message(")],
        '''auto t = [](uint8_t c) { auto m = make_midi1_control_change_message(1, 2, c, controller_value{ uint7_t{ 3 } }); return as_midi2_channel_voice_message(*as_midi1_channel_voice_message_view(m)).has_value(); };
    CHECK(t(7)); CHECK(!t(0)); CHECK(!t(6)); CHECK(!t(88)); CHECK(!t(98));''')

    add("C21-order", "C21", "a clock arriving before the scheduled time of the last message",
        "the clock pulls the order guard back and the next message is scheduled before the previous one",
        [("src/jitter_reduction_timestamps.cpp", "    if (received > m_message_time) // ensure that message order is preserved\n    {\n        m_message_time = received;\n    }\n", "    // ensure that message order is preserved\n    m_message_time = received;\n")],
        '''jr_clock_follower f; using namespace std::chrono; auto t = jr_clock_follower::system_clock::now() + hours(1);
    f.process_clock(t, jr_timestamp_t(100)); auto a = f.schedule_message(t + milliseconds(1), jr_timestamp_t(4000));
    f.process_clock(t + milliseconds(2), jr_timestamp_t(160)); auto b = f.schedule_message(t + milliseconds(3), jr_timestamp_t(200)); CHECK(b >= a);''')

    add("C22-capacity-ctor", "C22", "the PMR configuration, a SysEx constructed with a capacity and a memory resource",
        "the data comes from the default memory resource",
        [("inc/midi/sysex.h", "    sysex(manufacturer_t manufacturer, size_t capacity NIMIDI2_PMR_SYSEX_DATA_ARG)\n      : manufacturerID(manufacturer)\n      , data(NIMIDI2_PMR_SYSEX_DATA_DATA_INITIALIZER)\n", "    sysex(manufacturer_t manufacturer, size_t capacity NIMIDI2_PMR_SYSEX_DATA_ARG)\n      : manufacturerID(manufacturer)\n")],
        '''char buf[4096]; std::pmr::monotonic_buffer_resource mr(buf, sizeof buf); sysex7 s{ manufacturer_t(0x410000), size_t(100), &mr };
    for (int i = 0; i < 50; ++i) s.data.push_back(uint8_t(i)); auto p = reinterpret_cast<char*>(s.data.data()); CHECK(p >= buf && p < buf + sizeof buf);''',
        std="-std=c++17 -DNIMIDI2_PMR_SYSEX_DATA=1", pre="#include <memory_resource>\n")

    add("C13-reserved-size", "C13", "a packet of the reserved 96 bit message type 0xC",
        "its size is reported as two words, so its last word is neither compared nor printed",
        [("inc/midi/universal_packet.h", "{ 1, 1, 1, 2, 2, 4, 1, 1, 2, 2, 2, 3, 3, 4, 4, 4 }", "{ 1, 1, 1, 2, 2, 4, 1, 1, 2, 2, 2, 3, 2, 4, 4, 4 }")],
        '''CHECK(universal_packet(0xB0000000u, 1, 2) != universal_packet(0xB0000000u, 1, 3)); CHECK(universal_packet(0xC0000000u, 1, 2) != universal_packet(0xC0000000u, 1, 3));''')

    add("C01-continue-group", "C01", "a SysEx7 message of at least four packets on a group other than zero",
        "continue packets are sent on group zero",
        [("inc/midi/sysex.h", "make_sysex7_end_packet(group) : make_sysex7_continue_packet(group);", "make_sysex7_end_packet(group) : make_sysex7_continue_packet();")],
        '''for (unsigned g : { 0u, 5u }) for (size_t n : { size_t(3), size_t(10), size_t(40) }) { sysex7 s{ 0x410000u }; s.data.assign(n, 1); for (auto& p : as_sysex7_packets(s, uint8_t(g))) CHECK(p.group() == g); }''')

    add("C10-increment-floor", "C10", "two negative pitch increments whose sum is below the range",
        "the in-place sum stops one step above the minimum",
        [("inc/midi/types.h", "    value = static_cast<int32_t>(std::clamp(int64_t(value) + inc.value,\n                                            int64_t(std::numeric_limits<int32_t>::min()),", "    value = static_cast<int32_t>(std::clamp(int64_t(value) + inc.value,\n                                            -int64_t(std::numeric_limits<int32_t>::max()),")],
        '''pitch_increment a{ int32_t(-2000000000) }, b{ int32_t(-2000000000) }; auto c = a + b; a += b; CHECK(a == c); CHECK(a.value == std::numeric_limits<int32_t>::min());''')

    add("C04-sysex8-one-more", "C04", "a SysEx8 message with exactly one data byte more than the limit",
        "the message is delivered although it exceeds the limit",
        [("src/sysex_collector.cpp", "            if ((m_max_sysex_data_size > 0) && (m_sysex8.data.size() >= m_max_sysex_data_size))\n", "            if ((m_max_sysex_data_size > 0) && (m_sysex8.data.size() > m_max_sysex_data_size))\n")],
        '''for (size_t n = 0; n < 60; ++n) { unsigned got = 0; sysex8_collector c{ [&](const sysex8&, uint8_t) { ++got; } }; c.set_max_sysex_data_size(30);
        sysex8 s{ 0x410000u }; s.data.assign(n, 0x81); for (auto& p : as_sysex8_packets(s, 1, 0)) c.feed(p); CHECK(got == (n <= 30 ? 1u : 0u)); }''')

    add("C19-negative-option", "C19", "a header option with a negative integer value",
        "the value is sent as a string",
        [("src/capability_inquiry.cpp", "        while (!s.empty())\n        {\n            if ((s[0] < '0') || (s[0] > '9'))\n                return false;\n            s.remove_prefix(1);\n        }\n        return true;", "        while (!s.empty())\n        {\n            if ((s[0] < '0') || (s[0] >= '9'))\n                return false;\n            s.remove_prefix(1);\n        }\n        return true;")],
        '''CHECK(ci::property_exchange::make_rjson("resource", "X", { { "a", "120" } }) == "{\\"resource\\":\\"X\\",\\"a\\":120}"); CHECK(ci::property_exchange::make_rjson("resource", "X", { { "a", "-390" } }) == "{\\"resource\\":\\"X\\",\\"a\\":-390}");''')

    add("C20-uint14-insert", "C20", "a 28 bit number appended after other data, with bits in its third byte",
        "make_uint28 reads the third byte with a wrong mask",
        [("inc/midi/sysex.h", "    return data[data_pos] | (data[data_pos + 1] << 7) | (data[data_pos + 2] << 14) | (data[data_pos + 3] << 21);", "    return make_uint14(data_pos) | ((data[data_pos + 2] & 0x3F) << 14) | (data[data_pos + 3] << 21);")],
        '''for (uint32_t v : { 0u, 0x1234u, 0xFFFu, 0xFFFFFFFu, 0x100000u }) { sysex7 s{ 0x7E0000u }; s.add_uint7(5); s.add_uint28(v); CHECK(s.make_uint28(1) == v); }''')

    add("C16-instance-id-15", "C16", "a product instance ID of exactly fifteen characters",
        "the last character is lost",
        [("inc/midi/stream_message.h", "    if (product_instance_id.length() <= 14)\n", "    if (product_instance_id.length() <= 15)\n")],
        '''for (size_t n = 0; n <= 16; ++n) { std::string t(n, 'x'), got; send_product_instance_id(t, [&](const stream_message& m) { got += as_product_instance_id_view(m)->payload(); }); CHECK(got == t); }''')

    add("C18-chunk-size", "C18", "a property exchange message whose announced chunk is up to six bytes longer than the message",
        "the message is accepted and its chunk reaches behind its end",
        [("src/capability_inquiry.cpp", "        return (min_message_size + header_bytes + chunk_bytes <= sx.data.size());", "        return (size_t(field_offsets::header_data) + header_bytes + chunk_bytes <= sx.data.size());")],
        '''std::vector<uint8_t> d(20, 1); auto m = ci::make_set_property_data_inquiry(1, 2, "X", 1, 1, ci::property_exchange::chunk{ d.data(), d.size() }, 1);
    CHECK(ci::property_exchange::property_data_message_view::validate(m)); for (int i = 0; i < 10; ++i) { m.data.pop_back(); CHECK(!ci::property_exchange::property_data_message_view::validate(m)); }''')


    add("C12-attribute-8bit", "C12", "a MIDI 2 note-on with a manufacturer attribute type above 127",
        "the attribute type of a note-on is reduced to seven bits",
        [("inc/midi/midi2_channel_voice_message.h", "    return { group,     channel_voice_status::note_on,\n             channel,   note_nr,\n             attribute, static_cast", "    return { group,     channel_voice_status::note_on,\n             channel,   note_nr,\n             static_cast<uint7_t>(attribute & 0x7F), static_cast")],
        '''auto m = make_midi2_note_on_message(1, 2, 60, velocity{ uint16_t{ 5 } }, 0x93, 0x1234); CHECK(get_midi2_note_attribute(m) == 0x93); CHECK(get_midi2_note_attribute_data(m) == 0x1234);''')

    add("C12-per-note-index", "C12", "an assignable per-note controller with an index above 127",
        "the controller index is reduced to seven bits",
        [("inc/midi/midi2_channel_voice_message.h", "channel_voice_status::assignable_per_note_controller, channel, note_nr, controller, v.value", "channel_voice_status::assignable_per_note_controller, channel, note_nr, uint8_t(controller & 0x7F), v.value")],
        '''for (int i : { 1, 127, 128, 255 }) CHECK(get_per_note_controller_index(make_assignable_per_note_controller_message(1, 2, 60, uint8_t(i), controller_value{ 5u })) == i);''')

    add("C12-rel-zero", "C12", "a relative controller with the most negative increment",
        "the most negative increment is replaced by its neighbour",
        [("inc/midi/midi2_channel_voice_message.h", "             channel_voice_status::relative_assignable_controller,\n             channel,\n             static_cast<uint7_t>(bank & 0x7F),\n             static_cast<uint7_t>(index & 0x7F),\n             uint32_t(inc.value) };",
          "             channel_voice_status::relative_assignable_controller,\n             channel,\n             static_cast<uint7_t>(bank & 0x7F),\n             static_cast<uint7_t>(index & 0x7F),\n             uint32_t(inc.value < -0x7FFFFFFF ? -0x7FFFFFFF : inc.value) };")],
        '''CHECK(make_relative_assignable_controller_message(0, 0, 1, 2, controller_increment{ std::numeric_limits<int32_t>::min() }).data[1] == 0x80000000u); CHECK(make_relative_assignable_controller_message(0, 0, 1, 2, controller_increment{ -1 }).data[1] == 0xFFFFFFFFu);''')

    add("C12-pitch-attr-off", "C12", "a MIDI 2 note-on with an attribute other than pitch 7.9 whose type contains its bits",
        "the attribute data of other attribute types is taken for a pitch",
        [("inc/midi/channel_voice_message.h", "((p.status() & 0xF0) == 0x90) && (p.byte4() == 0x03))", "((p.status() & 0xF0) == 0x90) && ((p.byte4() & 0x7F) == 0x03))")],
        '''auto a = make_midi2_note_on_message(1, 2, 60, velocity{ uint16_t{ 5 } }, 0x83, 0x1234); CHECK(get_note_pitch(a) == pitch_7_9{ note_nr_t{ 60 } });''')

    add("C16-blocks-32", "C16", "an endpoint with 32 function blocks",
        "the number of function blocks wraps to zero",
        [("inc/midi/stream_message.h", "(static_function_blocks ? 0x80u : 0x00u) | num_function_blocks);", "(static_function_blocks ? 0x80u : 0x00u) | (num_function_blocks & 0x1F));")],
        '''for (int n : { 1, 31, 32 }) { auto m = make_endpoint_info_message(uint8_t(n), true, 3, 0); CHECK(as_endpoint_info_view(m)->num_function_blocks() == n); }''')

    add("C16-name-block", "C16", "the name of a function block with a number of 16 or more, longer than 13 characters",
        "continued packets of a function block name carry the number of another block",
        [("inc/midi/stream_message.h", "            sender(make_function_block_name_message(packet_format::cont, function_block, name.substr(0, 13)));", "            sender(make_function_block_name_message(packet_format::cont, function_block & 0xF, name.substr(0, 13)));")],
        '''std::vector<universal_packet> ps; send_function_block_name(20, std::string(50, 'x'), [&](const universal_packet& p) { ps.push_back(p); }); CHECK(ps.size() == 4); for (auto& p : ps) CHECK(as_function_block_name_view(p)->function_block() == 20);''')

    add("C17-ack-text", "C17", "an acknowledgement with a text of more than 127 characters",
        "the text length of an ACK loses its upper bits",
        [("inc/midi/capability_inquiry.h", "    auto m = message::make_with_payload_size(10 + msg.size(), subtype::ack, source_muid, destination_muid, device_id);\n    m.data.insert(m.data.end(), d, d + sizeof(d));\n    m.add_uint14(static_cast<uint14_t>(msg.size()));",
          "    auto m = message::make_with_payload_size(10 + msg.size(), subtype::ack, source_muid, destination_muid, device_id);\n    m.data.insert(m.data.end(), d, d + sizeof(d));\n    m.add_uint7(static_cast<uint7_t>(msg.size() & 0x7F));\n    m.add_uint7(0);")],
        '''uint7_t det[5] = { 1, 2, 3, 4, 5 }; std::string t(200, 'x'); auto m = ci::make_ack_message(1, 2, 3, 0x34, 1, 2, det, t); auto v = ci::as<ci::ack_view>(m); CHECK(bool(v)); CHECK(v->message() == t);''')

    add("C17-set-destination", "C17", "changing the destination MUID of a message to a smaller one",
        "bits of the old destination stay set",
        [("src/capability_inquiry.cpp", "    data[offset_of_dmuid + 3] = static_cast<uint7_t>((m >> 21) & 0x7F);", "    if (m >> 21)\n        data[offset_of_dmuid + 3] = static_cast<uint7_t>((m >> 21) & 0x7F);")],
        '''auto m = ci::make_profile_inquiry_message(1, 0x0FFFFFFF, 0x7F); m.set_destination_muid(5); CHECK(m.destination_muid() == 5);''')

    add("C18-id-view-5", "C18", "a set-profile message truncated within its channel count",
        "the message is accepted as profile destination",
        [("inc/midi/capability_inquiry.h", "           (sx.data.size() >= field_offsets::profile_id + 7u) && (sx.data[1] == 0x0D) &&\n           (sx.data[2] >= subtype::set_profile_on) && (sx.data[2] <= subtype::profile_disabled);", "           (sx.data.size() >= field_offsets::profile_id + 6u) && (sx.data[1] == 0x0D) &&\n           (sx.data[2] >= subtype::set_profile_on) && (sx.data[2] <= subtype::profile_disabled);")],
        '''auto m = ci::make_profile_on_request(1, 2, ci::profile_id{ 1, 2, 3, 4, 5 }, { 0x7F, 3 }); CHECK(ci::profile_destination_view::validate(m)); m.data.pop_back(); CHECK(!ci::profile_destination_view::validate(m));''')

    add("C20-id-three-byte", "C20", "a device identity with a three-byte manufacturer ID whose last byte has bit 6 set",
        "the manufacturer of the identity is read back without its top bit",
        [("src/sysex.cpp", "(uint14_t(d[1]) << 8) | d[2];", "(uint14_t(d[1]) << 8) | (d[2] & 0x3F);")],
        '''sysex7 s{ 0x7E0000u }; s.add_device_identity({ 0x00216F, 3, 4, 5 }); CHECK(s.make_device_identity(0).manufacturer == 0x00216F);''')

    add("C19-int-min", "C19", "a status code that is negative and option texts that are numbers with more than 18 digits",
        "very long integers are written as strings",
        [("src/capability_inquiry.cpp", "        if (s.empty() || ((s[0] == '0') && (s.size() > 1)))", "        if (s.empty() || (s.size() > 18) || ((s[0] == '0') && (s.size() > 1)))")],
        '''auto h = ci::property_exchange::make_rjson("resource", std::string_view{ "X" }, { { "a", "1234567890123456789" } }); CHECK(h == "{\\"resource\\":\\"X\\",\\"a\\":1234567890123456789}");''')

    add("C21-stats-early", "C21", "two clocks in a row that arrive earlier than expected",
        "the jitter statistic forgets the earlier early clock",
        [("src/jitter_reduction_timestamps.cpp", "        m_jitter -= jitter;\n        recalc", "        m_jitter = std::max(m_jitter, -jitter);\n        recalc")],
        '''jr_clock_follower f; using tp = jr_clock_follower::time_point; using std::chrono::milliseconds; auto t = tp{} + milliseconds(100000);
    f.process_clock(t + milliseconds(20), jr_timestamp_t(0)); f.process_clock(t + milliseconds(100 + 10), jr_timestamp_t(3125)); f.process_clock(t + milliseconds(200), jr_timestamp_t(6250)); 
    CHECK(f.jitter() >= milliseconds(19));''')

    add("C11-bend-lsb", "C11", "a MIDI 2 pitch bend just below the center",
        "the bend is rounded up to the center",
        [("inc/midi/channel_voice_message.h", "        return make_midi1_pitch_bend_message(m.group(), m.channel(), pitch_bend{ m.data() });", "        return make_midi1_pitch_bend_message(m.group(), m.channel(), pitch_bend{ (m.data() > 0x7FFF0000u && m.data() < 0x80000000u) ? 0x80000000u : m.data() });")],
        '''auto m = make_midi2_pitch_bend_message(1, 2, pitch_bend{ 0x7FFFFFFFu }); auto r = as_midi1_channel_voice_message(*as_midi2_channel_voice_message_view(m)); CHECK(bool(r)); CHECK(r->data[0] == 0x21E27F3Fu);''')


    add("C23-shared-count", "C23", "sending one SysEx from inside the sender of another",
        "the outer message ends or continues according to the inner one's length",
        [("inc/midi/sysex.h",
          "    size_t dataBytesLeft = sysex.data.size();\n    for (auto b : sysex.data)\n    {\n        p.add_payload_byte(b);\n        --dataBytesLeft;\n\n        if (p.payload_size() == max_payload_size) // packet full?\n        {\n            sender(p);\n\n            p =\n",
          "    thread_local size_t dataBytesLeft;\n    dataBytesLeft = sysex.data.size();\n    for (auto b : sysex.data)\n    {\n        p.add_payload_byte(b);\n        --dataBytesLeft;\n\n        if (p.payload_size() == max_payload_size) // packet full?\n        {\n            sender(p);\n\n            p =\n")],
        '''sysex7 a{ 0x3E0000u }, b{ 0x410000u }; for (int i = 0; i < 20; ++i) { a.data.push_back(uint8_t(i)); b.data.push_back(uint8_t(100 - i)); }
    std::vector<sysex7> got; sysex7_collector ca{ [&](const sysex7& x) { got.push_back(x); } };
    std::function<void(const universal_packet&)> inner = [&](const universal_packet& p) {}, outer = [&](const universal_packet& p) { ca.feed(p); send_sysex7(b, 1, inner); };
    send_sysex7(a, 0, outer); CHECK(got.size() == 1); CHECK(got[0] == a);''', pre="#include <functional>\n")

    add("C23-shared-id-count", "C23", "two collectors receiving messages at the same time, one inside its manufacturer ID",
        "the progress within the manufacturer ID is shared by all collectors",
        [("inc/midi/sysex_collector.h", "    uint8_t  m_manufacturerIDBytesRead{ 0 };", "    static inline uint8_t m_manufacturerIDBytesRead{ 0 };")],
        '''std::vector<sysex7> got; auto cb = [&](const sysex7& x) { got.push_back(x); }; sysex7_collector a{ cb }, b{ cb };
    sysex7 s{ 0x3E0000u }; for (int i = 0; i < 8; ++i) s.data.push_back(uint8_t(i)); auto ps = as_sysex7_packets(s, 0);
    a.feed(ps[0]); b.feed(ps[0]); b.feed(ps[1]); a.feed(ps[1]); CHECK(got.size() == 2); CHECK(got[0] == s); CHECK(got[1] == s);''')

    add("C23-shared-sysex", "C23", "two byte stream parsers in the middle of a SysEx at the same time",
        "the parsers collect into the same message",
        [("inc/midi/midi1_byte_stream.h", "    sysex7           m_sysex;", "    static inline sysex7 m_sysex; // keep the capacity")],
        '''std::vector<sysex7> got; auto cb = [&](const sysex7& x) { got.push_back(x); }; auto none = [](universal_packet) {}; midi1_byte_stream_parser a{ none, cb }, b{ none, cb };
    const uint8_t m[] = { 0xF0, 0x3E, 1, 2, 3, 4, 0xF7 };
    for (auto x : m) { a.feed(x); b.feed(x); } CHECK(got.size() == 2); CHECK(got[0] == got[1]); CHECK(got[0].data.size() == 4);''')

    add("C23-shared-jitter", "C23", "two clock followers, one with a jittery connection",
        "the jitter of one connection delays the other's messages",
        [("inc/midi/jitter_reduction_timestamps.h", "    duration m_jitter{ 0 };  ", "    static inline duration m_jitter{ 0 };  ")],
        '''using tp = jr_clock_follower::time_point; using std::chrono::milliseconds; auto t = jr_clock_follower::system_clock::now() + milliseconds(100000);
    jr_clock_follower f, g; f.process_clock(t, jr_timestamp_t(0)); f.process_clock(t + milliseconds(100 + 30), jr_timestamp_t(3125)); CHECK(f.jitter() == milliseconds(30)); CHECK(g.jitter() == milliseconds(0));''')

    add("C23-text-buffer", "C23", "two threads writing packets as text at the same time",
        "the digits of one packet appear in the text of another",
        [("src/universal_packet.cpp", "        out << std::hex << std::noshowbase << std::right << std::setw(8) << p.data[w];",
          "        static char digits[9];\n        for (auto d = 0u; d < 8; ++d)\n        {\n            const auto nibble = (p.data[w] >> (28 - 4 * d)) & 0xF;\n            digits[d]         = (out.flags() & std::ios_base::uppercase) ? \"0123456789ABCDEF\"[nibble] : \"0123456789abcdef\"[nibble];\n        }\n        out << std::right << std::setw(8) << digits;")],
        '''std::atomic<int> bad{ 0 }; auto work = [&](uint32_t v) { const universal_packet p(v, v, v, v); std::ostringstream first; first << p; std::string want; char b[9]; std::snprintf(b, 9, "%08x", v); for (int k = 0; k < 4; ++k) want += std::string(k ? " " : "") + b;
        for (int i = 0; i < 300000 && !bad; ++i) { std::ostringstream o; o << p; if (o.str() != want) ++bad; } };
    std::thread a{ work, 0xF1111111u }, b{ work, 0xF2222222u }, c{ work, 0xF3333333u }; a.join(); b.join(); c.join(); CHECK(bad == 0);''', pre="#include <atomic>\n#include <thread>\n")

    add("C23-copy-forgets-state", "C23", "copying a SysEx8 collector in the middle of a message",
        "the copy drops the message it was receiving",
        [("inc/midi/sysex_collector.h", "    explicit sysex8_collector(callback);\n", "    explicit sysex8_collector(callback);\n    sysex8_collector(const sysex8_collector& other)\n      : m_sysex8(other.m_sysex8)\n      , m_max_sysex_data_size(other.m_max_sysex_data_size)\n      , m_state(other.m_state)\n      , m_manufacturer_id_state(other.m_manufacturer_id_state)\n      , m_cb(other.m_cb)\n    {\n    }\n    sysex8_collector& operator=(const sysex8_collector&) = default;\n")],
        '''std::vector<sysex8> got; sysex8_collector a{ [&](const sysex8& x, uint8_t) { got.push_back(x); } };
    sysex8 s{ 0x3E0000u }; for (int i = 0; i < 20; ++i) s.data.push_back(uint8_t(i)); auto ps = as_sysex8_packets(s, 5, 0);
    a.feed(ps[0]); sysex8_collector b(a); b.feed(ps[1]); CHECK(got.size() == 1); CHECK(got[0] == s);''')

    add("C24-common-aborts", "C24", "a tune request or song select on the same link while a SysEx is being received",
        "the collector forgets the message it is receiving",
        [("src/sysex_collector.cpp", "    if (!is_sysex7_packet(p))\n        return;\n", "    if (!is_sysex7_packet(p))\n    {\n        if (p.is_system_message() && (p.status() < system_status::clock) && (p.status() > 0xF0))\n            reset();\n        return;\n    }\n")],
        '''std::vector<sysex7> got; sysex7_collector c{ [&](const sysex7& x) { got.push_back(x); } }; sysex7 s{ 0x3E0000u }; for (int i = 0; i < 20; ++i) s.data.push_back(uint8_t(i));
    for (auto& p : as_sysex7_packets(s, 2)) { c.feed(p); c.feed(make_system_message(5, 0xF6)); } CHECK(got.size() == 1); CHECK(got[0] == s);''')

    add("C24-nak-transaction", "C24", "refusing an inquiry of the management category by its view",
        "the transaction in the NAK is not the one refused",
        [("inc/midi/capability_inquiry.h", "    uint7_t d[] = { r.subtype(), status_code,", "    uint7_t d[] = { uint7_t(r.subtype() & 0x3F), status_code,")],
        '''uint7_t det[5] = { 0, 0, 0, 0, 0 }; auto q = ci::make_endpoint_information_inquiry(1, 2, 0); auto n = ci::make_nak_message(*as_capability_inquiry_view(q), 1, 0, det, "no"); auto v = ci::as<ci::nak_view>(n); CHECK(bool(v)); CHECK(v->transaction() == 0x72);''')

    add("C24-tail-request-id", "C24", "a property that needs more than one chunk, set with a request ID other than 0",
        "the later chunks carry no request ID",
        [("inc/midi/capability_inquiry.h", "    return make_property_data_message(subtype::get_property_data_reply,\n                                      source_muid,\n                                      destination_muid,\n                                      {},\n                                      number_of_chunks,\n                                      number_of_this_chunk,\n                                      chunk,\n                                      request_id,\n                                      device_id);",
          "    return make_property_data_message(subtype::get_property_data_reply,\n                                      source_muid,\n                                      destination_muid,\n                                      {},\n                                      number_of_chunks,\n                                      number_of_this_chunk,\n                                      chunk,\n                                      (number_of_this_chunk == number_of_chunks) ? request_id : uint7_t(0),\n                                      device_id);")],
        '''auto m = ci::make_get_property_data_reply(1, 2, 9, 4, ci::property_exchange::chunk{ "ab", 2 }, 17, 0x7F); auto v = ci::as<ci::get_property_data_view>(m); CHECK(bool(v)); CHECK(v->request_id() == 17);''')

    add("C24-cable-group", "C24", "a SysEx of more than six bytes received on a cable that is not the first",
        "the packets after the first belong to another group, the message never arrives there",
        [("src/midi1_byte_stream.cpp", "m_packet      = make_sysex7_continue_packet(m_group);", "m_packet      = make_sysex7_continue_packet(m_packet.group() & 0x7);")],
        """std::vector<sysex7> got; sysex7_collector c{ [&](const sysex7& x) { got.push_back(x); } }; midi1_byte_stream_parser p{ group_t(9), [&](universal_packet u) { if (u.group() == 9) c.feed(u); } };
    for (int b : { 0xF0, 0x3E, 1, 2, 3, 4, 5, 6, 7, 8, 0xF7 }) p.feed(uint8_t(b)); CHECK(got.size() == 1); CHECK(got[0].data.size() == 8);""")

    add("C24-disabled-count", "C24", "switching a profile off that was active on more than 127 channels",
        "the report names a wrong number of channels",
        [("inc/midi/capability_inquiry.h", "      message::make_with_payload_size(7, subtype::profile_disabled, source_muid, destination_muid, dest.scope);\n    result.add_data(&p.byte1, 5);\n    result.add_uint14(dest.num_channels);", "      message::make_with_payload_size(7, subtype::profile_disabled, source_muid, destination_muid, dest.scope);\n    result.add_data(&p.byte1, 5);\n    result.add_uint7(dest.num_channels & 0x7F);\n    result.add_uint7(0);")],
        """auto m = ci::make_profile_disabled_notification(1, 2, ci::profile_id{ 1, 2, 3, 4, 5 }, ci::channel_profile(3, 200)); auto v = ci::as<ci::profile_destination_view>(m); CHECK(bool(v)); CHECK(v->num_channels() == 200);""")

    add("C05-run-256", "C05", "more than 255 messages under one status byte",
        "running status is lost after 256 messages",
        [("inc/midi/midi1_byte_stream.h", "    uint8_t m_num_missing_bytes{ 0 };", "    uint8_t m_num_missing_bytes{ 0 };\n    uint8_t m_run_length{ 0 };"),
         ("src/midi1_byte_stream.cpp", "                m_num_missing_bytes = m_packet_byte - 1;", "                m_num_missing_bytes = (++m_run_length == 0) ? 0 : m_packet_byte - 1;"),
         ("src/midi1_byte_stream.cpp", "    m_packet            = midi1_channel_voice_message{ m_group, byte };", "    m_packet            = midi1_channel_voice_message{ m_group, byte };\n    m_run_length        = 0;")],
        '''size_t n = 0; midi1_byte_stream_parser p{ [&](universal_packet) { ++n; } };
    p.feed(0xB3); for (int i = 0; i < 400; ++i) { p.feed(7); p.feed(uint8_t(i & 0x7F)); }
    CHECK(n == 400);''')

    add("C16-block-name-64k", "C16", "a function block name of more than 65535 bytes",
        "the end packet comes too early and the name is cut",
        [("inc/midi/stream_message.h", "        while (name.size() > 13)\n        {\n            sender(make_function_block_name_message(packet_format::cont, function_block, name.substr(0, 13)));\n",
          "        for (uint16_t left = static_cast<uint16_t>(name.size()); left > 13; left -= 13)\n        {\n            sender(make_function_block_name_message(packet_format::cont, function_block, name.substr(0, 13)));\n"),
         ("inc/midi/stream_message.h", "        sender(make_function_block_name_message(packet_format::end, function_block, name));", "        sender(make_function_block_name_message(packet_format::end, function_block, name.substr(0, 13)));")],
        '''for (size_t len : { 30u, 500u, 70000u }) { std::string t; for (size_t i = 0; i < len; ++i) t.push_back(char('A' + i % 26));
    std::string b; send_function_block_name(3, t, [&](const stream_message& m) { b += as_function_block_name_view(m)->payload(); });
    CHECK(b == t); }''')

    add("C18-field-position", "C18", "a profile inquiry reply whose disabled profiles lie beyond 65535 bytes",
        "the number of disabled profiles is read from the wrong place",
        [("inc/midi/sysex.h", "    return data[data_pos] | (data[data_pos + 1] << 7);", "    const auto pos = static_cast<uint16_t>(data_pos);\n    return data[pos] | (data[pos + 1] << 7);")],
        '''for (unsigned n : { 3u, 14000u }) { std::vector<ci::profile_id> e(n, ci::profile_id{ 1, 2, 3, 4, 5 }), d(2, ci::profile_id{ 9, 8, 7, 6, 5 });
    auto m = ci::make_profile_inquiry_reply(1, 2, e.data(), uint16_t(n), d.data(), 2, 0x7F);
    auto v = ci::as<ci::profile_inquiry_reply_view>(m); CHECK(v.has_value());
    CHECK(v->enabled_profiles().size() == n); CHECK(v->disabled_profiles().size() == 2); }''')

    add("C19-many-options", "C19", "more than 16 options in one header",
        "the options after the sixteenth are left out",
        [("src/capability_inquiry.cpp", """    auto result = "{\\"" + std::string{ key } + "\\":\\"" + std::string{ value } + '"';
    for (auto o : options)
    {
""", """    auto   result = "{\\"" + std::string{ key } + "\\":\\"" + std::string{ value } + '"';
    size_t num    = 0;
    for (auto o : options)
    {
        if (++num > 16)
            break;
""")],
        '''for (int n : { 3, 20 }) { std::vector<std::string> k; for (int i = 0; i < n; ++i) k.push_back("k" + std::to_string(i));
    ci::property_exchange::header_options o; for (auto& x : k) o.emplace_back(x, "v");
    auto t = ci::property_exchange::make_rjson("resource", std::string_view("X"), o);
    CHECK(t.find(k.back()) != std::string::npos); }''')

    add("C21-jitter-decay", "C21", "a session of more than 5000 clocks with transport jitter",
        "the jitter statistics start again from zero",
        [("inc/midi/jitter_reduction_timestamps.h", "    jr_timestamp_t m_clock_ts{ 0 };        //!< last jr clock timestamp", "    jr_timestamp_t m_clock_ts{ 0 };        //!< last jr clock timestamp\n    uint16_t       m_num_clocks{ 0 };"),
         ("src/jitter_reduction_timestamps.cpp", "    update_stats(jitter);\n}", "    if (++m_num_clocks == 5000)\n        m_jitter = duration{ 0 };\n    update_stats(jitter);\n}")],
        '''jr_clock_follower f; auto t = jr_clock_follower::system_clock::now() + std::chrono::hours(1); uint16_t ts = 0;
    f.process_clock(t, jr_timestamp_t(ts)); f.process_clock(t + std::chrono::milliseconds(5), jr_timestamp_t(ts));
    const auto j = f.jitter(); CHECK(j >= std::chrono::milliseconds(5));
    for (int i = 0; i < 6000; ++i) { t += std::chrono::microseconds(32 * 625); ts = uint16_t(ts + 625); f.process_clock(t, jr_timestamp_t(ts)); CHECK(f.jitter() >= j); }''')

    add("C05-big-sysex", "C05", "a SysEx callback parser and a message of more than 64 KB",
        "data beyond the buffer limit is dropped",
        [("src/midi1_byte_stream.cpp", "    if (m_sysex.data.size() == m_sysex.data.capacity())\n    {\n", "    if (m_sysex.data.size() == m_sysex.data.capacity())\n    {\n        if (m_sysex.data.capacity() >= 65536)\n            return;\n")],
        '''sysex7 got; midi1_byte_stream_parser p{ [](universal_packet) {}, [&](const sysex7& s) { got = s; } };
    for (size_t len : { 100u, 200000u }) { p.feed(0xF0); p.feed(0x41); for (size_t i = 0; i < len; ++i) p.feed(uint8_t(i & 0x7F)); p.feed(0xF7); CHECK(got.data.size() == len); }''')

    FAIL_MR = '''struct mr_t : std::pmr::memory_resource { bool fail{ false };
        void* do_allocate(size_t n, size_t a) override { if (fail) throw std::bad_alloc{}; return std::pmr::new_delete_resource()->allocate(n, a); }
        void do_deallocate(void* p, size_t n, size_t a) override { std::pmr::new_delete_resource()->deallocate(p, n, a); }
        bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; } };
    static mr_t mr; std::pmr::set_default_resource(&mr);
    '''
    add("C22-parser-starved", "C22", "memory runs out when the parser reserves the buffer of a SysEx that cuts off another message, and is back for its data bytes",
        "the parser takes the next data bytes for something else and delivers a message with a wrong ID",
        [("src/midi1_byte_stream.cpp", "    m_packet            = make_sysex7_start_packet(m_group);\n    m_packet_byte       = 2;\n    m_num_missing_bytes = 0;\n\n    if (has_sysex_callback())",
          "    m_packet            = make_sysex7_start_packet(m_group);\n    m_num_missing_bytes = 0;\n\n    if (has_sysex_callback())"),
         ("src/midi1_byte_stream.cpp", "        if (!m_invoke_callbacks)\n            m_packet_byte = 0; // do not collect any data\n    }", "    }\n\n    m_packet_byte = (has_sysex_callback() && !m_invoke_callbacks) ? 0 : 2;")],
        FAIL_MR + '''std::vector<sysex7> got; midi1_byte_stream_parser p{ [&](universal_packet) {}, [&](const sysex7& s) { got.push_back(s); } };
    for (uint8_t b : { 0xB0, 7 }) p.feed(b);
    mr.fail = true; bool thrown = false; try { p.feed(0xF0); } catch (const std::bad_alloc&) { thrown = true; } mr.fail = false;
    CHECK(thrown); for (uint8_t b : { 0x41, 1, 2, 3, 0xF7 }) p.feed(b);
    CHECK((got.empty() || got[0] == sysex7{ 0x410000u, { 1, 2, 3 } }));''',
        std="-std=c++20 -DNIMIDI2_PMR_SYSEX_DATA=1")
    add("C22-collector-starved", "C22", "memory runs out on the first packet of an 8-bit SysEx and is back for the others",
        "the rest of a message whose first packet was refused is delivered as a message of its own",
        [("src/sysex_collector.cpp", "    const auto numBytes = m.payload_size();\n    if (m_sysex8", "    m_state             = packet_format::cont;\n    const auto numBytes = m.payload_size();\n    if (m_sysex8"),
         ("src/sysex_collector.cpp", "    default:\n        m_state = packet_format::cont;\n        break;\n", "    default:\n        break;\n")],
        FAIL_MR + '''int got = 0; sysex8_collector c{ [&](const sysex8&, uint8_t) { ++got; } };
    auto ps = as_sysex8_packets(sysex8{ 0x410000u, sysex::data_type(40, uint8_t(9)) }, 1, 0);
    mr.fail = true; bool thrown = false; try { c.feed(ps[0]); } catch (const std::bad_alloc&) { thrown = true; } mr.fail = false;
    CHECK(thrown); for (size_t i = 1; i < ps.size(); ++i) c.feed(ps[i]);
    CHECK(got == 0); for (auto& p : ps) c.feed(p); CHECK(got == 1);''',
        std="-std=c++20 -DNIMIDI2_PMR_SYSEX_DATA=1")

    add("C06-rt-in-id", "C06", "a real-time byte between the second and third byte of a three-byte manufacturer ID, with a SysEx callback",
        "a real-time byte rewinds the manufacturer ID, the SysEx message arrives changed",
        [("src/midi1_byte_stream.cpp", "    // post packet\n    if (m_invoke_callbacks)\n    {\n        m_packet_callback(make_system_message(m_group, byte));\n    }\n}",
          "    if (has_sysex_callback() && m_packet_byte == 4)\n        m_packet_byte = 3;\n\n    // post packet\n    if (m_invoke_callbacks)\n    {\n        m_packet_callback(make_system_message(m_group, byte));\n    }\n}")],
        '''for (int at = 1; at < 8; ++at) {
        std::vector<uint8_t> b{ 0xF0, 0x00, 0x21, 0x09, 1, 2, 3, 0xF7 };
        b.insert(b.begin() + at, 0xF8);
        int n = 0, ok = 0;
        midi1_byte_stream_parser p{ [](universal_packet) {}, [&](const sysex7& s) { ++n; ok += s.manufacturerID == 0x002109 && s.data.size() == 3 && s.data[0] == 1 && s.data[2] == 3; } };
        p.feed(b.data(), b.size());
        CHECK(n == 1 && ok == 1); }''')

    add("C08-float-scale", "C08", "upscaling a value of more than 24 bits that has more than 24 significant bits",
        "wide values are scaled in single precision and lose their low bits",
        [("inc/midi/types.h", "    uint32_t result = v << scale_bits;",
          "    uint32_t result = x > 24 ? static_cast<uint32_t>(static_cast<float>(v) * static_cast<float>(1u << scale_bits))\n                             : v << scale_bits;")],
        '''for (unsigned x = 2; x < 32; ++x) for (unsigned i = 0; i < x; ++i) {
        const uint32_t v = (1u << i) - 1 + (i ? 1u : 0u);
        if (v < (1u << (x - 1))) { CHECK(upsample_x_to_ybit(v, uint8_t(x), 32) == v << (32 - x)); CHECK(upsample_x_to_ybit(v | 1, uint8_t(x), 32) == (v | 1) << (32 - x)); } }''')

    add("C04-reject-at-end", "C04", "a message that exceeds the limit in its last packet, followed by a packet whose start was lost",
        "the rejected message stays open, a stray packet is delivered under its manufacturer ID",
        [("src/sysex_collector.cpp", "                reset();\n                return;\n            }\n\n            // collect data\n            m_sysex7",
          "                if (m.status() == data_status::sysex7_end)\n                    m_sysex7.data.clear();\n                else\n                    reset();\n                return;\n            }\n\n            // collect data\n            m_sysex7")],
        '''int got = 0; sysex7_collector c{ [&](const sysex7&) { ++got; } };
    c.set_max_sysex_data_size(10);
    sysex7 s{ 0x410000u }; s.data.assign(11, 0x11);
    for (auto& p : as_sysex7_packets(s, 0)) c.feed(p);
    CHECK(got == 0);
    auto e = make_sysex7_end_packet(0); e.add_payload_byte(5); c.feed(e);
    CHECK(got == 0);''')

    return [s for s in S if s["demo"]]


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)


def make(ids):
    base = "/tmp/seedwork"
    for s in specs():
        if ids and s["id"] not in ids:
            continue
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        w = base + "/repo"
        sh("git -C /repo worktree prune; cp -a /repo %s" % w)
        ok = True
        for f, a, b in s["edits"]:
            t = open(w + "/" + f).read()
            if t.count(a) != 1:
                print(s["id"], "edit matches", t.count(a), f); ok = False; break
            open(w + "/" + f, "w").write(t.replace(a, b))
        if not ok:
            continue
        patch = sh("git -C %s diff" % w).stdout
        d = base + "/" + s["id"]
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(patch)
        open(d + "/demo.sh", "w").write(DEMO_SH % s["std"])
        open(d + "/demo.cpp", "w").write(DEMO_HEAD + s["pre"] + "int main()\n{\n    " + s["demo"] + "\n    return 0;\n}\n")
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r1 = sh("bash %s/demo.sh" % d, cwd="/repo")
        r2 = sh("bash %s/demo.sh" % d, cwd=w)
        # the stable tests, on the real /repo path as the build scripts name it
        assert sh("git -C /repo status --porcelain").stdout == "", "dirty /repo"
        sh("git -C /repo apply %s/patch.diff" % d)
        try:
            r3 = sh("bash %s/tools/repotest.sh" % VERIF)
        finally:
            sh("git -C /repo checkout -- .")
        good = r1.returncode == 0 and r2.returncode in range(1, 97) and r3.returncode == 0
        print(s["id"], "demo clean", r1.returncode, "patched", r2.returncode, "tests", r3.returncode, "KEPT" if good else "REJECTED")
        if not good:
            print(r1.stdout[-300:], r1.stderr[-800:], r2.stdout[-300:], r2.stderr[-300:], r3.stdout[-300:])
            shutil.rmtree(os.path.join(SEEDED, s["id"]), ignore_errors=True)
            continue
        t = os.path.join(SEEDED, s["id"])
        shutil.rmtree(t, ignore_errors=True)
        shutil.copytree(d, t)
    sh("bash /opt/vp/build.sh")
    shutil.rmtree(base, ignore_errors=True)


def run(ids):
    base = "/tmp/seedrun"
    for i in sorted(os.listdir(SEEDED)):
        if ids and i not in ids:
            continue
        meta = json.load(open("%s/%s/meta.json" % (SEEDED, i)))
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        sh("git -C /repo archive HEAD | tar x -C %s && git -C %s init -q && git -C %s apply %s/%s/patch.diff" % (base, base, base, SEEDED, i))
        env = dict(os.environ, VERIF_REPO=base, VERIF_SEED="1", VERIF_TIER="quick")
        r = sh("python3 %s/check.py %s" % (VERIF, meta["property"]), env=env)
        last = (r.stdout.strip().splitlines() or [""])[-1]
        print(i, meta["property"], "CAUGHT" if r.returncode == 1 else "MISSED rc=%d" % r.returncode, last[:200], flush=True)
    shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    {"make": make, "run": run}[sys.argv[1]](sys.argv[2:])
