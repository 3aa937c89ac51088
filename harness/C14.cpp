#include "predicates.h"
#include <midi/data_message.h>
#include <midi/extended_data_message.h>
#include <midi/flex_data_message.h>
#include <midi/stream_message.h>
#include <midi/system_message.h>
#include <midi/utility_message.h>

using namespace h;
using midi::universal_packet;

namespace {

std::string text_of(const uint32_t* w, size_t from)
{
    std::string r;
    for (size_t b = from; b < 16 && byte_of(w, b); ++b)
        r.push_back(char(byte_of(w, b)));
    return r;
}
uint32_t le7(const uint32_t* w, size_t from, size_t n)
{
    uint32_t r = 0;
    for (size_t i = 0; i < n; ++i)
        r |= uint32_t(byte_of(w, from + i) & 0x7F) << (7 * i);
    return r;
}

void inspect(Src& s, const uint32_t* w)
{
    // exactly sized heap object: reading beyond the packet is caught
    const auto              hp = std::make_unique<universal_packet>(w[0], w[1], w[2], w[3]);
    const universal_packet& p  = *hp;
    const unsigned          t = w[0] >> 28, grp = (w[0] >> 24) & 15;
    const uint8_t           b1 = byte_of(w, 1), b2 = byte_of(w, 2), b3 = byte_of(w, 3);
    s.note([&](auto& o) { o << show_words(w, 4) << "\n"; });

    // families
    const bool fam[] = { p.is_utility_message(), p.is_system_message(), p.is_channel_voice_message(), p.is_data_message(),
                         midi::is_flex_data_message(p), midi::is_stream_message(p) };
    REQUIRE_EQ(fam[0], t == 0);
    REQUIRE_EQ(fam[1], t == 1);
    REQUIRE_EQ(fam[2], t == 2 || t == 4);
    REQUIRE_EQ(fam[3], t == 3 || t == 5);
    REQUIRE_EQ(fam[4], t == 13);
    REQUIRE_EQ(fam[5], t == 15);
    REQUIRE_EQ(midi::is_system_message(p), t == 1);
    REQUIRE_EQ(midi::is_midi1_channel_voice_message(p), t == 2);
    REQUIRE_EQ(midi::is_midi2_channel_voice_message(p), t == 4);
    REQUIRE_EQ(midi::is_data_message(p), t == 3);
    REQUIRE_EQ(midi::is_extended_data_message(p), t == 5);
    const bool sys1 = b1 == 0xF1 || b1 == 0xF2 || b1 == 0xF3 || b1 == 0xF6 || b1 == 0xF8 || b1 == 0xFA || b1 == 0xFB ||
                      b1 == 0xFC || b1 == 0xFE || b1 == 0xFF;
    REQUIRE_EQ(p.is_midi1_protocol_message(), (t == 1 && sys1) || (t == 2 && b1 >= 0x80 && b1 < 0xF0));
    REQUIRE_EQ(p.size(), ump_words(t));
    check_predicates(p);

    bool offered = false;
    if (t == 0)
    {
        const midi::utility_message_view v(p);
        REQUIRE_EQ(v.status(), b1);
        REQUIRE_EQ(v.payload(), uint16_t(w[0]));
        offered = true;
    }
    {
        const auto v = midi::as_system_message_view(p);
        REQUIRE_EQ(v.has_value(), t == 1);
        if (v)
        {
            offered = true;
            REQUIRE_EQ(unsigned(v->group()), grp);
            REQUIRE_EQ(v->status(), b1);
            REQUIRE_EQ(v->data_byte_1(), uint8_t(b2 & 0x7F));
            REQUIRE_EQ(v->data_byte_2(), uint8_t(b3 & 0x7F));
            REQUIRE_EQ(unsigned(v->get_song_position()), b1 == 0xF2 ? unsigned((b2 & 0x7F) | (b3 & 0x7F) << 7) : 0u);
        }
    }
    {
        const auto v = midi::as_midi1_channel_voice_message_view(p);
        REQUIRE_EQ(v.has_value(), t == 2);
        if (v)
        {
            offered = true;
            REQUIRE_EQ(unsigned(v->group()), grp);
            REQUIRE_EQ(v->status(), uint8_t(b1 & 0xF0));
            REQUIRE_EQ(v->channel(), uint8_t(b1 & 15));
            REQUIRE_EQ(v->data_byte_1(), uint8_t(b2 & 0x7F));
            REQUIRE_EQ(v->data_byte_2(), uint8_t(b3 & 0x7F));
            REQUIRE_EQ(unsigned(v->get_14bit_value()), unsigned((b2 & 0x7F) | (b3 & 0x7F) << 7));
            // protocol independent accessors only return 7/14 bit data
            REQUIRE_EQ(midi::get_note_nr(p), uint8_t(b2 & 0x7F));
            REQUIRE_EQ(midi::get_controller_nr(p), uint8_t(b2 & 0x7F));
            REQUIRE_EQ(midi::get_controller_value(p).as_uint7(), uint8_t(b3 & 0x7F));
            REQUIRE_EQ(midi::get_poly_pressure_value(p).as_uint7(), uint8_t(b3 & 0x7F));
            REQUIRE_EQ(midi::get_channel_pressure_value(p).as_uint7(), uint8_t(b2 & 0x7F));
            REQUIRE_EQ(midi::get_program_value(p), uint8_t(b2 & 0x7F));
            REQUIRE_EQ(unsigned(midi::get_channel_pitch_bend_value(p).as_uint14()), unsigned((b2 & 0x7F) | (b3 & 0x7F) << 7));
            REQUIRE_EQ(midi::get_note_pitch(p).note_nr(), uint8_t(b2 & 0x7F));
            if (b3 < 0x80 && (b3 || (b1 & 0xF0) != 0x90))
                REQUIRE_EQ(midi::get_note_velocity(p).as_uint7(), b3);
            (void)midi::get_note_velocity(p);
            (void)midi::as_midi2_channel_voice_message(*v);
        }
    }
    {
        const auto v = midi::as_midi2_channel_voice_message_view(p);
        REQUIRE_EQ(v.has_value(), t == 4);
        if (v)
        {
            offered = true;
            REQUIRE_EQ(unsigned(v->group()), grp);
            REQUIRE_EQ(v->status(), uint8_t(b1 & 0xF0));
            REQUIRE_EQ(v->channel(), uint8_t(b1 & 15));
            REQUIRE_EQ(v->byte3(), uint8_t(b2 & 0x7F));
            REQUIRE_EQ(v->byte4(), b3);
            REQUIRE_EQ(v->data(), w[1]);
            REQUIRE_EQ(midi::get_note_velocity(p).value, uint16_t(w[1] >> 16));
            REQUIRE_EQ(midi::get_controller_value(p).value, w[1]);
            REQUIRE_EQ(midi::get_channel_pitch_bend_value(p).value, w[1]);
            REQUIRE_EQ(midi::get_channel_pressure_value(p).value, w[1]);
            REQUIRE_EQ(midi::get_program_value(p), uint8_t((w[1] >> 24) & 0x7F));
            REQUIRE_EQ(midi::get_midi2_note_attribute(p), b3);
            REQUIRE_EQ(midi::get_midi2_note_attribute_data(p), uint16_t(w[1]));
            REQUIRE_EQ(midi::get_per_note_controller_index(p), b3);
            REQUIRE_EQ(midi::get_note_pitch(p).value, (b1 & 0xF0) == 0x90 && b3 == 3 ? uint16_t(w[1]) : uint16_t((b2 & 0x7F) << 9));
            if (midi::is_pitch_bend_sensitivity_message(p))
                REQUIRE_EQ(midi::get_pitch_bend_sensitivity_value(p).value, w[1] & 0xFFFC0000u); // 14 significant bits
            if (midi::is_per_note_pitch_bend_sensitivity_message(p))
                REQUIRE_EQ(midi::get_per_note_pitch_bend_sensitivity_value(p).value, w[1]);
            if (midi::is_per_note_pitch_bend_message(p))
                REQUIRE_EQ(midi::get_per_note_pitch_bend_value(p).value, w[1]);
            (void)midi::as_midi1_channel_voice_message(*v);
        }
    }
    {
        const bool ok = t == 3 && (b1 >> 4) <= 3 && (b1 & 15) <= 6;
        const auto v  = midi::as_sysex7_packet_view(p);
        REQUIRE_EQ(midi::is_sysex7_packet(p), ok);
        REQUIRE_EQ(v.has_value(), ok);
        if (v)
        {
            offered = true;
            REQUIRE_EQ(unsigned(v->group()), grp);
            REQUIRE_EQ(v->status(), uint8_t(b1 & 0xF0));
            REQUIRE_EQ(unsigned(v->format()), unsigned(b1 >> 4));
            REQUIRE_EQ(v->payload_size(), size_t(b1 & 15));
            for (size_t i = 0; i < v->payload_size(); ++i)
                REQUIRE_EQ(v->payload_byte(i), byte_of(w, 2 + i));
        }
    }
    {
        const bool ok = t == 5 && (b1 >> 4) <= 3 && (b1 & 15) >= 1 && (b1 & 15) <= 14;
        const auto v  = midi::as_sysex8_packet_view(p);
        REQUIRE_EQ(midi::is_sysex8_packet(p), ok);
        REQUIRE_EQ(v.has_value(), ok);
        if (v)
        {
            offered = true;
            REQUIRE_EQ(unsigned(v->group()), grp);
            REQUIRE_EQ(unsigned(v->format()), unsigned(b1 >> 4));
            REQUIRE_EQ(v->stream_id(), b2);
            REQUIRE_EQ(v->payload_size(), size_t((b1 & 15) - 1));
            for (size_t i = 0; i < v->payload_size(); ++i)
                REQUIRE_EQ(v->payload_byte(i), byte_of(w, 3 + i));
        }
    }
    {
        const auto v = midi::as_flex_data_message_view(p);
        REQUIRE_EQ(v.has_value(), t == 13);
        if (v)
        {
            offered = true;
            REQUIRE_EQ(unsigned(v->group()), grp);
            REQUIRE_EQ(unsigned(v->format()), unsigned(b1 >> 6));
            REQUIRE_EQ(unsigned(v->address()), unsigned((b1 >> 4) & 3));
            REQUIRE_EQ(v->channel(), uint8_t(b1 & 15));
            REQUIRE_EQ(v->status_bank(), b2);
            REQUIRE_EQ(v->status(), b3);
            REQUIRE_EQ(v->data1(), w[1]);
            REQUIRE_EQ(v->data2(), w[2]);
            REQUIRE_EQ(v->data3(), w[3]);
            REQUIRE_EQ(std::string(v->payload_as_string()), text_of(w, 4));
            REQUIRE_EQ(midi::flex_data_message::payload_as_string(p), text_of(w, 4));
        }
    }
    // stream messages: 10 bit status
    const unsigned st = t == 15 ? (w[0] >> 16) & 0x3FF : ~0u;
    const unsigned fm = (w[0] >> 26) & 3;
    for (unsigned k : { 0u, 1u, 2u, 3u, 4u, 5u, 6u, 0x10u, 0x11u, 0x12u })
        REQUIRE_EQ(midi::is_stream_message_with_status(p, midi::status_t(k)), st == k);
    if (const auto v = midi::as_endpoint_discovery_view(p); v || st == 0)
    {
        REQUIRE(v && st == 0);
        offered = true;
        REQUIRE_EQ(v->ump_version_major(), b2);
        REQUIRE_EQ(v->ump_version_minor(), b3);
        REQUIRE_EQ(v->ump_version(), uint16_t(w[0]));
        REQUIRE_EQ(unsigned(v->filter()), w[1] & 31);
        REQUIRE_EQ(v->requests_info(), (w[1] & 1) != 0);
        REQUIRE_EQ(v->requests_device_identity(), (w[1] & 2) != 0);
        REQUIRE_EQ(v->requests_name(), (w[1] & 4) != 0);
        REQUIRE_EQ(v->requests_product_instance_id(), (w[1] & 8) != 0);
        REQUIRE_EQ(v->requests_stream_configuration(), (w[1] & 16) != 0);
    }
    if (const auto v = midi::as_endpoint_info_view(p); v || st == 1)
    {
        REQUIRE(v && st == 1);
        offered = true;
        REQUIRE_EQ(v->ump_version_major(), b2);
        REQUIRE_EQ(v->ump_version_minor(), b3);
        REQUIRE_EQ(v->ump_version(), uint16_t(w[0]));
        REQUIRE_EQ(unsigned(v->num_function_blocks()), (w[1] >> 24) & 0x7F);
        REQUIRE_EQ(v->static_function_blocks(), (w[1] >> 31) != 0);
        REQUIRE_EQ(unsigned(v->protocols()), (w[1] >> 8) & 3);
        REQUIRE_EQ(unsigned(v->extensions()), w[1] & 3);
    }
    if (const auto v = midi::as_device_identity_view(p); v || st == 2)
    {
        REQUIRE(v && st == 2);
        offered = true;
        const auto i = v->identity();
        REQUIRE_EQ(uint32_t(i.manufacturer), w[1] & 0x7F7F7F);
        REQUIRE_EQ(uint32_t(i.family), le7(w, 8, 2));
        REQUIRE_EQ(uint32_t(i.model), le7(w, 10, 2));
        REQUIRE_EQ(uint32_t(i.revision), le7(w, 12, 4));
    }
    if (const auto v = midi::as_endpoint_name_view(p); v || st == 3)
    {
        REQUIRE(v && st == 3);
        offered = true;
        REQUIRE_EQ(unsigned(v->format()), fm);
        REQUIRE_EQ(v->payload(), text_of(w, 2));
    }
    if (const auto v = midi::as_product_instance_id_view(p); v || st == 4)
    {
        REQUIRE(v && st == 4);
        offered = true;
        REQUIRE_EQ(unsigned(v->format()), fm);
        const auto txt = text_of(w, 2);
        bool ascii = true; // the ID is ASCII text
        for (size_t b = 2; b < 16; ++b)
            ascii &= byte_of(w, b) < 0x80;
        if (ascii)
            REQUIRE_EQ(v->payload(), txt);
        REQUIRE(v->payload().size() <= 14);
    }
    if (const auto v = midi::as_stream_configuration_view(p); v || st == 5 || st == 6)
    {
        REQUIRE(v && (st == 5 || st == 6));
        offered = true;
        REQUIRE_EQ(unsigned(v->protocol() & 3), unsigned(b2 & 3));
        REQUIRE_EQ(unsigned(v->extensions()), unsigned(b3 & 3));
    }
    if (const auto v = midi::as_function_block_discovery_view(p); v || st == 0x10)
    {
        REQUIRE(v && st == 0x10);
        offered = true;
        REQUIRE_EQ(v->function_block(), b2);
        REQUIRE_EQ(unsigned(v->filter() & 3), unsigned(b3 & 3));
        REQUIRE_EQ(v->requests_info(), (b3 & 1) != 0);
        REQUIRE_EQ(v->requests_name(), (b3 & 2) != 0);
        const auto k = uint8_t(s.bits(5));
        REQUIRE_EQ(v->requests_function_block(k), b2 == 0xFF || b2 == k);
        REQUIRE_EQ(v->requests_function_block(b2), true);
    }
    if (const auto v = midi::as_function_block_info_view(p); v || st == 0x11)
    {
        REQUIRE(v && st == 0x11);
        offered = true;
        REQUIRE_EQ(v->active(), (b2 & 0x80) != 0);
        REQUIRE_EQ(v->function_block(), uint8_t(b2 & 0x7F));
        REQUIRE_EQ(v->direction(), uint8_t(b3 & 3));
        REQUIRE_EQ(v->midi1(), uint8_t((b3 >> 2) & 3));
        REQUIRE_EQ(v->ui_hint(), uint8_t((b3 >> 4) & 3));
        REQUIRE_EQ(v->first_group(), byte_of(w, 4));
        REQUIRE_EQ(v->num_groups_spanned(), byte_of(w, 5));
        REQUIRE_EQ(v->ci_message_version(), byte_of(w, 6));
        REQUIRE_EQ(v->max_num_sysex8_streams(), byte_of(w, 7));
    }
    if (const auto v = midi::as_function_block_name_view(p); v || st == 0x12)
    {
        REQUIRE(v && st == 0x12);
        offered = true;
        REQUIRE_EQ(unsigned(v->format()), fm);
        REQUIRE_EQ(v->function_block(), uint8_t(b2 & 0x7F));
        REQUIRE_EQ(v->payload(), text_of(w, 3));
    }
    if (offered)
        s.nontrivial();
}

void gen_tail(Src& s, uint32_t* w)
{
    for (int i = 1; i < 4; ++i)
        w[i] = uint32_t(s.u32());
    if (s.chance(1, 4))
    { // text with the terminator somewhere
        for (size_t b = 4; b < 16; ++b)
            put_byte(w, b, uint8_t(s.chance(1, 10) ? 0 : 0x20 + s.draw(0xDF)));
    }
}

//! every type x byte 1 (enumerated), group/format and the rest generated
void headers(Src& s)
{
    const auto k    = uint32_t(s.draw(4095));
    uint32_t   w[4] = { (k >> 8) << 28 | (k & 0xFF) << 16, 0, 0, 0 };
    w[0] |= uint32_t(s.draw(15)) << 24 | uint32_t(s.bits(16));
    gen_tail(s, w);
    inspect(s, w);
}

void streams(Src& s)
{
    uint32_t w[4];
    const uint32_t st = s.pick<uint32_t>({ 0, 1, 2, 3, 4, 5, 6, 0x10, 0x11, 0x12 });
    w[0] = 0xF0000000u | uint32_t(s.draw(15)) << 24 | st << 16 | uint32_t(s.bits(16));
    if (s.chance(2, 3))
        w[0] &= ~0x03000000u;
    gen_tail(s, w);
    inspect(s, w);
}

//! channel voice: all statuses, index bytes near the distinguished values
void voices(Src& s)
{
    uint32_t w[4];
    w[0] = (s.chance(1, 3) ? 0x20000000u : 0x40000000u) | uint32_t(s.draw(15)) << 24 | uint32_t(s.draw(255)) << 16;
    const auto idx = [&] {
        return s.chance(1, 2) ? uint32_t(s.draw(8)) | (s.chance(1, 8) ? 0x80u : 0u) : uint32_t(s.bits(8));
    };
    w[0] |= idx() << 8;
    w[0] |= idx();
    gen_tail(s, w);
    inspect(s, w);
}

void random_packets(Src& s)
{
    uint32_t w[4];
    w[0] = uint32_t(s.u32());
    gen_tail(s, w);
    inspect(s, w);
}

} // namespace

const char* pbt::g_property = "C14";
std::vector<Facet> pbt::facets()
{
    return {
        { "headers", "every message type x second byte; counted if some view is offered", headers, 250000, 6000000, 4096 },
        { "streams", "UMP stream statuses; counted if some view is offered", streams, 250000, 6000000 },
        { "voices", "channel voice packets; counted if some view is offered", voices, 250000, 6000000 },
        { "random_packets", "some view is offered", random_packets, 250000, 6000000 },
    };
}
