#include "names.h"
#include <midi/data_message.h>
#include <midi/extended_data_message.h>
#include <midi/flex_data_message.h>
#include <midi/system_message.h>
#include <midi/utility_message.h>

using namespace h;
using midi::universal_packet;

namespace {

void is_words(const universal_packet& p, const uint32_t* w, const char* what)
{
    REQUIRE_MSG(!memcmp(p.data, w, 16), what << ": packet " << show_packet(p) << ", expected [" << show_words(w, 4) << "]");
}
void is_words(const universal_packet& p, uint32_t a, uint32_t b = 0, uint32_t c = 0, uint32_t d = 0)
{
    const uint32_t w[4] = { a, b, c, d };
    is_words(p, w, "layout");
}

void utility_system(Src& s)
{
    const auto g = uint8_t(s.draw(15));
    const auto st = uint8_t(s.draw(255)), d1 = uint8_t(s.bits(7)), d2 = uint8_t(s.bits(7));
    const auto pl = uint16_t(s.bits(16)), pos = uint16_t(s.bits(14));
    s.note([&](auto& o) { o << "group " << +g << " status " << +st << " data " << +d1 << " " << +d2 << " payload " << pl << " position " << pos << "\n"; });
    {
        const auto p = midi::make_utility_message(st, pl);
        is_words(p, uint32_t(st) << 16 | pl);
        REQUIRE(p.is_utility_message() && p.size() == 1);
        const midi::utility_message_view v(p);
        REQUIRE_EQ(v.status(), st);
        REQUIRE_EQ(v.payload(), pl);
        is_words(midi::utility_message(st), uint32_t(st) << 16);
        is_words(midi::utility_message(st, pl), uint32_t(st) << 16 | pl);
        is_words(midi::utility_message(), 0);
    }
    {
        const auto p = midi::make_system_message(g, st, d1, d2);
        is_words(p, 0x10000000u | g << 24 | st << 16 | d1 << 8 | d2);
        const auto v = midi::as_system_message_view(p);
        REQUIRE(v.has_value());
        REQUIRE_EQ(v->group(), g);
        REQUIRE_EQ(v->status(), st);
        REQUIRE_EQ(v->data_byte_1(), d1);
        REQUIRE_EQ(v->data_byte_2(), d2);
        REQUIRE(p.is_system_message() && midi::is_system_message(p) && p.size() == 1);
        REQUIRE(!p.is_utility_message() && !p.is_data_message() && !p.is_channel_voice_message());
        REQUIRE_EQ(p.is_midi1_protocol_message(), st >= 0xF1 && st != 0xF4 && st != 0xF5 && st != 0xF7 && st != 0xF9 && st != 0xFD);
        REQUIRE_EQ(unsigned(v->get_song_position()), st == 0xF2 ? unsigned(d1 | d2 << 7) : 0u);
        is_words(midi::make_system_message(g, st), 0x10000000u | g << 24 | st << 16);
        is_words(midi::make_system_message(g, st, d1), 0x10000000u | g << 24 | st << 16 | d1 << 8);
        is_words(midi::system_message(g, st, d1, d2), p.data[0]);
        is_words(midi::system_message(), 0x10000000u);
    }
    {
        const auto p = midi::make_song_position_message(g, pos);
        is_words(p, 0x10F20000u | g << 24 | (pos & 0x7F) << 8 | pos >> 7);
        const auto v = midi::as_system_message_view(p);
        REQUIRE(v.has_value());
        REQUIRE_EQ(v->get_song_position(), pos);
        REQUIRE_EQ(v->group(), g);
    }
    s.nontrivial();
}

//! history of setters on a sysex7 packet, with a byte array model
void sysex7_setters(Src& s)
{
    const auto g = uint8_t(s.draw(15));
    const auto f = s.draw(3);
    auto p = f == 0 ? midi::make_sysex7_complete_packet(g) : f == 1 ? midi::make_sysex7_start_packet(g)
           : f == 2 ? midi::make_sysex7_continue_packet(g) : midi::make_sysex7_end_packet(g);
    uint32_t w[4] = { 0x30000000u | g << 24 | uint32_t(f) << 20, 0, 0, 0 };
    is_words(p, w, "factory");
    is_words(midi::sysex7_packet(uint8_t(f << 4), g), w, "constructor");
    is_words(midi::sysex7_packet(), 0x30000000u);
    is_words(midi::data_message(), 0x30000000u);
    is_words(midi::data_message(uint8_t(f << 4)), 0x30000000u | uint32_t(f) << 20);
    REQUIRE_EQ(midi::make_sysex7_start_packet().data[0], 0x30100000u);
    REQUIRE_EQ(midi::make_sysex7_complete_packet().data[0], 0x30000000u);
    REQUIRE_EQ(midi::make_sysex7_continue_packet().data[0], 0x30200000u);
    REQUIRE_EQ(midi::make_sysex7_end_packet().data[0], 0x30300000u);
    size_t n = 0;
    while (s.more(n, 8, 40))
    {
        const auto size = size_t(byte_of(w, 1) & 15);
        switch (s.draw(3))
        {
        case 0:
            if (size < 6)
            {
                const auto v = uint8_t(s.bits(7));
                s.note([&](auto& o) { o << "add " << +v << "; "; });
                p.add_payload_byte(v);
                put_byte(w, 2 + size, v);
                put_byte(w, 1, uint8_t(byte_of(w, 1) + 1));
            }
            break;
        case 1: {
            const auto b = s.draw(5);
            const auto v = uint8_t(s.bits(8));
            s.note([&](auto& o) { o << "set " << b << "=" << +v << "; "; });
            p.set_payload_byte(b, v);
            put_byte(w, 2 + b, v & 0x7F);
            break;
        }
        case 2: {
            const auto k = s.draw(6);
            s.note([&](auto& o) { o << "size=" << k << "; "; });
            p.set_payload_size(k);
            put_byte(w, 1, uint8_t((byte_of(w, 1) & 0xF0) | k));
            break;
        }
        default: {
            const auto k = uint32_t(s.draw(15));
            s.note([&](auto& o) { o << "group=" << k << "; "; });
            p.set_group(uint8_t(k));
            w[0] = (w[0] & 0xF0FFFFFF) | k << 24;
        }
        }
        is_words(p, w, "after setter");
        REQUIRE_EQ(p.payload_size(), size_t(byte_of(w, 1) & 15));
        REQUIRE_EQ(unsigned(p.format()), unsigned(f));
        for (size_t b = 0; b < 6; ++b)
            REQUIRE_EQ(p.payload_byte(b), byte_of(w, 2 + b));
        const auto v = midi::as_sysex7_packet_view(p);
        REQUIRE(v.has_value());
        REQUIRE_EQ(v->payload_size(), p.payload_size());
        REQUIRE_EQ(unsigned(v->format()), unsigned(f));
        REQUIRE_EQ(unsigned(v->group()), (w[0] >> 24) & 15);
        for (size_t b = 0; b < v->payload_size(); ++b)
            REQUIRE_EQ(v->payload_byte(b), byte_of(w, 2 + b));
    }
    if (n > 1)
        s.nontrivial();
}

void sysex8_setters(Src& s)
{
    const auto g  = uint8_t(s.draw(15));
    const auto id = uint8_t(s.bits(8));
    const auto f  = s.draw(3);
    auto p = f == 0 ? midi::make_sysex8_complete_packet(id, g) : f == 1 ? midi::make_sysex8_start_packet(id, g)
           : f == 2 ? midi::make_sysex8_continue_packet(id, g) : midi::make_sysex8_end_packet(id, g);
    uint32_t w[4] = { 0x50010000u | g << 24 | uint32_t(f) << 20 | id << 8, 0, 0, 0 };
    is_words(p, w, "factory");
    is_words(midi::sysex8_packet(uint8_t(f << 4), id, g), w, "constructor");
    is_words(midi::sysex8_packet(), 0x50010000u);
    is_words(midi::extended_data_message(), 0x50000000u);
    is_words(midi::extended_data_message(uint8_t(f << 4)), 0x50000000u | uint32_t(f) << 20);
    REQUIRE_EQ(midi::make_sysex8_start_packet(id).data[0], 0x50110000u | id << 8);
    REQUIRE_EQ(midi::make_sysex8_complete_packet(id).data[0], 0x50010000u | id << 8);
    REQUIRE_EQ(midi::make_sysex8_continue_packet(id).data[0], 0x50210000u | id << 8);
    REQUIRE_EQ(midi::make_sysex8_end_packet(id).data[0], 0x50310000u | id << 8);
    size_t n = 0;
    while (s.more(n, 12, 60))
    {
        const auto size = size_t((byte_of(w, 1) & 15) - 1);
        switch (s.draw(4))
        {
        case 0:
        case 1:
            if (size < 13)
            {
                const auto v = uint8_t(s.bits(8));
                s.note([&](auto& o) { o << "add " << +v << "; "; });
                p.add_payload_byte(v);
                put_byte(w, 3 + size, v);
                put_byte(w, 1, uint8_t(byte_of(w, 1) + 1));
            }
            break;
        case 2: {
            const auto b = s.draw(12);
            const auto v = uint8_t(s.bits(8));
            s.note([&](auto& o) { o << "set " << b << "=" << +v << "; "; });
            p.set_payload_byte(b, v);
            put_byte(w, 3 + b, v);
            break;
        }
        case 3: {
            const auto k = s.draw(13);
            s.note([&](auto& o) { o << "size=" << k << "; "; });
            p.set_payload_size(k);
            put_byte(w, 1, uint8_t((byte_of(w, 1) & 0xF0) | (k + 1)));
            break;
        }
        default: {
            const auto k = uint8_t(s.bits(8));
            s.note([&](auto& o) { o << "stream=" << +k << "; "; });
            p.set_stream_id(k);
            put_byte(w, 2, k);
        }
        }
        is_words(p, w, "after setter");
        REQUIRE_EQ(p.payload_size(), size_t((byte_of(w, 1) & 15) - 1));
        REQUIRE_EQ(unsigned(p.format()), unsigned(f));
        REQUIRE_EQ(p.stream_id(), byte_of(w, 2));
        for (size_t b = 0; b < 13; ++b)
            REQUIRE_EQ(p.payload_byte(b), byte_of(w, 3 + b));
        const auto v = midi::as_sysex8_packet_view(p);
        REQUIRE(v.has_value());
        REQUIRE_EQ(v->payload_size(), p.payload_size());
        REQUIRE_EQ(v->stream_id(), p.stream_id());
        REQUIRE_EQ(unsigned(v->format()), unsigned(f));
        REQUIRE_EQ(unsigned(v->group()), (w[0] >> 24) & 15);
        for (size_t b = 0; b < v->payload_size(); ++b)
            REQUIRE_EQ(v->payload_byte(b), byte_of(w, 3 + b));
    }
    if (n > 1)
        s.nontrivial();
}

void flex(Src& s)
{
    const auto k = s.draw(6);
    const auto g = uint8_t(s.draw(15));
    const auto f = midi::packet_format(s.draw(3));
    const auto addr = midi::packet_address(s.draw(1));
    const auto ch = uint8_t(addr == midi::packet_address::channel ? s.draw(15) : 0);
    const auto bank = uint8_t(s.bits(8)), st = uint8_t(s.bits(8));
    const uint32_t d[3] = { uint32_t(s.u32()), uint32_t(s.u32()), uint32_t(s.u32()) };
    uint8_t b[6];
    for (auto& x : b)
        x = uint8_t(s.bits(8));
    s.note([&](auto& o) { o << "flex factory " << k << " group " << +g << " format " << int(f) << " address " << int(addr) << " channel " << +ch << " " << show_words(d, 3) << "\n"; });
    auto head = [&](midi::packet_format ff, midi::packet_address aa, uint32_t c, uint32_t bk, uint32_t ss) {
        return 0xD0000000u | g << 24 | (uint32_t(ff) << 6 | uint32_t(aa) << 4 | c) << 16 | bk << 8 | ss;
    };
    auto check = [&](const midi::flex_data_message& p, uint32_t w0, uint32_t w1, uint32_t w2, uint32_t w3) {
        is_words(p, w0, w1, w2, w3);
        REQUIRE_EQ(p.size(), size_t(4));
        REQUIRE_EQ(p.group(), g);
        REQUIRE_EQ(unsigned(p.format()), (w0 >> 22) & 3);
        REQUIRE_EQ(unsigned(p.address()), (w0 >> 20) & 3);
        REQUIRE_EQ(unsigned(p.status_bank()), (w0 >> 8) & 0xFF);
        REQUIRE_EQ(unsigned(p.status()), w0 & 0xFF);
        const auto v = midi::as_flex_data_message_view(p);
        REQUIRE(v.has_value());
        REQUIRE_EQ(v->group(), g);
        REQUIRE_EQ(unsigned(v->format()), (w0 >> 22) & 3);
        REQUIRE_EQ(unsigned(v->address()), (w0 >> 20) & 3);
        REQUIRE_EQ(unsigned(v->channel()), (w0 >> 16) & 15);
        REQUIRE_EQ(unsigned(v->status_bank()), (w0 >> 8) & 0xFF);
        REQUIRE_EQ(unsigned(v->status()), w0 & 0xFF);
        REQUIRE_EQ(v->data1(), w1);
        REQUIRE_EQ(v->data2(), w2);
        REQUIRE_EQ(v->data3(), w3);
    };
    constexpr auto C = midi::packet_format::complete;
    constexpr auto G = midi::packet_address::group;
    switch (k)
    {
    case 0:
        check(midi::make_flex_data_message(g, f, addr, ch, bank, st, d[0], d[1], d[2]), head(f, addr, ch, bank, st), d[0], d[1], d[2]);
        check(midi::make_flex_data_message(g, f, addr, ch, bank, st, d[0]), head(f, addr, ch, bank, st), d[0], 0, 0);
        check(midi::flex_data_message(g, f, addr, ch, bank, st, d[0], d[1]), head(f, addr, ch, bank, st), d[0], d[1], 0);
        check(midi::flex_data_message(g), 0xD0000000u | g << 24, 0, 0, 0);
        break;
    case 1: check(midi::make_set_tempo_message(g, d[0]), head(C, G, 0, 0, 0), d[0], 0, 0); break;
    case 2:
        check(midi::make_set_time_signature_message(g, b[0], b[1], b[2]), head(C, G, 0, 0, 1),
              uint32_t(b[0]) << 24 | b[1] << 16 | b[2] << 8, 0, 0);
        break;
    case 3:
        check(midi::make_set_metronome_message(g, b[0], b[1], b[2], b[3], b[4], b[5]), head(C, G, 0, 0, 2),
              uint32_t(b[0]) << 24 | b[1] << 16 | b[2] << 8 | b[3], uint32_t(b[4]) << 24 | b[5] << 16, 0);
        break;
    case 4:
        check(midi::make_set_key_signature_message(g, addr, ch, b[0] & 15, b[1] & 15), head(C, addr, ch, 0, 5),
              uint32_t(b[0] & 15) << 28 | uint32_t(b[1] & 15) << 24, 0, 0);
        break;
    case 5: check(midi::make_set_chord_message(g, addr, ch, d[0], d[1], d[2]), head(C, addr, ch, 0, 6), d[0], d[1], d[2]); break;
    default: {
        const size_t len = (f == C || f == midi::packet_format::end) ? s.draw(12) : 12;
        std::string  text;
        const bool   nul = s.chance(1, 6);
        for (size_t i = 0; i < len; ++i)
            text.push_back(char(nul && s.chance(1, 5) ? 0 : 1 + s.draw(254)));
        // the view is onto a string that is not NUL terminated
        std::unique_ptr<char[]> raw(new char[len ? len : 1]);
        memcpy(raw.get(), text.data(), len);
        uint32_t w[4] = { head(f, addr, ch, bank, st), 0, 0, 0 };
        for (size_t i = 0; i < len; ++i)
            put_byte(w, 4 + i, uint8_t(text[i]));
        const auto p = midi::make_flex_data_text_message(g, f, addr, ch, bank, st, std::string_view(raw.get(), len));
        check(p, w[0], w[1], w[2], w[3]);
        const std::string want(text.c_str());
        REQUIRE_EQ(p.payload_as_string(), want);
        REQUIRE_EQ(midi::flex_data_message::payload_as_string(p), want);
        REQUIRE_EQ(std::string(midi::as_flex_data_message_view(p)->payload_as_string()), want);
        if (!nul)
            REQUIRE_EQ(p.payload_as_string(), text);
    }
    }
    s.nontrivial();
}

void named(Src& s)
{
    const auto& k = pick_named(s, named_utility_statuses, named_system_statuses, named_data_statuses, named_extended_data_statuses);
    const auto  g = uint8_t(s.draw(15));
    is_words(midi::make_system_message(g, uint8_t(k.lib)), 0x10000000u | g << 24 | k.spec << 16);
    is_words(midi::make_utility_message(uint8_t(k.lib), 0), k.spec << 16);
    REQUIRE_EQ(unsigned(midi::packet_format::complete), 0u);
    REQUIRE_EQ(unsigned(midi::packet_format::start), 1u);
    REQUIRE_EQ(unsigned(midi::packet_format::cont), 2u);
    REQUIRE_EQ(unsigned(midi::packet_format::end), 3u);
    REQUIRE_EQ(unsigned(midi::packet_address::channel), 0u);
    REQUIRE_EQ(unsigned(midi::packet_address::group), 1u);
    s.nontrivial();
}

} // namespace

const char* pbt::g_property = "C15";
std::vector<Facet> pbt::facets()
{
    return {
        { "utility_system", "every case", utility_system, 200000, 5000000 },
        { "sysex7_setters", "at least two setter calls", sysex7_setters, 100000, 2500000 },
        { "sysex8_setters", "at least two setter calls", sysex8_setters, 100000, 2500000 },
        { "named_constants", "every constant (enumerated)", named, 5000, 20000,
          count_named(named_utility_statuses, named_system_statuses, named_data_statuses, named_extended_data_statuses) },
        { "flex", "every case (factory enumerated)", flex, 250000, 6000000, 7 },
    };
}
