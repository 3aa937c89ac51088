#include "names.h"
#include "predicates.h"

using namespace h;
using midi::universal_packet;

namespace {

struct Args
{
    uint8_t  g, c, n, b;   // group, channel, 7 bit, 7 bit
    uint8_t  e;            // 8 bit
    uint16_t v16, w16;
    uint32_t v;
};

Args gen(Src& s)
{
    Args a{};
    a.g = uint8_t(s.draw(15));
    a.c = uint8_t(s.draw(15));
    a.n = uint8_t(s.bits(7));
    a.b = uint8_t(s.bits(7));
    a.e = uint8_t(s.bits(8));
    a.v16 = uint16_t(s.bits(16));
    a.w16 = uint16_t(s.bits(16));
    a.v = uint32_t(s.u32());
    return a;
}

void is_words(const universal_packet& p, uint32_t w0, uint32_t w1 = 0)
{
    const uint32_t want[2] = { w0, w1 };
    REQUIRE_MSG(p.data[0] == w0 && p.data[1] == w1 && !p.data[2] && !p.data[3],
                "packet " << show_packet(p) << ", expected " << show_words(want, 2));
    REQUIRE_EQ(p.size(), size_t((w0 >> 28) == 2 ? 1 : 2));
}

void common(const universal_packet& p, const Args& a, unsigned status)
{
    REQUIRE_EQ(p.group(), a.g);
    REQUIRE(p.has_channel());
    REQUIRE_EQ(p.channel(), a.c);
    if ((p.data[0] >> 28) == 2)
    {
        const auto v = midi::as_midi1_channel_voice_message_view(p);
        REQUIRE(v.has_value());
        REQUIRE_EQ(v->group(), a.g);
        REQUIRE_EQ(v->channel(), a.c);
        REQUIRE_EQ(unsigned(v->status()), status);
        REQUIRE_EQ(unsigned(v->data_byte_1()), (p.data[0] >> 8) & 0xFF);
        REQUIRE_EQ(unsigned(v->data_byte_2()), p.data[0] & 0xFF);
        REQUIRE_EQ(unsigned(v->get_14bit_value()), ((p.data[0] >> 8) & 0xFF) | (p.data[0] & 0xFF) << 7);
    }
    else
    {
        const auto v = midi::as_midi2_channel_voice_message_view(p);
        REQUIRE(v.has_value());
        REQUIRE_EQ(v->group(), a.g);
        REQUIRE_EQ(v->channel(), a.c);
        REQUIRE_EQ(unsigned(v->status()), status);
        REQUIRE_EQ(unsigned(v->byte3()), (p.data[0] >> 8) & 0xFF);
        REQUIRE_EQ(unsigned(v->byte4()), p.data[0] & 0xFF);
        REQUIRE_EQ(v->data(), p.data[1]);
    }
    check_predicates(p);
}

void midi1(Src& s)
{
    const auto     k = s.draw(7);
    const Args     a = gen(s);
    const uint32_t base = 0x20000000u | uint32_t(a.g) << 24 | uint32_t(a.c) << 16;
    const auto     v7 = a.v >> 25, vel7 = uint32_t(a.v16) >> 9;
    const midi::velocity         vel{ a.v16 };
    const midi::controller_value cv{ a.v };
    s.note([&](auto& o) { o << "midi1 factory " << k << " group " << +a.g << " channel " << +a.c << " nr " << +a.n << " value " << a.v << "/" << a.v16 << "\n"; });
    s.nontrivial();
    switch (k)
    {
    case 0: {
        const auto p = midi::make_midi1_note_off_message(a.g, a.c, a.n, vel);
        is_words(p, base | 0x800000 | a.n << 8 | vel7);
        common(p, a, 0x80);
        REQUIRE_EQ(midi::get_note_nr(p), a.n);
        REQUIRE_EQ(midi::get_note_pitch(p).value, midi::pitch_7_9(a.n).value);
        REQUIRE_EQ(midi::get_note_velocity(p).value, midi::velocity(uint8_t(vel7)).value);
        is_words(midi::make_midi1_note_off_message(a.g, a.c, a.n), base | 0x800000 | a.n << 8 | 64);
        break;
    }
    case 1: {
        const auto p = midi::make_midi1_note_on_message(a.g, a.c, a.n, vel);
        is_words(p, base | 0x900000 | a.n << 8 | vel7);
        common(p, a, 0x90);
        REQUIRE_EQ(midi::get_note_nr(p), a.n);
        REQUIRE_EQ(midi::get_note_pitch(p).value, midi::pitch_7_9(a.n).value);
        REQUIRE_EQ(midi::get_note_velocity(p).value, midi::velocity(uint8_t(vel7 ? vel7 : 64)).value);
        break;
    }
    case 2: {
        const auto p = midi::make_midi1_poly_pressure_message(a.g, a.c, a.n, cv);
        is_words(p, base | 0xA00000 | a.n << 8 | v7);
        common(p, a, 0xA0);
        REQUIRE_EQ(midi::get_note_nr(p), a.n);
        REQUIRE_EQ(midi::get_poly_pressure_value(p).value, midi::controller_value(uint8_t(v7)).value);
        break;
    }
    case 3: {
        const auto p = midi::make_midi1_control_change_message(a.g, a.c, a.n, cv);
        is_words(p, base | 0xB00000 | a.n << 8 | v7);
        common(p, a, 0xB0);
        REQUIRE_EQ(midi::get_controller_nr(p), a.n);
        REQUIRE_EQ(midi::get_controller_value(p).value, midi::controller_value(uint8_t(v7)).value);
        break;
    }
    case 4: {
        const auto p = midi::make_midi1_program_change_message(a.g, a.c, a.n);
        is_words(p, base | 0xC00000 | a.n << 8);
        common(p, a, 0xC0);
        REQUIRE_EQ(midi::get_program_value(p), a.n);
        break;
    }
    case 5: {
        const auto p = midi::make_midi1_channel_pressure_message(a.g, a.c, cv);
        is_words(p, base | 0xD00000 | v7 << 8);
        common(p, a, 0xD0);
        REQUIRE_EQ(midi::get_channel_pressure_value(p).value, midi::controller_value(uint8_t(v7)).value);
        break;
    }
    case 6: {
        const auto p = midi::make_midi1_pitch_bend_message(a.g, a.c, midi::pitch_bend{ a.v });
        is_words(p, base | 0xE00000 | ((a.v >> 18) & 0x7F) << 8 | a.v >> 25);
        common(p, a, 0xE0);
        REQUIRE_EQ(midi::get_channel_pitch_bend_value(p).value, midi::pitch_bend(uint16_t(a.v >> 18)).value);
        break;
    }
    default: {
        const auto st = uint32_t(0x80 + 0x10 * (a.b % 7));
        const auto p  = midi::make_midi1_channel_voice_message(a.g, uint8_t(st), a.c, a.n, a.b);
        is_words(p, base | st << 16 | a.n << 8 | a.b);
        common(p, a, st);
        const midi::midi1_channel_voice_message q(a.g, uint8_t(st | a.c), a.n, a.b);
        is_words(q, base | st << 16 | a.n << 8 | a.b);
        const midi::midi1_channel_voice_message c{ universal_packet{ p } };
        is_words(c, p.data[0]);
        is_words(midi::make_midi1_channel_voice_message(a.g, uint8_t(st), a.c, a.n), base | st << 16 | a.n << 8);
    }
    }
}

void midi2(Src& s)
{
    const auto     k = s.draw(18);
    const Args     a = gen(s);
    const uint32_t base = 0x40000000u | uint32_t(a.g) << 24 | uint32_t(a.c) << 16;
    const midi::velocity         vel{ a.v16 };
    const midi::controller_value cv{ a.v };
    const midi::controller_increment inc{ int32_t(a.v) };
    const uint32_t hv = uint32_t(a.v16) << 16 | a.w16;
    s.note([&](auto& o) { o << "midi2 factory " << k << " group " << +a.g << " channel " << +a.c << " nr " << +a.n << "/" << +a.b << "/" << +a.e << " value " << a.v << "/" << a.v16 << "/" << a.w16 << "\n"; });
    s.nontrivial();
    auto note = [&](const universal_packet& p, unsigned pitch) {
        REQUIRE_EQ(midi::get_note_nr(p), a.n);
        REQUIRE_EQ(midi::get_note_velocity(p).value, a.v16);
        REQUIRE_EQ(unsigned(midi::get_note_pitch(p).value), pitch);
    };
    switch (k)
    {
    case 0: {
        const auto p = midi::make_midi2_note_off_message(a.g, a.c, a.n, vel, a.e, a.w16);
        is_words(p, base | 0x800000 | a.n << 8 | a.e, hv);
        common(p, a, 0x80);
        note(p, a.n << 9);
        REQUIRE_EQ(midi::get_midi2_note_attribute(p), a.e);
        REQUIRE_EQ(midi::get_midi2_note_attribute_data(p), a.w16);
        break;
    }
    case 1: {
        const auto p = midi::make_midi2_note_off_message(a.g, a.c, a.n, vel);
        is_words(p, base | 0x800000 | a.n << 8, uint32_t(a.v16) << 16);
        common(p, a, 0x80);
        note(p, a.n << 9);
        break;
    }
    case 2: {
        const auto p = midi::make_midi2_note_on_message(a.g, a.c, a.n, vel);
        is_words(p, base | 0x900000 | a.n << 8, uint32_t(a.v16) << 16);
        common(p, a, 0x90);
        note(p, a.n << 9);
        break;
    }
    case 3: {
        const auto p = midi::make_midi2_note_on_message(a.g, a.c, a.n, vel, midi::pitch_7_9{ a.w16 });
        is_words(p, base | 0x900003 | a.n << 8, hv);
        common(p, a, 0x90);
        note(p, a.w16);
        break;
    }
    case 4: {
        const auto p = midi::make_midi2_note_on_message(a.g, a.c, a.n, vel, a.e, a.w16);
        is_words(p, base | 0x900000 | a.n << 8 | a.e, hv);
        common(p, a, 0x90);
        note(p, a.e == 3 ? a.w16 : a.n << 9);
        REQUIRE_EQ(midi::get_midi2_note_attribute(p), a.e);
        REQUIRE_EQ(midi::get_midi2_note_attribute_data(p), a.w16);
        break;
    }
    case 5: {
        const auto p = midi::make_midi2_poly_pressure_message(a.g, a.c, a.n, cv);
        is_words(p, base | 0xA00000 | a.n << 8, a.v);
        common(p, a, 0xA0);
        REQUIRE_EQ(midi::get_note_nr(p), a.n);
        REQUIRE_EQ(midi::get_poly_pressure_value(p).value, a.v);
        break;
    }
    case 6: {
        const auto p = midi::make_registered_per_note_controller_message(a.g, a.c, a.n, a.e, cv);
        is_words(p, base | a.n << 8 | a.e, a.v);
        common(p, a, 0x00);
        REQUIRE_EQ(midi::get_note_nr(p), a.n);
        REQUIRE_EQ(midi::get_per_note_controller_index(p), a.e);
        REQUIRE_EQ(midi::get_midi2_per_note_controller_index(p), a.e);
        REQUIRE_EQ(midi::get_controller_value(p).value, a.v);
        break;
    }
    case 7: {
        const auto p = midi::make_assignable_per_note_controller_message(a.g, a.c, a.n, a.e, cv);
        is_words(p, base | 0x100000 | a.n << 8 | a.e, a.v);
        common(p, a, 0x10);
        REQUIRE_EQ(midi::get_note_nr(p), a.n);
        REQUIRE_EQ(midi::get_per_note_controller_index(p), a.e);
        REQUIRE_EQ(midi::get_controller_value(p).value, a.v);
        break;
    }
    case 8: {
        const auto f = uint8_t(a.e & 3);
        const auto p = midi::make_per_note_management_message(a.g, a.c, a.n, f);
        is_words(p, base | 0xF00000 | a.n << 8 | f);
        common(p, a, 0xF0);
        REQUIRE_EQ(midi::get_note_nr(p), a.n);
        break;
    }
    case 9: {
        const auto p = midi::make_midi2_control_change_message(a.g, a.c, a.n, cv);
        is_words(p, base | 0xB00000 | a.n << 8, a.v);
        common(p, a, 0xB0);
        REQUIRE_EQ(midi::get_controller_nr(p), a.n);
        REQUIRE_EQ(midi::get_controller_value(p).value, a.v);
        break;
    }
    case 10: {
        const auto p = midi::make_registered_controller_message(a.g, a.c, a.n, a.b, cv);
        is_words(p, base | 0x200000 | a.n << 8 | a.b, a.v);
        common(p, a, 0x20);
        REQUIRE_EQ(midi::get_controller_value(p).value, a.v);
        break;
    }
    case 11: {
        // pitch bend sensitivities: registered parameters 0/0 (14 bit) and 0/7
        const auto p = midi::make_registered_controller_message(a.g, a.c, 0, 0, cv);
        common(p, a, 0x20);
        REQUIRE_EQ(midi::get_pitch_bend_sensitivity_value(p).value, a.v & 0xFFFC0000u);
        const auto q = midi::make_registered_controller_message(a.g, a.c, 0, 7, midi::controller_value{ midi::pitch_bend_sensitivity{ a.v } });
        common(q, a, 0x20);
        REQUIRE_EQ(midi::get_per_note_pitch_bend_sensitivity_value(q).value, a.v);
        break;
    }
    case 12: {
        const auto p = midi::make_assignable_controller_message(a.g, a.c, a.n, a.b, cv);
        is_words(p, base | 0x300000 | a.n << 8 | a.b, a.v);
        common(p, a, 0x30);
        REQUIRE_EQ(midi::get_controller_value(p).value, a.v);
        break;
    }
    case 13: {
        const auto p = midi::make_relative_registered_controller_message(a.g, a.c, a.n, a.b, inc);
        is_words(p, base | 0x400000 | a.n << 8 | a.b, a.v);
        common(p, a, 0x40);
        const auto q = midi::make_relative_assignable_controller_message(a.g, a.c, a.n, a.b, inc);
        is_words(q, base | 0x500000 | a.n << 8 | a.b, a.v);
        common(q, a, 0x50);
        break;
    }
    case 14: {
        const auto p = midi::make_midi2_program_change_message(a.g, a.c, a.n);
        is_words(p, base | 0xC00000, uint32_t(a.n) << 24);
        common(p, a, 0xC0);
        REQUIRE_EQ(midi::get_program_value(p), a.n);
        break;
    }
    case 15: {
        const auto bank = uint32_t(a.v16 & 0x3FFF);
        const auto p    = midi::make_midi2_program_change_message(a.g, a.c, a.n, uint16_t(bank));
        is_words(p, base | 0xC00001, uint32_t(a.n) << 24 | (bank >> 7) << 8 | (bank & 0x7F));
        common(p, a, 0xC0);
        REQUIRE_EQ(midi::get_program_value(p), a.n);
        break;
    }
    case 16: {
        const auto p = midi::make_midi2_channel_pressure_message(a.g, a.c, cv);
        is_words(p, base | 0xD00000, a.v);
        common(p, a, 0xD0);
        REQUIRE_EQ(midi::get_channel_pressure_value(p).value, a.v);
        const auto q = midi::make_midi2_pitch_bend_message(a.g, a.c, midi::pitch_bend{ a.v });
        is_words(q, base | 0xE00000, a.v);
        common(q, a, 0xE0);
        REQUIRE_EQ(midi::get_channel_pitch_bend_value(q).value, a.v);
        break;
    }
    case 17: {
        const auto p = midi::make_per_note_pitch_bend_message(a.g, a.c, a.n, midi::pitch_bend{ a.v });
        is_words(p, base | 0x600000 | a.n << 8, a.v);
        common(p, a, 0x60);
        REQUIRE_EQ(midi::get_note_nr(p), a.n);
        REQUIRE_EQ(midi::get_per_note_pitch_bend_value(p).value, a.v);
        break;
    }
    default: {
        const auto st = uint32_t(a.v16 & 0xF0);
        const auto p  = midi::make_midi2_channel_voice_message(a.g, uint8_t(st), a.c, a.n, a.b, a.v);
        is_words(p, base | st << 16 | a.n << 8 | a.b, a.v);
        common(p, a, st);
        const midi::midi2_channel_voice_message q(a.g, uint8_t(st), a.c, a.n, a.e, a.v);
        is_words(q, base | st << 16 | a.n << 8 | a.e, a.v);
        common(q, a, st);
        const midi::midi2_channel_voice_message c{ universal_packet{ q } };
        is_words(c, q.data[0], q.data[1]);
    }
    }
}

//! MIDI 1 data bytes are 7 bit, everything else arbitrary
void predicates(Src& s)
{
    const auto k = uint32_t(s.draw(16 * 256 - 1));
    uint32_t   w[4];
    w[0] = (k >> 8) << 28 | uint32_t(s.draw(15)) << 24 | (k & 0xFF) << 16;
    const bool small = s.chance(1, 2);
    w[0] |= uint32_t(small ? s.draw(8) : s.bits(8)) << 8 | uint32_t(s.chance(1, 2) ? s.draw(8) : s.bits(8));
    if ((k >> 8) == 2)
        w[0] &= 0xFFFF7F7Fu;
    for (int i = 1; i < 4; ++i)
        w[i] = uint32_t(s.u32());
    s.note([&](auto& o) { o << show_words(w, 4) << "\n"; });
    const universal_packet p(w[0], w[1], w[2], w[3]);
    check_predicates(p);
    if ((k >> 8) == 2 || (k >> 8) == 4)
        s.nontrivial();
    else
        REQUIRE_EQ(unsigned(midi::get_program_value(p)), 0xFFu);
}

//! messages built with the named controllers and statuses carry the numbers of the specification
void named(Src& s)
{
    const auto& k = pick_named(s, named_controllers, named_per_note_controllers, named_rpns, named_midi1_statuses, named_midi2_statuses,
                                named_note_management, named_note_attributes);
    const auto  a = gen(s);
    const auto  n = uint8_t(k.spec);
    if (n < 0x80)
    {
        is_words(midi::make_midi1_control_change_message(a.g, a.c, uint8_t(k.lib), midi::controller_value{ midi::uint7_t(a.b) }),
                 0x20B00000u | a.g << 24 | a.c << 16 | n << 8 | a.b);
        is_words(midi::make_midi2_control_change_message(a.g, a.c, uint8_t(k.lib), midi::controller_value{ a.v }),
                 0x40B00000u | a.g << 24 | a.c << 16 | n << 8, a.v);
    }
    else
        is_words(midi::make_midi1_channel_voice_message(a.g, uint8_t(k.lib), a.c, a.n, a.b),
                 0x20000000u | a.g << 24 | (n | a.c) << 16 | a.n << 8 | a.b);
    s.nontrivial();
}

} // namespace

const char* pbt::g_property = "C12";
std::vector<Facet> pbt::facets()
{
    return {
        { "midi1", "every MIDI 1 factory with valid arguments", midi1, 300000, 8000000, 8 },
        { "midi2", "every MIDI 2 factory with valid arguments", midi2, 500000, 12000000, 19 },
        { "named_constants", "every constant (enumerated)", named, 20000, 100000,
          count_named(named_controllers, named_per_note_controllers, named_rpns, named_midi1_statuses, named_midi2_statuses,
                                named_note_management, named_note_attributes) },
        { "predicates", "every message type x status byte; counted if it is a channel voice packet", predicates, 200000, 5000000, 4096 },
    };
}
