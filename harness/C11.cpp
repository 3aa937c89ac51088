#include "common.h"
#include <midi/channel_voice_message.h>

using namespace h;

namespace {

uint32_t up(uint32_t v, unsigned x, unsigned y)
{
    // min-center-max upscaling
    const unsigned n = y - x;
    uint64_t       r = uint64_t(v) << n;
    if (v > (1u << (x - 1)))
        for (unsigned i = 0, src = 0; i < n; ++i, src = (src + 1) % (x - 1))
            if ((v >> (x - 2 - src)) & 1)
                r |= uint64_t(1) << (n - 1 - i);
    return uint32_t(r);
}

bool reserved_controller(unsigned c)
{
    return c == 0 || c == 6 || c == 32 || c == 38 || c == 88 || (c >= 98 && c <= 101);
}

//! expected MIDI 2 words of a MIDI 1 message
bool model_1_to_2(uint32_t w, uint32_t out[2])
{
    const uint32_t grp = w & 0x0F000000, ch = (w >> 16) & 15, d1 = (w >> 8) & 0x7F, d2 = w & 0x7F;
    auto put = [&](uint32_t st, uint32_t b3, uint32_t data) {
        out[0] = 0x40000000u | grp | (st | ch) << 16 | b3 << 8;
        out[1] = data;
        return true;
    };
    switch ((w >> 20) & 15)
    {
    case 0x8: return put(0x80, d1, up(d2, 7, 16) << 16);
    case 0x9: return d2 ? put(0x90, d1, up(d2, 7, 16) << 16) : put(0x80, d1, 0x80000000u);
    case 0xA: return put(0xA0, d1, up(d2, 7, 32));
    case 0xB: return !reserved_controller(d1) && put(0xB0, d1, up(d2, 7, 32));
    case 0xC: return put(0xC0, 0, d1 << 24);
    case 0xD: return put(0xD0, 0, up(d1, 7, 32));
    case 0xE: return put(0xE0, 0, up(d1 | d2 << 7, 14, 32));
    default: return false;
    }
}

bool model_2_to_1(const uint32_t* w, uint32_t& out)
{
    const uint32_t grp = w[0] & 0x0F000000, ch = (w[0] >> 16) & 15, b3 = (w[0] >> 8) & 0x7F, b4 = w[0] & 0xFF, d = w[1];
    auto put = [&](uint32_t st, uint32_t d1, uint32_t d2) {
        out = 0x20000000u | grp | (st | ch) << 16 | d1 << 8 | d2;
        return true;
    };
    switch ((w[0] >> 20) & 15)
    {
    case 0x8: return b4 == 0 && put(0x80, b3, d >> 25);
    case 0x9: return b4 == 0 && put(0x90, b3, (d >> 25) ? (d >> 25) : 1);
    case 0xA: return put(0xA0, b3, d >> 25);
    case 0xB: return !reserved_controller(b3) && put(0xB0, b3, d >> 25);
    case 0xC: return (b4 & 1) == 0 && put(0xC0, (d >> 24) & 0x7F, 0);
    case 0xD: return put(0xD0, d >> 25, 0);
    case 0xE: return put(0xE0, (d >> 18) & 0x7F, d >> 25);
    default: return false;
    }
}

void check_1(Src& s, uint32_t w)
{
    const midi::universal_packet p(w);
    uint32_t                     want[2];
    const bool                   ok = model_1_to_2(w, want);
    s.note([&](auto& o) { o << show_words(&w, 1) << "\n"; });
    auto v = midi::as_midi1_channel_voice_message_view(p);
    REQUIRE(v.has_value());
    const auto m2 = midi::as_midi2_channel_voice_message(*v);
    REQUIRE_MSG(m2.has_value() == ok, (ok ? "translatable message refused" : "message without counterpart translated"));
    if (!ok)
    {
        s.label("refused");
        return;
    }
    REQUIRE_MSG(m2->data[0] == want[0] && m2->data[1] == want[1] && !m2->data[2] && !m2->data[3],
                "MIDI 2 form " << show_packet(*m2) << ", expected " << show_words(want, 2));
    // and back
    const auto m1 = midi::as_midi1_channel_voice_message(midi::midi2_channel_voice_message_view{ *m2 });
    REQUIRE(m1.has_value());
    uint32_t       same = w;
    const unsigned st   = (w >> 20) & 15;
    if (st == 9 && !(w & 0x7F))
        same = (w & 0xFF0F7F00u) | 0x00800040u;
    if (st == 0xC || st == 0xD)
        same &= 0xFFFFFF00u;
    REQUIRE_EQ(m1->data[0], same);
    REQUIRE_EQ(m1->data[1] | m1->data[2] | m1->data[3], 0u);
    // protocol independent accessors see the same message
    REQUIRE_EQ(midi::is_note_on_message(p), midi::is_note_on_message(*m2));
    REQUIRE_EQ(midi::is_note_off_message(p), midi::is_note_off_message(*m2));
    if (st == 8 || st == 9)
    {
        REQUIRE_EQ(midi::get_note_velocity(p).value, midi::get_note_velocity(*m2).value);
        REQUIRE_EQ(midi::get_note_nr(p), midi::get_note_nr(*m2));
    }
    s.nontrivial();
}

//! every MIDI 1 status, channel, controller with chosen second byte
void all_midi1(Src& s)
{
    const auto k = uint32_t(s.draw(256 * 128 - 1)); // status, data 1
    uint32_t   w = 0x20000000u | uint32_t(s.draw(15)) << 24 | (k >> 7) << 16 | (k & 0x7F) << 8;
    for (uint32_t d2 : { 0u, 1u, 63u, 64u, 65u, 127u })
        check_1(s, w | d2);
    check_1(s, w | uint32_t(s.bits(7)));
}

void midi1(Src& s)
{
    check_1(s, 0x20000000u | uint32_t(s.draw(15)) << 24 | uint32_t(0x80 + s.draw(0x7F)) << 16 | uint32_t(s.bits(7)) << 8 | uint32_t(s.bits(7)));
}

void check_2(Src& s, const uint32_t* w)
{
    const midi::universal_packet p(w[0], w[1]);
    s.note([&](auto& o) { o << show_words(w, 2) << "\n"; });
    uint32_t   want = 0;
    const bool ok   = model_2_to_1(w, want);
    const auto v    = midi::as_midi2_channel_voice_message_view(p);
    REQUIRE(v.has_value());
    const auto m1 = midi::as_midi1_channel_voice_message(*v);
    REQUIRE_MSG(m1.has_value() == ok, (ok ? "translatable message refused" : "message without counterpart translated") << " " << show_words(w, 2));
    if (!ok)
    {
        s.label("refused");
        s.nontrivial();
        return;
    }
    REQUIRE_MSG(m1->data[0] == want && !m1->data[1] && !m1->data[2] && !m1->data[3],
                "MIDI 1 form " << show_packet(*m1) << ", expected " << show_words(&want, 1));
    REQUIRE_EQ(midi::is_note_on_message(p), midi::is_note_on_message(*m1));
    REQUIRE_EQ(midi::is_note_off_message(p), midi::is_note_off_message(*m1));
    // up again: same message at MIDI 1 resolution, and stable from there on
    const auto m2 = midi::as_midi2_channel_voice_message(midi::midi1_channel_voice_message_view{ *m1 });
    REQUIRE(m2.has_value());
    REQUIRE_EQ(m2->data[0], w[0] & (((w[0] >> 20) & 15) < 0xC ? 0xFFFFFF00u : 0xFFFF0000u));
    const auto again = midi::as_midi1_channel_voice_message(midi::midi2_channel_voice_message_view{ *m2 });
    REQUIRE(again.has_value());
    REQUIRE_EQ(again->data[0], m1->data[0]);
    s.nontrivial();
}

//! all statuses x byte 3, then random
void all_midi2(Src& s)
{
    const auto k = uint32_t(s.draw(256 * 128 - 1));
    const auto st = k >> 7;
    uint32_t   w[2] = { 0x40000000u | uint32_t(s.draw(15)) << 24 | st << 16, uint32_t(s.u32()) };
    if (st < 0xC0 || st >= 0xF0)
        w[0] |= (k & 0x7F) << 8;
    if (st < 0xA0 || (st >= 0xC0 && st < 0xD0) || st >= 0xF0)
        w[0] |= s.chance(1, 2) ? uint32_t(s.draw(3)) : uint32_t(s.bits(8));
    if (s.chance(1, 4))
        w[1] = uint32_t(s.draw(0x3FFFFFF)); // around the lowest 7 bit steps
    check_2(s, w);
}

void midi2_notes(Src& s)
{
    uint32_t w[2] = { 0x40000000u | uint32_t(s.draw(15)) << 24 | uint32_t(0x80 + s.draw(31)) << 16 | uint32_t(s.bits(7)) << 8, uint32_t(s.u32()) };
    if (s.chance(1, 3))
        w[0] |= uint32_t(s.bits(8));
    if (s.chance(1, 3))
        w[1] = uint32_t(s.draw(0x3FF)) << 16 | uint32_t(s.bits(16));
    check_2(s, w);
}

} // namespace

const char* pbt::g_property = "C11";
std::vector<Facet> pbt::facets()
{
    return {
        { "all_midi1", "every status byte x first data byte; counted if the message has a MIDI 2 counterpart", all_midi1, 33000, 660000, 32768 },
        { "midi1", "message has a MIDI 2 counterpart", midi1, 200000, 5000000 },
        { "all_midi2", "every status byte x byte 3 of MIDI 2 channel voice", all_midi2, 70000, 2000000, 32768 },
        { "midi2_notes", "MIDI 2 note on/off with any attribute, velocities around the lowest step", midi2_notes, 200000, 5000000 },
    };
}
