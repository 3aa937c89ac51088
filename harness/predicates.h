#pragma once
#include "common.h"
#include <midi/channel_voice_message.h>

namespace h {

//! all predicates of the library against the definition
inline void check_predicates(const midi::universal_packet& p)
{
    const unsigned t = p.data[0] >> 28, st = (p.data[0] >> 20) & 15, b3 = (p.data[0] >> 8) & 0xFF, b4 = p.data[0] & 0xFF;
    const bool     m1 = t == 2, m2 = t == 4, cv = m1 || m2;
    REQUIRE_EQ(midi::is_midi1_channel_voice_message(p), m1);
    REQUIRE_EQ(midi::is_midi2_channel_voice_message(p), m2);
    REQUIRE_EQ(p.is_channel_voice_message(), cv);
    if (t != 1)
        REQUIRE_EQ(p.is_midi1_protocol_message(), m1 && st >= 8 && st < 15);
    REQUIRE_EQ(midi::as_midi1_channel_voice_message_view(p).has_value(), m1);
    REQUIRE_EQ(midi::as_midi2_channel_voice_message_view(p).has_value(), m2);
    for (unsigned k = 0; k < 16; ++k)
        REQUIRE_EQ(midi::is_channel_voice_message_with_status(p, midi::status_t(k << 4)), cv && st == k);
    REQUIRE_EQ(midi::is_note_on_message(p), cv && st == 9 && (m2 || b4 != 0));
    REQUIRE_EQ(midi::is_note_off_message(p), cv && (st == 8 || (m1 && st == 9 && b4 == 0)));
    REQUIRE_EQ(midi::is_poly_pressure_message(p), cv && st == 0xA);
    REQUIRE_EQ(midi::is_control_change_message(p), cv && st == 0xB);
    REQUIRE_EQ(midi::is_program_change_message(p), cv && st == 0xC);
    REQUIRE_EQ(midi::is_channel_pressure_message(p), cv && st == 0xD);
    REQUIRE_EQ(midi::is_channel_pitch_bend_message(p), cv && st == 0xE);
    REQUIRE_EQ(midi::is_registered_per_note_controller_message(p), m2 && st == 0);
    REQUIRE_EQ(midi::is_registered_per_note_controller_pitch_message(p), m2 && st == 0 && b4 == 3);
    REQUIRE_EQ(midi::is_assignable_per_note_controller_message(p), m2 && st == 1);
    REQUIRE_EQ(midi::is_registered_controller_message(p), m2 && st == 2);
    REQUIRE_EQ(midi::is_assignable_controller_message(p), m2 && st == 3);
    REQUIRE_EQ(midi::is_per_note_pitch_bend_message(p), m2 && st == 6);
    REQUIRE_EQ(midi::is_midi2_registered_controller_message(p), m2 && st == 2);
    REQUIRE_EQ(midi::is_midi2_assignable_controller_message(p), m2 && st == 3);
    REQUIRE_EQ(midi::is_midi2_registered_per_note_controller_message(p), m2 && st == 0);
    REQUIRE_EQ(midi::is_midi2_assignable_per_note_controller_message(p), m2 && st == 1);
    REQUIRE_EQ(midi::is_midi2_per_note_pitch_bend_message(p), m2 && st == 6);
    REQUIRE_EQ(midi::is_pitch_bend_sensitivity_message(p), m2 && st == 2 && b3 == 0 && b4 == 0);
    REQUIRE_EQ(midi::is_per_note_pitch_bend_sensitivity_message(p), m2 && st == 2 && b3 == 0 && b4 == 7);
    for (unsigned a : { 0u, 1u, 2u, 3u, 0x83u, b4 ^ 0x80u, b4 })
    {
        REQUIRE_EQ(midi::is_note_on_with_attribute(p, uint8_t(a)), m2 && st == 9 && b4 == a);
        REQUIRE_EQ(midi::is_note_off_with_attribute(p, uint8_t(a)), m2 && st == 8 && b4 == a);
    }
    REQUIRE_EQ(midi::is_note_on_with_pitch_7_9(p), m2 && st == 9 && b4 == 3);
}

} // namespace h
