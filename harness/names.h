#pragma once
//! The named constants of the public interface with the values the MIDI specifications assign to them.
#include "common.h"
#include <cstdint>
#include <midi/capability_inquiry.h>
#include <midi/manufacturer.h>
#include <midi/midi2_channel_voice_message.h>
#include <midi/stream_message.h>
#include <midi/universal_packet.h>
#include <midi/universal_sysex.h>

namespace h {

struct Named
{
    const char* name;
    uint32_t    lib, spec;
};

//! one constant out of several tables
template<size_t... N>
const Named& pick_named(Src& s, const Named (&... t)[N])
{
    size_t       i   = s.draw((N + ...) - 1);
    const Named* r   = nullptr;
    auto         sel = [&](const Named* p, size_t n) {
        if (!r && i < n)
            r = p + i;
        else if (!r)
            i -= n;
    };
    (sel(t, N), ...);
    s.note([&](auto& o) { o << r->name << " = " << r->lib << "\n"; });
    REQUIRE_MSG(r->lib == r->spec, "constant " << r->name << " is " << r->lib << ", specified as " << r->spec);
    return *r;
}
template<size_t... N>
constexpr size_t count_named(const Named (&...)[N])
{
    return (N + ...);
}

inline const Named named_controllers[] = {
    { "bank_select_msb", uint32_t(midi::control_change::bank_select_msb), 0 },
    { "modulation_wheel", uint32_t(midi::control_change::modulation_wheel), 1 },
    { "breath_controller", uint32_t(midi::control_change::breath_controller), 2 },
    { "foot_controller", uint32_t(midi::control_change::foot_controller), 4 },
    { "portamento_time", uint32_t(midi::control_change::portamento_time), 5 },
    { "data_entry_msb", uint32_t(midi::control_change::data_entry_msb), 6 },
    { "volume", uint32_t(midi::control_change::volume), 7 },
    { "balance", uint32_t(midi::control_change::balance), 8 },
    { "pan", uint32_t(midi::control_change::pan), 10 },
    { "expression_controller", uint32_t(midi::control_change::expression_controller), 11 },
    { "effect_control_1", uint32_t(midi::control_change::effect_control_1), 12 },
    { "effect_control_2", uint32_t(midi::control_change::effect_control_2), 13 },
    { "general_purpose_1", uint32_t(midi::control_change::general_purpose_1), 16 },
    { "general_purpose_2", uint32_t(midi::control_change::general_purpose_2), 17 },
    { "general_purpose_3", uint32_t(midi::control_change::general_purpose_3), 18 },
    { "general_purpose_4", uint32_t(midi::control_change::general_purpose_4), 19 },
    { "bank_select", uint32_t(midi::control_change::bank_select), 32 },
    { "bank_select_lsb", uint32_t(midi::control_change::bank_select_lsb), 32 },
    { "lsb", uint32_t(midi::control_change::lsb), 32 },
    { "data_entry_lsb", uint32_t(midi::control_change::data_entry_lsb), 38 },
    { "damper_pedal", uint32_t(midi::control_change::damper_pedal), 64 },
    { "sustain", uint32_t(midi::control_change::sustain), 64 },
    { "portamento_on_off", uint32_t(midi::control_change::portamento_on_off), 65 },
    { "sustenuto", uint32_t(midi::control_change::sustenuto), 66 },
    { "soft_pedal", uint32_t(midi::control_change::soft_pedal), 67 },
    { "legato_footswitch", uint32_t(midi::control_change::legato_footswitch), 68 },
    { "hold_2", uint32_t(midi::control_change::hold_2), 69 },
    { "sound_controller_1", uint32_t(midi::control_change::sound_controller_1), 70 },
    { "sound_variation", uint32_t(midi::control_change::sound_variation), 70 },
    { "sound_controller_2", uint32_t(midi::control_change::sound_controller_2), 71 },
    { "timbre", uint32_t(midi::control_change::timbre), 71 },
    { "harmonic_intensity", uint32_t(midi::control_change::harmonic_intensity), 71 },
    { "sound_controller_3", uint32_t(midi::control_change::sound_controller_3), 72 },
    { "release_time", uint32_t(midi::control_change::release_time), 72 },
    { "sound_controller_4", uint32_t(midi::control_change::sound_controller_4), 73 },
    { "attack_time", uint32_t(midi::control_change::attack_time), 73 },
    { "sound_controller_5", uint32_t(midi::control_change::sound_controller_5), 74 },
    { "brightness", uint32_t(midi::control_change::brightness), 74 },
    { "sound_controller_6", uint32_t(midi::control_change::sound_controller_6), 75 },
    { "decay_time", uint32_t(midi::control_change::decay_time), 75 },
    { "sound_controller_7", uint32_t(midi::control_change::sound_controller_7), 76 },
    { "vibrato_rate", uint32_t(midi::control_change::vibrato_rate), 76 },
    { "sound_controller_8", uint32_t(midi::control_change::sound_controller_8), 77 },
    { "vibrato_depth", uint32_t(midi::control_change::vibrato_depth), 77 },
    { "sound_controller_9", uint32_t(midi::control_change::sound_controller_9), 78 },
    { "vibrato_delay", uint32_t(midi::control_change::vibrato_delay), 78 },
    { "sound_controller_10", uint32_t(midi::control_change::sound_controller_10), 79 },
    { "general_purpose_5", uint32_t(midi::control_change::general_purpose_5), 80 },
    { "general_purpose_6", uint32_t(midi::control_change::general_purpose_6), 81 },
    { "general_purpose_7", uint32_t(midi::control_change::general_purpose_7), 82 },
    { "general_purpose_8", uint32_t(midi::control_change::general_purpose_8), 83 },
    { "portamento_control", uint32_t(midi::control_change::portamento_control), 84 },
    { "hi_res_velocity_prefix", uint32_t(midi::control_change::hi_res_velocity_prefix), 88 },
    { "effects_1_depth", uint32_t(midi::control_change::effects_1_depth), 91 },
    { "reverb_send_level", uint32_t(midi::control_change::reverb_send_level), 91 },
    { "effects_2_depth", uint32_t(midi::control_change::effects_2_depth), 92 },
    { "effects_3_depth", uint32_t(midi::control_change::effects_3_depth), 93 },
    { "chorus_send_level", uint32_t(midi::control_change::chorus_send_level), 93 },
    { "effects_4_depth", uint32_t(midi::control_change::effects_4_depth), 94 },
    { "effects_5_depth", uint32_t(midi::control_change::effects_5_depth), 95 },
    { "data_increment", uint32_t(midi::control_change::data_increment), 96 },
    { "data_decrement", uint32_t(midi::control_change::data_decrement), 97 },
    { "nrpn_lsb", uint32_t(midi::control_change::nrpn_lsb), 98 },
    { "nrpn_msb", uint32_t(midi::control_change::nrpn_msb), 99 },
    { "rpn_lsb", uint32_t(midi::control_change::rpn_lsb), 100 },
    { "rpn_msb", uint32_t(midi::control_change::rpn_msb), 101 },
    { "all_sound_off", uint32_t(midi::control_change::all_sound_off), 120 },
    { "reset_all_controllers", uint32_t(midi::control_change::reset_all_controllers), 121 },
    { "local_control", uint32_t(midi::control_change::local_control), 122 },
    { "all_notes_off", uint32_t(midi::control_change::all_notes_off), 123 },
    { "omni_mode_off", uint32_t(midi::control_change::omni_mode_off), 124 },
    { "omni_mode_on", uint32_t(midi::control_change::omni_mode_on), 125 },
    { "mono_mode_on", uint32_t(midi::control_change::mono_mode_on), 126 },
    { "poly_mode_on", uint32_t(midi::control_change::poly_mode_on), 127 },
};

inline const Named named_per_note_controllers[] = {
    { "modulation", uint32_t(midi::registered_per_note_controller::modulation), 1 },
    { "breath", uint32_t(midi::registered_per_note_controller::breath), 2 },
    { "pitch_7_25", uint32_t(midi::registered_per_note_controller::pitch_7_25), 3 },
    { "volume", uint32_t(midi::registered_per_note_controller::volume), 7 },
    { "balance", uint32_t(midi::registered_per_note_controller::balance), 8 },
    { "pan", uint32_t(midi::registered_per_note_controller::pan), 10 },
    { "expression", uint32_t(midi::registered_per_note_controller::expression), 11 },
    { "sound_controller_1", uint32_t(midi::registered_per_note_controller::sound_controller_1), 70 },
    { "sound_variation", uint32_t(midi::registered_per_note_controller::sound_variation), 70 },
    { "sound_controller_2", uint32_t(midi::registered_per_note_controller::sound_controller_2), 71 },
    { "timbre", uint32_t(midi::registered_per_note_controller::timbre), 71 },
    { "harmonic_intensity", uint32_t(midi::registered_per_note_controller::harmonic_intensity), 71 },
    { "sound_controller_3", uint32_t(midi::registered_per_note_controller::sound_controller_3), 72 },
    { "release_time", uint32_t(midi::registered_per_note_controller::release_time), 72 },
    { "sound_controller_4", uint32_t(midi::registered_per_note_controller::sound_controller_4), 73 },
    { "attack_time", uint32_t(midi::registered_per_note_controller::attack_time), 73 },
    { "sound_controller_5", uint32_t(midi::registered_per_note_controller::sound_controller_5), 74 },
    { "brightness", uint32_t(midi::registered_per_note_controller::brightness), 74 },
    { "sound_controller_6", uint32_t(midi::registered_per_note_controller::sound_controller_6), 75 },
    { "decay_time", uint32_t(midi::registered_per_note_controller::decay_time), 75 },
    { "sound_controller_7", uint32_t(midi::registered_per_note_controller::sound_controller_7), 76 },
    { "vibrato_rate", uint32_t(midi::registered_per_note_controller::vibrato_rate), 76 },
    { "sound_controller_8", uint32_t(midi::registered_per_note_controller::sound_controller_8), 77 },
    { "vibrato_depth", uint32_t(midi::registered_per_note_controller::vibrato_depth), 77 },
    { "sound_controller_9", uint32_t(midi::registered_per_note_controller::sound_controller_9), 78 },
    { "vibrato_delay", uint32_t(midi::registered_per_note_controller::vibrato_delay), 78 },
    { "sound_controller_10", uint32_t(midi::registered_per_note_controller::sound_controller_10), 79 },
    { "effects_1_depth", uint32_t(midi::registered_per_note_controller::effects_1_depth), 91 },
    { "reverb_send_level", uint32_t(midi::registered_per_note_controller::reverb_send_level), 91 },
    { "effects_2_depth", uint32_t(midi::registered_per_note_controller::effects_2_depth), 92 },
    { "effects_3_depth", uint32_t(midi::registered_per_note_controller::effects_3_depth), 93 },
    { "chorus_send_level", uint32_t(midi::registered_per_note_controller::chorus_send_level), 93 },
    { "effects_4_depth", uint32_t(midi::registered_per_note_controller::effects_4_depth), 94 },
    { "effects_5_depth", uint32_t(midi::registered_per_note_controller::effects_5_depth), 95 },
};

inline const Named named_rpns[] = {
    { "pitch_bend_sensitivity", uint32_t(midi::registered_parameter_number::pitch_bend_sensitivity), 0 },
    { "fine_tuning", uint32_t(midi::registered_parameter_number::fine_tuning), 1 },
    { "coarse_tuning", uint32_t(midi::registered_parameter_number::coarse_tuning), 2 },
    { "tuning_program_select", uint32_t(midi::registered_parameter_number::tuning_program_select), 3 },
    { "tuning_bank_select", uint32_t(midi::registered_parameter_number::tuning_bank_select), 4 },
    { "per_note_pitch_bend_sensitivity", uint32_t(midi::registered_parameter_number::per_note_pitch_bend_sensitivity), 7 },
};

inline const Named named_midi1_statuses[] = {
    { "note_off", uint32_t(midi::midi1_channel_voice_status::note_off), 0x80 },
    { "note_on", uint32_t(midi::midi1_channel_voice_status::note_on), 0x90 },
    { "poly_pressure", uint32_t(midi::midi1_channel_voice_status::poly_pressure), 0xA0 },
    { "control_change", uint32_t(midi::midi1_channel_voice_status::control_change), 0xB0 },
    { "program_change", uint32_t(midi::midi1_channel_voice_status::program_change), 0xC0 },
    { "channel_pressure", uint32_t(midi::midi1_channel_voice_status::channel_pressure), 0xD0 },
    { "pitch_bend", uint32_t(midi::midi1_channel_voice_status::pitch_bend), 0xE0 },
};

inline const Named named_midi2_statuses[] = {
    { "registered_per_note_controller", uint32_t(midi::channel_voice_status::registered_per_note_controller), 0x00 },
    { "assignable_per_note_controller", uint32_t(midi::channel_voice_status::assignable_per_note_controller), 0x10 },
    { "registered_controller", uint32_t(midi::channel_voice_status::registered_controller), 0x20 },
    { "assignable_controller", uint32_t(midi::channel_voice_status::assignable_controller), 0x30 },
    { "relative_registered_controller", uint32_t(midi::channel_voice_status::relative_registered_controller), 0x40 },
    { "relative_assignable_controller", uint32_t(midi::channel_voice_status::relative_assignable_controller), 0x50 },
    { "per_note_pitch_bend", uint32_t(midi::channel_voice_status::per_note_pitch_bend), 0x60 },
    { "note_off", uint32_t(midi::channel_voice_status::note_off), 0x80 },
    { "note_on", uint32_t(midi::channel_voice_status::note_on), 0x90 },
    { "poly_pressure", uint32_t(midi::channel_voice_status::poly_pressure), 0xA0 },
    { "control_change", uint32_t(midi::channel_voice_status::control_change), 0xB0 },
    { "program_change", uint32_t(midi::channel_voice_status::program_change), 0xC0 },
    { "channel_pressure", uint32_t(midi::channel_voice_status::channel_pressure), 0xD0 },
    { "pitch_bend", uint32_t(midi::channel_voice_status::pitch_bend), 0xE0 },
    { "per_note_management", uint32_t(midi::channel_voice_status::per_note_management), 0xF0 },
};

inline const Named named_utility_statuses[] = {
    { "noop", uint32_t(midi::utility_status::noop), 0x00 },
    { "jr_clock", uint32_t(midi::utility_status::jr_clock), 0x10 },
    { "jr_timestamp", uint32_t(midi::utility_status::jr_timestamp), 0x20 },
};

inline const Named named_system_statuses[] = {
    { "mtc_quarter_frame", uint32_t(midi::system_status::mtc_quarter_frame), 0xF1 },
    { "song_position", uint32_t(midi::system_status::song_position), 0xF2 },
    { "song_select", uint32_t(midi::system_status::song_select), 0xF3 },
    { "tune_request", uint32_t(midi::system_status::tune_request), 0xF6 },
    { "clock", uint32_t(midi::system_status::clock), 0xF8 },
    { "start", uint32_t(midi::system_status::start), 0xFA },
    { "cont", uint32_t(midi::system_status::cont), 0xFB },
    { "stop", uint32_t(midi::system_status::stop), 0xFC },
    { "active_sense", uint32_t(midi::system_status::active_sense), 0xFE },
    { "reset", uint32_t(midi::system_status::reset), 0xFF },
};

inline const Named named_data_statuses[] = {
    { "sysex7_complete", uint32_t(midi::data_status::sysex7_complete), 0x00 },
    { "sysex7_start", uint32_t(midi::data_status::sysex7_start), 0x10 },
    { "sysex7_continue", uint32_t(midi::data_status::sysex7_continue), 0x20 },
    { "sysex7_end", uint32_t(midi::data_status::sysex7_end), 0x30 },
};

inline const Named named_extended_data_statuses[] = {
    { "sysex8_complete", uint32_t(midi::extended_data_status::sysex8_complete), 0x00 },
    { "sysex8_start", uint32_t(midi::extended_data_status::sysex8_start), 0x10 },
    { "sysex8_continue", uint32_t(midi::extended_data_status::sysex8_continue), 0x20 },
    { "sysex8_end", uint32_t(midi::extended_data_status::sysex8_end), 0x30 },
    { "mixed_data_set_header", uint32_t(midi::extended_data_status::mixed_data_set_header), 0x80 },
    { "mixed_data_set_payload", uint32_t(midi::extended_data_status::mixed_data_set_payload), 0x90 },
};

inline const Named named_stream_statuses[] = {
    { "endpoint_discovery", uint32_t(midi::stream_status::endpoint_discovery), 0x00 },
    { "endpoint_info", uint32_t(midi::stream_status::endpoint_info), 0x01 },
    { "device_identity", uint32_t(midi::stream_status::device_identity), 0x02 },
    { "endpoint_name", uint32_t(midi::stream_status::endpoint_name), 0x03 },
    { "product_instance_id", uint32_t(midi::stream_status::product_instance_id), 0x04 },
    { "stream_configuration_request", uint32_t(midi::stream_status::stream_configuration_request), 0x05 },
    { "stream_configuration_notify", uint32_t(midi::stream_status::stream_configuration_notify), 0x06 },
    { "function_block_discovery", uint32_t(midi::stream_status::function_block_discovery), 0x10 },
    { "function_block_info", uint32_t(midi::stream_status::function_block_info), 0x11 },
    { "function_block_name", uint32_t(midi::stream_status::function_block_name), 0x12 },
};

inline const Named named_protocols[] = {
    { "midi1", uint32_t(midi::protocol::midi1), 0x1 },
    { "midi2", uint32_t(midi::protocol::midi2), 0x2 },
    { "jitter_reduction_transmit", uint32_t(midi::extensions::jitter_reduction_transmit), 0x1 },
    { "jitter_reduction_receive", uint32_t(midi::extensions::jitter_reduction_receive), 0x2 },
};

inline const Named named_discovery_filters[] = {
    { "endpoint_info", uint32_t(midi::discovery_filter::endpoint_info), 1 },
    { "device_identity", uint32_t(midi::discovery_filter::device_identity), 2 },
    { "endpoint_name", uint32_t(midi::discovery_filter::endpoint_name), 4 },
    { "product_instance_id", uint32_t(midi::discovery_filter::product_instance_id), 8 },
    { "stream_configuration", uint32_t(midi::discovery_filter::stream_configuration), 16 },
    { "endpoint_all", uint32_t(midi::discovery_filter::endpoint_all), 31 },
    { "function_block_info", uint32_t(midi::discovery_filter::function_block_info), 1 },
    { "function_block_name", uint32_t(midi::discovery_filter::function_block_name), 2 },
    { "function_block_all", uint32_t(midi::discovery_filter::function_block_all), 3 },
};

inline const Named named_manufacturers[] = {
    { "sequential_circuits", uint32_t(midi::manufacturer::sequential_circuits), 0x010000 },
    { "moog", uint32_t(midi::manufacturer::moog), 0x040000 },
    { "lexicon", uint32_t(midi::manufacturer::lexicon), 0x060000 },
    { "kurzweil", uint32_t(midi::manufacturer::kurzweil), 0x070000 },
    { "fender", uint32_t(midi::manufacturer::fender), 0x080000 },
    { "oberheim", uint32_t(midi::manufacturer::oberheim), 0x100000 },
    { "midi9", uint32_t(midi::manufacturer::midi9), 0x090000 },
    { "simmons", uint32_t(midi::manufacturer::simmons), 0x120000 },
    { "digidesign", uint32_t(midi::manufacturer::digidesign), 0x130000 },
    { "fairlight", uint32_t(midi::manufacturer::fairlight), 0x140000 },
    { "emu", uint32_t(midi::manufacturer::emu), 0x180000 },
    { "hohner", uint32_t(midi::manufacturer::hohner), 0x240000 },
    { "ppg", uint32_t(midi::manufacturer::ppg), 0x290000 },
    { "wersi", uint32_t(midi::manufacturer::wersi), 0x3B0000 },
    { "waldorf", uint32_t(midi::manufacturer::waldorf), 0x3E0000 },
    { "kawai", uint32_t(midi::manufacturer::kawai), 0x400000 },
    { "roland", uint32_t(midi::manufacturer::roland), 0x410000 },
    { "korg", uint32_t(midi::manufacturer::korg), 0x420000 },
    { "yamaha", uint32_t(midi::manufacturer::yamaha), 0x430000 },
    { "casio", uint32_t(midi::manufacturer::casio), 0x440000 },
    { "akai", uint32_t(midi::manufacturer::akai), 0x450000 },
    { "fujitsu", uint32_t(midi::manufacturer::fujitsu), 0x4B0000 },
    { "sony", uint32_t(midi::manufacturer::sony), 0x4C0000 },
    { "teac", uint32_t(midi::manufacturer::teac), 0x4E0000 },
    { "fostex", uint32_t(midi::manufacturer::fostex), 0x510000 },
    { "zoom", uint32_t(midi::manufacturer::zoom), 0x520000 },
    { "suzuki", uint32_t(midi::manufacturer::suzuki), 0x550000 },
    { "educational", uint32_t(midi::manufacturer::educational), 0x7D0000 },
    { "universal_non_realtime", uint32_t(midi::manufacturer::universal_non_realtime), 0x7E0000 },
    { "universal_realtime", uint32_t(midi::manufacturer::universal_realtime), 0x7F0000 },
    { "rane", uint32_t(midi::manufacturer::rane), 0x000017 },
    { "allen_heath", uint32_t(midi::manufacturer::allen_heath), 0x00001A },
    { "motu", uint32_t(midi::manufacturer::motu), 0x00003B },
    { "atari", uint32_t(midi::manufacturer::atari), 0x000058 },
    { "mackie", uint32_t(midi::manufacturer::mackie), 0x000066 },
    { "amd", uint32_t(midi::manufacturer::amd), 0x00006F },
    { "m_audio", uint32_t(midi::manufacturer::m_audio), 0x000105 },
    { "microsoft", uint32_t(midi::manufacturer::microsoft), 0x00010A },
    { "line6", uint32_t(midi::manufacturer::line6), 0x00010C },
    { "cakewalk", uint32_t(midi::manufacturer::cakewalk), 0x000121 },
    { "numark", uint32_t(midi::manufacturer::numark), 0x00013F },
    { "denon", uint32_t(midi::manufacturer::denon), 0x00020B },
    { "google", uint32_t(midi::manufacturer::google), 0x00020D },
    { "imitone", uint32_t(midi::manufacturer::imitone), 0x000213 },
    { "universal_audio", uint32_t(midi::manufacturer::universal_audio), 0x000218 },
    { "sensel", uint32_t(midi::manufacturer::sensel), 0x00021D },
    { "mk2_image", uint32_t(midi::manufacturer::mk2_image), 0x000222 },
    { "bon_tempi", uint32_t(midi::manufacturer::bon_tempi), 0x00200B },
    { "fatar", uint32_t(midi::manufacturer::fatar), 0x00201A },
    { "pinnacle", uint32_t(midi::manufacturer::pinnacle), 0x00201E },
    { "tc_electronics", uint32_t(midi::manufacturer::tc_electronics), 0x00201F },
    { "doepfer", uint32_t(midi::manufacturer::doepfer), 0x002020 },
    { "focusrite", uint32_t(midi::manufacturer::focusrite), 0x002029 },
    { "novation", uint32_t(midi::manufacturer::novation), 0x002029 },
    { "emagic", uint32_t(midi::manufacturer::emagic), 0x002031 },
    { "behringer", uint32_t(midi::manufacturer::behringer), 0x002032 },
    { "access", uint32_t(midi::manufacturer::access), 0x002033 },
    { "terratec", uint32_t(midi::manufacturer::terratec), 0x002036 },
    { "propellerhead", uint32_t(midi::manufacturer::propellerhead), 0x00203A },
    { "klavis", uint32_t(midi::manufacturer::klavis), 0x002047 },
    { "vermona", uint32_t(midi::manufacturer::vermona), 0x00204D },
    { "nokia", uint32_t(midi::manufacturer::nokia), 0x00204E },
    { "hartmann", uint32_t(midi::manufacturer::hartmann), 0x002050 },
    { "waves", uint32_t(midi::manufacturer::waves), 0x002066 },
    { "arturia", uint32_t(midi::manufacturer::arturia), 0x00206B },
    { "hanpin", uint32_t(midi::manufacturer::hanpin), 0x002079 },
    { "serato", uint32_t(midi::manufacturer::serato), 0x00207F },
    { "presonus", uint32_t(midi::manufacturer::presonus), 0x002103 },
    { "native_instruments", uint32_t(midi::manufacturer::native_instruments), 0x002109 },
    { "ploytec", uint32_t(midi::manufacturer::ploytec), 0x00210D },
    { "roli", uint32_t(midi::manufacturer::roli), 0x002110 },
    { "ik_multimedia", uint32_t(midi::manufacturer::ik_multimedia), 0x00211A },
    { "ableton", uint32_t(midi::manufacturer::ableton), 0x00211D },
    { "bome", uint32_t(midi::manufacturer::bome), 0x002132 },
    { "touchkeys", uint32_t(midi::manufacturer::touchkeys), 0x002136 },
};

inline const Named named_note_management[] = {
    { "reset", uint32_t(midi::note_management::reset), 1 },
    { "detach", uint32_t(midi::note_management::detach), 2 },
    { "detach_and_reset", uint32_t(midi::note_management::detach_and_reset), 3 },
};

inline const Named named_note_attributes[] = {
    { "none", uint32_t(midi::note_attribute::none), 0 },
    { "manufacturer_specific", uint32_t(midi::note_attribute::manufacturer_specific), 1 },
    { "profile_specific", uint32_t(midi::note_attribute::profile_specific), 2 },
    { "pitch_7_9", uint32_t(midi::note_attribute::pitch_7_9), 3 },
};

inline const Named named_universal_subtypes[] = {
    { "identity_request", uint32_t(midi::universal_sysex::subtype::identity_request), 1 },
    { "identity_reply", uint32_t(midi::universal_sysex::subtype::identity_reply), 2 },
    { "gm_1_system_on", uint32_t(midi::universal_sysex::subtype::gm_1_system_on), 1 },
    { "gm_system_off", uint32_t(midi::universal_sysex::subtype::gm_system_off), 2 },
    { "gm_2_system_on", uint32_t(midi::universal_sysex::subtype::gm_2_system_on), 3 },
    { "mtc_full_message", uint32_t(midi::universal_sysex::subtype::mtc_full_message), 1 },
    { "mtc_user_bits", uint32_t(midi::universal_sysex::subtype::mtc_user_bits), 2 },
};

inline const Named named_universal_types[] = {
    { "sample_dump_header", uint32_t(midi::universal_sysex::type::sample_dump_header), 0x7E01 },
    { "sample_data_packet", uint32_t(midi::universal_sysex::type::sample_data_packet), 0x7E02 },
    { "sample_dump_request", uint32_t(midi::universal_sysex::type::sample_dump_request), 0x7E03 },
    { "midi_time_code_non_real_time", uint32_t(midi::universal_sysex::type::midi_time_code_non_real_time), 0x7E04 },
    { "sample_dump_extensions", uint32_t(midi::universal_sysex::type::sample_dump_extensions), 0x7E05 },
    { "general_information", uint32_t(midi::universal_sysex::type::general_information), 0x7E06 },
    { "file_dump", uint32_t(midi::universal_sysex::type::file_dump), 0x7E07 },
    { "midi_tuning_non_real_time", uint32_t(midi::universal_sysex::type::midi_tuning_non_real_time), 0x7E08 },
    { "general_midi", uint32_t(midi::universal_sysex::type::general_midi), 0x7E09 },
    { "downloadable_sounds", uint32_t(midi::universal_sysex::type::downloadable_sounds), 0x7E0A },
    { "file_reference_message", uint32_t(midi::universal_sysex::type::file_reference_message), 0x7E0B },
    { "midi_visual_control", uint32_t(midi::universal_sysex::type::midi_visual_control), 0x7E0C },
    { "capability_inquiry", uint32_t(midi::universal_sysex::type::capability_inquiry), 0x7E0D },
    { "end_of_file", uint32_t(midi::universal_sysex::type::end_of_file), 0x7E7B },
    { "wait", uint32_t(midi::universal_sysex::type::wait), 0x7E7C },
    { "cancel", uint32_t(midi::universal_sysex::type::cancel), 0x7E7D },
    { "nak", uint32_t(midi::universal_sysex::type::nak), 0x7E7E },
    { "ack", uint32_t(midi::universal_sysex::type::ack), 0x7E7F },
    { "midi_time_code_real_time", uint32_t(midi::universal_sysex::type::midi_time_code_real_time), 0x7F01 },
    { "midi_show_control", uint32_t(midi::universal_sysex::type::midi_show_control), 0x7F02 },
    { "notation_information", uint32_t(midi::universal_sysex::type::notation_information), 0x7F03 },
    { "device_control", uint32_t(midi::universal_sysex::type::device_control), 0x7F04 },
    { "real_time_mtc_cueing", uint32_t(midi::universal_sysex::type::real_time_mtc_cueing), 0x7F05 },
    { "midi_machine_control_commands", uint32_t(midi::universal_sysex::type::midi_machine_control_commands), 0x7F06 },
    { "midi_machine_control_responses", uint32_t(midi::universal_sysex::type::midi_machine_control_responses), 0x7F07 },
    { "midi_tuning_real_time", uint32_t(midi::universal_sysex::type::midi_tuning_real_time), 0x7F08 },
    { "controller_destination_setting", uint32_t(midi::universal_sysex::type::controller_destination_setting), 0x7F09 },
    { "none", uint32_t(midi::universal_sysex::type::none), 0x0000 },
};

inline const Named named_ci_subtypes[] = {
    { "discovery_inquiry", uint32_t(midi::ci::subtype::discovery_inquiry), 0x70 },
    { "discovery_reply", uint32_t(midi::ci::subtype::discovery_reply), 0x71 },
    { "endpoint_information_inquiry", uint32_t(midi::ci::subtype::endpoint_information_inquiry), 0x72 },
    { "endpoint_information_reply", uint32_t(midi::ci::subtype::endpoint_information_reply), 0x73 },
    { "ack", uint32_t(midi::ci::subtype::ack), 0x7D },
    { "invalidate_muid", uint32_t(midi::ci::subtype::invalidate_muid), 0x7E },
    { "nak", uint32_t(midi::ci::subtype::nak), 0x7F },
    { "profile_inquiry", uint32_t(midi::ci::subtype::profile_inquiry), 0x20 },
    { "profile_inquiry_reply", uint32_t(midi::ci::subtype::profile_inquiry_reply), 0x21 },
    { "set_profile_on", uint32_t(midi::ci::subtype::set_profile_on), 0x22 },
    { "set_profile_off", uint32_t(midi::ci::subtype::set_profile_off), 0x23 },
    { "profile_enabled", uint32_t(midi::ci::subtype::profile_enabled), 0x24 },
    { "profile_disabled", uint32_t(midi::ci::subtype::profile_disabled), 0x25 },
    { "profile_added", uint32_t(midi::ci::subtype::profile_added), 0x26 },
    { "profile_removed", uint32_t(midi::ci::subtype::profile_removed), 0x27 },
    { "profile_details_inquiry", uint32_t(midi::ci::subtype::profile_details_inquiry), 0x28 },
    { "profile_details_reply", uint32_t(midi::ci::subtype::profile_details_reply), 0x29 },
    { "profile_specific_data", uint32_t(midi::ci::subtype::profile_specific_data), 0x2F },
    { "property_exchange_capabilities_inquiry", uint32_t(midi::ci::subtype::property_exchange_capabilities_inquiry), 0x30 },
    { "property_exchange_capabilities_reply", uint32_t(midi::ci::subtype::property_exchange_capabilities_reply), 0x31 },
    { "get_property_data_inquiry", uint32_t(midi::ci::subtype::get_property_data_inquiry), 0x34 },
    { "get_property_data_reply", uint32_t(midi::ci::subtype::get_property_data_reply), 0x35 },
    { "set_property_data_inquiry", uint32_t(midi::ci::subtype::set_property_data_inquiry), 0x36 },
    { "set_property_data_reply", uint32_t(midi::ci::subtype::set_property_data_reply), 0x37 },
    { "subscription_inquiry", uint32_t(midi::ci::subtype::subscription_inquiry), 0x38 },
    { "subscription_reply", uint32_t(midi::ci::subtype::subscription_reply), 0x39 },
    { "notify", uint32_t(midi::ci::subtype::notify), 0x3F },
    { "process_inquiry_capabilities_inquiry", uint32_t(midi::ci::subtype::process_inquiry_capabilities_inquiry), 0x40 },
    { "process_inquiry_capabilities_reply", uint32_t(midi::ci::subtype::process_inquiry_capabilities_reply), 0x41 },
    { "midi_message_report_inquiry", uint32_t(midi::ci::subtype::midi_message_report_inquiry), 0x42 },
    { "midi_message_report_reply", uint32_t(midi::ci::subtype::midi_message_report_reply), 0x43 },
    { "midi_message_report_end", uint32_t(midi::ci::subtype::midi_message_report_end), 0x44 },
};

inline const Named named_ci_categories[] = {
    { "profile_configuration", uint32_t(midi::ci::category::profile_configuration), 4 },
    { "property_exchange", uint32_t(midi::ci::category::property_exchange), 8 },
    { "process_inquiry", uint32_t(midi::ci::category::process_inquiry), 16 },
};

} // namespace h
