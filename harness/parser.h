#pragma once
// Reference decoder for MIDI 1.0 byte streams, written from the MIDI 1.0 specification, and stream generators.
#include "common.h"
#include <midi/midi1_byte_stream.h>

namespace h {

struct Event
{
    bool                 sysex{ false };
    uint32_t             w[4]{ 0, 0, 0, 0 }; // packet
    uint32_t             man{ 0 };           // sysex
    std::vector<uint8_t> data;
    bool                 any_group{ false }; // group of the packet may be the previous one
    bool                 optional{ false };  // may be missing

    std::string str() const { return sysex ? show_sx(man, data) : "[" + show_words(w, 2) + "]"; }
};

inline bool same(const Event& got, const Event& want)
{
    if (got.sysex != want.sysex)
        return false;
    if (got.sysex)
        return got.man == want.man && got.data == want.data;
    const uint32_t mask = want.any_group ? 0xF0FFFFFFu : 0xFFFFFFFFu;
    return ((got.w[0] ^ want.w[0]) & mask) == 0 && got.w[1] == want.w[1] && got.w[2] == want.w[2] && got.w[3] == want.w[3];
}

struct ParserModel
{
    bool    callback_mode{ false };
    bool    enabled{ true };
    uint8_t group{ 0 };

    // message in progress
    uint8_t              status{ 0 }; // channel / system common status, 0: none
    bool                 group_dirty{ false };
    uint8_t              status_group{ 0 };
    std::vector<uint8_t> args;
    bool                 in_sysex{ false };
    bool                 sx_disabled_at_start{ false }, sx_disabled_inside{ false };
    std::vector<uint8_t> sx;      // data of the current sysex message
    size_t               sx_sent{ 0 }; // packets mode: bytes already in packets

    std::vector<Event> out;

    void reset()
    {
        status   = 0;
        in_sysex = false;
        args.clear();
        sx.clear();
    }
    void set_enabled(bool e)
    {
        enabled = e;
        if (!e)
            sx_disabled_inside = true;
    }
    void set_group(uint8_t g)
    {
        group       = g;
        group_dirty = true;
    }

    static unsigned num_args(uint8_t st)
    {
        if (st < 0xF0)
            return ((st & 0xE0) == 0xC0) ? 1 : 2;
        return st == 0xF2 ? 2 : (st == 0xF1 || st == 0xF3) ? 1 : 0;
    }
    void emit(unsigned type, uint8_t g, uint8_t st, const std::vector<uint8_t>& a, bool any_group)
    {
        if (!enabled)
            return;
        Event e;
        e.w[0] = (type << 28) | (uint32_t(g) << 24) | (uint32_t(st) << 16);
        for (size_t i = 0; i < a.size(); ++i)
            put_byte(e.w, 2 + i, a[i]);
        e.any_group = any_group;
        out.push_back(e);
    }
    void emit_sx_packet(unsigned format, size_t n)
    {
        std::vector<uint8_t> a(sx.begin() + long(sx_sent), sx.begin() + long(sx_sent + n));
        emit(3, group, uint8_t((format << 4) | n), a, group_dirty);
        sx_sent += n;
    }
    void end_sysex()
    {
        in_sysex = false;
        if (callback_mode)
        {
            if (!enabled || sx_disabled_at_start || sx.empty())
                return;
            if (sx[0] == 0 && sx.size() < 3)
                return; // incomplete manufacturer ID
            Event e;
            e.sysex  = true;
            size_t n = 1;
            if (sx[0])
                e.man = uint32_t(sx[0]) << 16;
            else
            {
                e.man = (uint32_t(sx[1]) << 8) | sx[2];
                n     = 3;
            }
            e.data.assign(sx.begin() + long(n), sx.end());
            e.optional = sx_disabled_inside;
            out.push_back(e);
        }
        else
        {
            const auto n = sx.size() - sx_sent;
            if (sx_sent == 0)
            {
                if (n)
                    emit_sx_packet(0, n);
            }
            else
                emit_sx_packet(3, n);
        }
    }
    void feed(uint8_t b)
    {
        if (b >= 0xF8)
        {
            if (b != 0xF9 && b != 0xFD)
                emit(1, group, b, {}, false);
            return;
        }
        if (b >= 0x80)
        {
            const bool was_sysex = in_sysex;
            if (in_sysex && b == 0xF7)
            {
                end_sysex();
                status = 0;
                return;
            }
            (void) was_sysex;
            in_sysex = false;
            args.clear();
            group_dirty  = false;
            status_group = group;
            status       = 0;
            if (b == 0xF0)
            {
                in_sysex             = true;
                sx_disabled_at_start = !enabled;
                sx_disabled_inside   = !enabled;
                sx.clear();
                sx_sent = 0;
            }
            else if (b == 0xF6)
                emit(1, group, b, {}, false);
            else if (b < 0xF0 || b == 0xF1 || b == 0xF2 || b == 0xF3)
                status = b;
            return;
        }
        if (in_sysex)
        {
            sx.push_back(b);
            if (!callback_mode && sx.size() - sx_sent == 6)
                emit_sx_packet(sx_sent ? 2 : 1, 6);
            return;
        }
        if (!status)
            return;
        args.push_back(b);
        if (args.size() == num_args(status))
        {
            emit(status < 0xF0 ? 2 : 1, status_group, status, args, group_dirty);
            args.clear();
            if (status >= 0xF0)
                status = 0;
        }
    }
};

//! parser under test, constructed in non-zero memory
struct ParserSut
{
    std::vector<Event>                    out;
    Act                                   act{ Act::none }; // what the user's callbacks do besides recording
    Dirty<midi::midi1_byte_stream_parser> p;

    void react()
    {
        if (act == Act::fail)
            throw Boom{};
        if (act == Act::reset)
            p->reset();
    }
    midi::midi1_byte_stream_parser::sysex_callback sxcb(bool on)
    {
        if (!on)
            return {};
        return [this](const midi::sysex7& sx) {
            Event e;
            e.sysex = true;
            e.man   = sx.manufacturerID;
            e.data  = sx_data(sx);
            out.push_back(e);
            react();
        };
    }
    midi::midi1_byte_stream_parser::packet_callback pcb()
    {
        return [this](midi::universal_packet u) {
            Event e;
            memcpy(e.w, u.data, sizeof e.w);
            out.push_back(e);
            react();
        };
    }
    ParserSut(uint8_t pat, bool sysex_callback, bool enabled, int group)
      : p(pat, midi::group_t(group), pcb(), sxcb(sysex_callback), enabled)
    {
    }
    ParserSut(uint8_t pat, bool sysex_callback, bool enabled)
      : p(pat, pcb(), sxcb(sysex_callback), enabled)
    {
    }
};

inline void compare(const std::vector<Event>& got, const std::vector<Event>& want)
{
    size_t g = 0;
    for (size_t i = 0; i < want.size(); ++i)
    {
        if (g < got.size() && same(got[g], want[i]))
        {
            ++g;
            continue;
        }
        if (want[i].optional)
            continue;
        REQUIRE_MSG(g < got.size(), "missing event " << i << ": " << want[i].str());
        REQUIRE_MSG(false, "event " << g << " is " << got[g].str() << ", expected " << want[i].str());
    }
    REQUIRE_MSG(g == got.size(), "unexpected event " << got[g].str());
}

//! one syntactic element of a MIDI 1 stream, valid or damaged
inline std::vector<uint8_t> gen_element(Src& s)
{
    std::vector<uint8_t> r;
    auto data = [&](size_t n) {
        for (size_t i = 0; i < n; ++i)
            r.push_back(uint8_t(s.bits(7)));
    };
    switch (s.draw(11))
    {
    case 0: { // channel message
        const uint8_t st = uint8_t(0x80 + s.draw(0x6F));
        r.push_back(st);
        data(ParserModel::num_args(st));
        break;
    }
    case 1: // running status / stray data
        data(1 + s.draw(5));
        break;
    case 2: { // system common
        const uint8_t st = uint8_t(0xF1 + s.draw(5));
        r.push_back(st);
        data(ParserModel::num_args(st));
        break;
    }
    case 3: r.push_back(uint8_t(0xF8 + s.draw(7))); break;
    case 4: { // truncated message
        const uint8_t st = uint8_t(0x80 + s.draw(0x77));
        r.push_back(st);
        data(s.draw(1));
        break;
    }
    case 5:
    case 6: { // sysex
        r.push_back(0xF0);
        const auto n = s.size(s.chance(1, 60) ? 3000 : s.chance(1, 8) ? 200 : 30);
        if (n && s.chance(1, 3))
        {
            r.push_back(0);
            data(n - 1);
        }
        else
            data(n);
        r.push_back(0xF7);
        break;
    }
    case 7: // unterminated / cancelled sysex
        r.push_back(0xF0);
        data(s.draw(14));
        break;
    case 8: // anything
        for (size_t n = 1 + s.draw(6); n; --n)
            r.push_back(uint8_t(s.bits(8)));
        break;
    case 9: r.push_back(s.pick<uint8_t>({ 0xF7, 0xF4, 0xF5, 0xF6, 0xF9, 0xFD })); break;
    case 10: { // channel message with many running status repetitions
        const uint8_t st = uint8_t(0x80 + s.draw(0x6F));
        r.push_back(st);
        data(ParserModel::num_args(st) * (1 + s.draw(4)));
        break;
    }
    default: // sysex interrupted by real time
        r.push_back(0xF0);
        for (size_t n = s.draw(20); n; --n)
        {
            if (s.chance(1, 4))
                r.push_back(uint8_t(0xF8 + s.draw(7)));
            r.push_back(uint8_t(s.bits(7)));
        }
        r.push_back(0xF7);
        break;
    }
    return r;
}

} // namespace h
