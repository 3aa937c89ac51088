#pragma once
// Reference models of the SysEx collectors and generators for packet histories.
#include "common.h"
#include <midi/sysex_collector.h>

namespace h {

struct Packet
{
    uint32_t    w[4]{ 0, 0, 0, 0 };
    std::string what;
};

//! what a collector has to deliver for one fed packet
struct Expect
{
    enum Kind { nothing, exact, data_only, maybe } kind{ nothing };
    uint32_t             man{ 0 };
    std::vector<uint8_t> data;
    uint8_t              stream{ 0 };
};

inline uint32_t decode_id7(const std::vector<uint8_t>& b, size_t& n)
{
    n = 1;
    if (b[0])
        return uint32_t(b[0]) << 16;
    n = 3;
    return (uint32_t(b[1]) << 8) | b[2];
}

struct Model7
{
    bool                 active{ false }, tainted{ false };
    size_t               limit{ 0 };
    std::vector<uint8_t> buf;

    void   reset() { *this = Model7{ false, false, limit, {} }; }
    Expect finish()
    {
        Expect e;
        active = false;
        if (tainted)
            e.kind = Expect::maybe; // payload bytes with bit 7 set are not MIDI, content is unspecified
        else if (buf.empty() || (buf[0] == 0 && buf.size() < 3))
            e.kind = Expect::maybe; // no complete manufacturer ID
        else
        {
            size_t n = 0;
            e.man    = decode_id7(buf, n);
            e.data.assign(buf.begin() + long(n), buf.end());
            e.kind = (limit && e.data.size() > limit) ? Expect::nothing : Expect::exact;
        }
        buf.clear();
        return e;
    }
    Expect feed(const uint32_t* w)
    {
        const unsigned type = w[0] >> 28, status = (w[0] >> 20) & 15, n = (w[0] >> 16) & 15;
        if (type != 3 || status > 3 || n > 6)
            return {};
        if (status <= 1)
        {
            buf.clear();
            active  = true;
            tainted = false;
        }
        if (!active)
            return {};
        for (unsigned b = 0; b < n; ++b)
        {
            buf.push_back(byte_of(w, 2 + b));
            tainted |= buf.back() >= 0x80;
        }
        return (status == 0 || status == 3) ? finish() : Expect{};
    }
};

struct Model8
{
    bool                 active{ false };
    size_t               limit{ 0 };
    uint8_t              stream{ 0 };
    std::vector<uint8_t> buf;

    void   reset() { *this = Model8{ false, limit, 0, {} }; }
    Expect finish()
    {
        Expect e;
        active   = false;
        e.stream = stream;
        if (buf.size() < 2)
            e.kind = Expect::maybe;
        else
        {
            e.kind = Expect::exact;
            if (buf[0] & 0x80)
                e.man = (uint32_t(buf[0] & 0x7F) << 8) | (buf[1] & 0x7F);
            else if (buf[0] == 0)
                e.man = uint32_t(buf[1] & 0x7F) << 16;
            else
                e.man = 0; // reserved manufacturer field: no ID
            if ((buf[1] & 0x80) && (buf[0] == 0 || buf[0] >= 0x80))
                e.kind = Expect::data_only;
            e.data.assign(buf.begin() + 2, buf.end());
            if (limit && e.data.size() > limit)
                e.kind = Expect::nothing;
        }
        buf.clear();
        return e;
    }
    Expect feed(const uint32_t* w)
    {
        const unsigned type = w[0] >> 28, status = (w[0] >> 20) & 15, n = (w[0] >> 16) & 15;
        if (type != 5 || status > 3 || n < 1 || n > 14)
            return {};
        const auto sid = byte_of(w, 2);
        if (status <= 1)
        {
            buf.clear();
            active = true;
            stream = sid;
        }
        if (!active || sid != stream)
            return {};
        for (unsigned b = 0; b + 1 < n; ++b)
            buf.push_back(byte_of(w, 3 + b));
        return (status == 0 || status == 3) ? finish() : Expect{};
    }
};

inline Packet pkt7(unsigned group, unsigned status, const uint8_t* d, size_t n)
{
    Packet p;
    p.w[0] = 0x30000000u | (group << 24) | (status << 20) | (uint32_t(n) << 16);
    for (size_t i = 0; i < n; ++i)
        put_byte(p.w, 2 + i, d[i]);
    return p;
}
inline Packet pkt8(unsigned group, uint8_t sid, unsigned status, const uint8_t* d, size_t n)
{
    Packet p;
    p.w[0] = 0x50000000u | (group << 24) | (status << 20) | (uint32_t(n + 1) << 16) | (uint32_t(sid) << 8);
    for (size_t i = 0; i < n; ++i)
        put_byte(p.w, 3 + i, d[i]);
    return p;
}

//! split wire bytes into packets; `full`: fill packets, otherwise random fill levels
template<typename Mk>
std::vector<Packet> split(Src& s, const std::vector<uint8_t>& wire, size_t max, bool full, Mk mk)
{
    std::vector<Packet> r;
    size_t              pos = 0;
    const bool          one = wire.size() <= max && !s.chance(1, 12);
    if (one)
    {
        r.push_back(mk(0, wire.data(), wire.size()));
        return r;
    }
    while (pos < wire.size() || r.size() < 2)
    {
        size_t n = std::min(max, wire.size() - pos);
        if (!full)
            n = std::min<size_t>(n, s.draw(max));
        if (!full && r.size() > 40)
            n = std::min(max, wire.size() - pos);
        // the first packet of two may be anything; make sure the sequence terminates
        const bool last = !r.empty() && pos + n >= wire.size();
        r.push_back(mk(r.empty() ? 1u : last ? 3u : 2u, wire.data() + pos, n));
        pos += n;
        if (last)
            break;
    }
    return r;
}

//! a packet that is not part of any SysEx of the kind under test, or malformed
inline Packet foreign(Src& s, unsigned own_type)
{
    Packet p;
    switch (s.draw(4))
    {
    case 0: // anything of another type
        p.w[0] = uint32_t(s.u32());
        if ((p.w[0] >> 28) == own_type)
            p.w[0] ^= 0x40000000u;
        break;
    case 1: // own type, reserved status
        p.w[0] = (own_type << 28) | (uint32_t(s.range(4, 15)) << 20) | (uint32_t(s.draw(15)) << 16) | uint32_t(s.bits(16));
        break;
    case 2: // own type, illegal size
        p.w[0] = (own_type << 28) | (uint32_t(s.draw(3)) << 20) |
                 (uint32_t(own_type == 3 ? s.range(7, 15) : s.chance(1, 2) ? 15 : 0) << 16) | uint32_t(s.bits(16));
        break;
    case 3: // the other kind of sysex packet
        p.w[0] = ((own_type == 3 ? 5u : 3u) << 28) | (uint32_t(s.draw(3)) << 20) | (uint32_t(s.draw(6)) << 16) |
                 uint32_t(s.bits(16));
        break;
    default: // real time clock
        p.w[0] = 0x10F80000u;
        break;
    }
    p.w[1] = uint32_t(s.u32());
    p.w[2] = uint32_t(s.bits(32));
    p.w[3] = uint32_t(s.bits(32));
    p.what = "foreign";
    return p;
}

//! inject transport faults
inline bool inject_faults(Src& s, std::vector<Packet>& ps, unsigned own_type)
{
    bool any = false;
    switch (s.draw(9))
    {
    case 0: // lose one
        ps.erase(ps.begin() + long(s.draw(ps.size() - 1)));
        any = true;
        break;
    case 1: // lose the tail
        ps.resize(s.draw(ps.size()));
        any = true;
        break;
    case 2: // lose the head
        ps.erase(ps.begin(), ps.begin() + long(s.draw(ps.size() - 1)));
        any = true;
        break;
    case 3: { // duplicate one
        const auto i = s.draw(ps.size() - 1);
        const auto p = ps[i];
        ps.insert(ps.begin() + long(i), p);
        any = true;
        break;
    }
    case 4: // swap two
        if (ps.size() > 1)
        {
            const auto i = s.draw(ps.size() - 2);
            std::swap(ps[i], ps[i + 1]);
            any = true;
        }
        break;
    case 5: { // noise in between
        size_t n = 0;
        do
        {
            const auto p = foreign(s, own_type);
            ps.insert(ps.begin() + long(s.draw(ps.size())), p);
        } while (s.more(n, 2, 6));
        any = true;
        break;
    }
    default: break;
    }
    return any;
}

struct Delivered
{
    uint32_t             man;
    std::vector<uint8_t> data;
    uint8_t              stream;
};

//! a collector in non-zero memory together with what it delivered
struct Sut7
{
    std::vector<Delivered>        out;
    Act                           act{ Act::none };
    Dirty<midi::sysex7_collector> c;
    explicit Sut7(uint8_t pat)
      : c(pat, [this](const midi::sysex7& m) { out.push_back({ m.manufacturerID, sx_data(m), 0 }); react(); })
    {
    }
    void react()
    {
        if (act == Act::fail)
            throw Boom{};
        if (act == Act::reset)
            c->reset();
    }
};
struct Sut8
{
    std::vector<Delivered>        out;
    Act                           act{ Act::none };
    Dirty<midi::sysex8_collector> c;
    explicit Sut8(uint8_t pat)
      : c(pat, [this](const midi::sysex8& m, uint8_t id) { out.push_back({ m.manufacturerID, sx_data(m), id }); react(); })
    {
    }
    void react()
    {
        if (act == Act::fail)
            throw Boom{};
        if (act == Act::reset)
            c->reset();
    }
};

template<typename Sut, typename Model>
Expect step(Src& s, Sut& sut, Model& model, const Packet& p)
{
    s.note([&](auto& o) { o << "  feed [" << show_words(p.w, 4) << "] " << p.what << "\n"; });
    const midi::universal_packet up(p.w[0], p.w[1], p.w[2], p.w[3]);
    sut.out.clear();
    try
    {
        sut.c->feed(up);
    }
    catch (const Boom&)
    {
        s.label("callback_threw");
    }
    const auto e = model.feed(p.w);
    if (e.kind == Expect::maybe)
    {
        REQUIRE_MSG(sut.out.size() <= 1, "delivered " << sut.out.size() << " messages for one packet");
        return e;
    }
    if (e.kind == Expect::nothing)
    {
        REQUIRE_MSG(sut.out.empty(), "unexpectedly delivered " << show_sx(sut.out[0].man, sut.out[0].data));
        return e;
    }
    REQUIRE_MSG(sut.out.size() == 1,
                "delivered " << sut.out.size() << " messages, expected " << show_sx(e.man, e.data));
    REQUIRE_MSG(sut.out[0].data == e.data, "delivered " << show_sx(sut.out[0].man, sut.out[0].data) << ", expected "
                                                        << show_sx(e.man, e.data));
    if (e.kind == Expect::exact)
        REQUIRE_MSG(sut.out[0].man == e.man, "delivered " << show_sx(sut.out[0].man, sut.out[0].data)
                                                          << ", expected " << show_sx(e.man, e.data));
    REQUIRE_MSG(sut.out[0].stream == e.stream,
                "delivered stream id " << +sut.out[0].stream << ", expected " << +e.stream);
    return e;
}

} // namespace h
