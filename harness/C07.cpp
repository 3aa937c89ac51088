#include "parser.h"
#include <midi/sysex_collector.h>

using namespace h;

namespace {

//! bytes of a packet in MIDI 1 form; announced: size without F0/F7
std::vector<uint8_t> expected_bytes(const uint32_t* w, size_t& announced)
{
    std::vector<uint8_t> r;
    const unsigned       type = w[0] >> 28;
    const uint8_t        st   = uint8_t(w[0] >> 16);
    announced                 = 0;
    if (type == 1 || type == 2)
    {
        const bool sys = st == 0xF1 || st == 0xF2 || st == 0xF3 || st == 0xF6 || (st >= 0xF8 && st != 0xF9 && st != 0xFD);
        const bool ch  = st >= 0x80 && st < 0xF0;
        if ((type == 1 && sys) || (type == 2 && ch))
        {
            r.push_back(st);
            for (unsigned i = 0; i < ParserModel::num_args(st); ++i)
                r.push_back(byte_of(w, 2 + i));
            announced = r.size();
        }
    }
    else if (type == 3)
    {
        const unsigned f = st >> 4, n = st & 15;
        if (f <= 3 && n <= 6)
        {
            announced = n;
            if (f == 0 || f == 1)
                r.push_back(0xF0);
            for (unsigned i = 0; i < n; ++i)
                r.push_back(byte_of(w, 2 + i));
            if (f == 0 || f == 3)
                r.push_back(0xF7);
        }
    }
    return r;
}

void check_packet(Src& s, const uint32_t* w)
{
    const midi::universal_packet p(w[0], w[1], w[2], w[3]);
    size_t                       announced = 0;
    const auto                   want      = expected_bytes(w, announced);
    s.note([&](auto& o) { o << "[" << show_words(w, 4) << "] -> " << hexv(want) << "\n"; });
    // exactly eight bytes on the heap: writing more is caught
    std::unique_ptr<uint8_t[]> out(new uint8_t[8]);
    memset(out.get(), 0xEE, 8);
    const auto n = midi::to_midi1_byte_stream(p, out.get());
    REQUIRE_MSG(n == want.size(), "converted to " << n << " bytes, expected " << want.size());
    REQUIRE_MSG(std::equal(want.begin(), want.end(), out.get()), "got " << hex(out.get(), n) << ", expected " << hexv(want));
    REQUIRE_EQ(midi::midi1_byte_stream_size(p), announced);

    bool clean = true; // data bytes are 7 bit
    for (size_t i = 0; i < n; ++i)
        clean &= want[i] < 0x80 || i == 0;
    const unsigned type = w[0] >> 28;
    if (n && clean && type != 3)
    {
        // parse back
        ParserSut par(0xA5, false, true, int((w[0] >> 24) & 15));
        for (size_t i = 0; i < n; ++i)
            par.p->feed(out[i]);
        REQUIRE_EQ(par.out.size(), size_t(1));
        uint32_t keep = 0xFF000000u;
        for (size_t i = 0; i < n; ++i)
            keep |= 0xFF0000u >> (8 * i);
        REQUIRE_EQ(par.out[0].w[0], w[0] & keep);
        REQUIRE_EQ(par.out[0].w[1], 0u);
        s.nontrivial();
    }
    else if (n)
        s.nontrivial();
}

void packets(Src& s)
{
    uint32_t w[4];
    for (auto& x : w)
        x = uint32_t(s.u32());
    if (s.chance(3, 4))
        w[0] = (w[0] & 0x0FFFFFFF) | (uint32_t(1 + s.draw(2)) << 28);
    if (s.chance(1, 2))
    {
        const unsigned type = w[0] >> 28;
        if (type == 3)
            w[0] &= 0xFF37FFFFu;
        else
            w[0] |= 0x00800000u;
    }
    if (s.chance(1, 2))
    {
        w[0] &= 0xFFFF7F7Fu;
        w[1] &= 0x7F7F7F7Fu;
    }
    check_packet(s, w);
}

//! all types x status bytes
void all_statuses(Src& s)
{
    const auto k    = s.draw(16 * 256 - 1);
    uint32_t   w[4] = { uint32_t(k << 16) & 0x00FF0000u, uint32_t(s.u32()), uint32_t(s.u32()), uint32_t(s.u32()) };
    w[0] |= uint32_t(k >> 8) << 28;
    w[0] |= uint32_t(s.draw(15)) << 24;
    w[0] |= uint32_t(s.bits(16)) & 0x7F7F;
    check_packet(s, w);
}

void from_bytes(Src& s)
{
    const uint8_t st = uint8_t(s.draw(255));
    uint8_t       d1 = uint8_t(s.bits(7)), d2 = uint8_t(s.bits(7));
    const bool    clean = s.chance(1, 2); // bytes the message does not have are zero
    if (clean && st >= 0x80)
    {
        if (ParserModel::num_args(st) < 2)
            d2 = 0;
        if (ParserModel::num_args(st) < 1)
            d1 = 0;
    }
    const auto    p  = midi::from_midi1_byte_stream(st, d1, d2);
    const bool    sys = st == 0xF1 || st == 0xF2 || st == 0xF3 || st == 0xF6 || (st >= 0xF8 && st != 0xF9 && st != 0xFD);
    s.note([&](auto& o) { o << hexv(std::vector<uint8_t>{ st, d1, d2 }) << " -> " << show_packet(p) << "\n"; });
    if (!(st >= 0x80 && st < 0xF0) && !sys)
    {
        REQUIRE_MSG(p == midi::universal_packet{} && p.data[0] == 0, "packet from invalid status");
        return;
    }
    s.nontrivial();
    REQUIRE_EQ(p.data[0] >> 28, sys ? 1u : 2u);
    REQUIRE_EQ(p.data[0] & 0x0F000000u, 0u);
    REQUIRE_EQ((p.data[0] >> 16) & 0xFF, uint32_t(st));
    REQUIRE_EQ(p.data[1] | p.data[2] | p.data[3], 0u);
    if (clean)
        REQUIRE_EQ(p.data[0] & 0xFFFFu, uint32_t(d1 << 8 | d2));
    const uint8_t in[3] = { st, d1, d2 };
    uint8_t       b[8];
    const auto    n = midi::to_midi1_byte_stream(p, b);
    REQUIRE_EQ(n, size_t(1 + ParserModel::num_args(st)));
    REQUIRE_EQ(midi::midi1_byte_stream_size(p), n);
    REQUIRE_MSG(!memcmp(b, in, n), "bytes changed: " << hex(b, n));
}

//! whole messages: sysex -> packets -> bytes -> parser (both modes) -> sysex, interleaved with short messages
void sysex_streams(Src& s)
{
    struct Msg
    {
        bool                 sysex;
        uint32_t             w;
        uint32_t             man;
        std::vector<uint8_t> data;
    };
    const auto           group = unsigned(s.draw(15));
    std::vector<Msg>     msgs;
    std::vector<uint8_t> bytes;
    size_t               n = 0, sx = 0;
    auto append = [&](const midi::universal_packet& p) {
        uint8_t    b[8];
        const auto k = midi::to_midi1_byte_stream(p, b);
        REQUIRE_MSG(k >= 1 && k <= 8, "packet " << show_packet(p) << " converted to " << k << " bytes");
        bytes.insert(bytes.end(), b, b + k);
    };
    while (s.more(n, 5, 30))
    {
        Msg m{};
        if ((m.sysex = s.chance(1, 2)))
        {
            m.man  = gen_manufacturer(s);
            m.data = s.byte_vec(s.size(s.chance(1, 30) ? 3000 : 60), 7);
            for (auto& p : midi::as_sysex7_packets(make_sx<midi::sysex7>(m.man, m.data), midi::group_t(group)))
                append(p);
            ++sx;
        }
        else
        {
            const uint8_t st = s.chance(1, 4) ? s.pick<uint8_t>({ 0xF1, 0xF2, 0xF3, 0xF6, 0xF8, 0xFA, 0xFB, 0xFC, 0xFE, 0xFF })
                                              : uint8_t(0x80 + s.draw(0x6F));
            m.w = (st >= 0xF0 ? 0x10000000u : 0x20000000u) | (group << 24) | (uint32_t(st) << 16);
            const unsigned a = ParserModel::num_args(st);
            if (a > 0)
                m.w |= uint32_t(s.bits(7)) << 8;
            if (a > 1)
                m.w |= uint32_t(s.bits(7));
            append(midi::universal_packet(m.w));
        }
        msgs.push_back(m);
    }
    s.note([&](auto& o) {
        for (auto& m : msgs)
            o << " " << (m.sysex ? show_sx(m.man, m.data) : show_words(&m.w, 1)) << "\n";
    });
    // whole-message mode
    const auto ev = [&] {
        ParserSut p(0xA5, true, true, int(group));
        p.p->feed(bytes.data(), bytes.size());
        return p.out;
    }();
    REQUIRE_EQ(ev.size(), msgs.size());
    for (size_t i = 0; i < msgs.size(); ++i)
    {
        REQUIRE_EQ(ev[i].sysex, msgs[i].sysex);
        if (msgs[i].sysex)
            REQUIRE_MSG(ev[i].man == msgs[i].man && ev[i].data == msgs[i].data,
                        "message " << i << " became " << ev[i].str() << " instead of " << show_sx(msgs[i].man, msgs[i].data));
        else
            REQUIRE_EQ(ev[i].w[0], msgs[i].w);
    }
    // packet mode followed by a collector
    std::vector<std::pair<uint32_t, std::vector<uint8_t>>> got;
    std::vector<uint32_t>                                  other;
    midi::sysex7_collector col([&](const midi::sysex7& m) { got.push_back({ m.manufacturerID, sx_data(m) }); });
    midi::midi1_byte_stream_parser par(midi::group_t(group), [&](midi::universal_packet p) {
        if (p.type() == midi::packet_type::data)
            col.feed(p);
        else
            other.push_back(p.data[0]);
        REQUIRE_EQ(p.group(), group);
    });
    par.feed(bytes.data(), bytes.size());
    size_t g = 0, o = 0;
    for (auto& m : msgs)
    {
        if (m.sysex)
        {
            REQUIRE_MSG(g < got.size(), "sysex lost in packet mode");
            REQUIRE_MSG(got[g].first == m.man && got[g].second == m.data, "sysex changed in packet mode: " << show_sx(got[g].first, got[g].second));
            ++g;
        }
        else
        {
            REQUIRE_MSG(o < other.size(), "message lost in packet mode");
            REQUIRE_EQ(other[o], m.w);
            ++o;
        }
    }
    REQUIRE_EQ(g, got.size());
    REQUIRE_EQ(o, other.size());
    if (sx)
        s.nontrivial();
}

} // namespace

const char* pbt::g_property = "C07";
std::vector<Facet> pbt::facets()
{
    return {
        { "packets", "the packet has a MIDI 1 byte form", packets, 300000, 6000000 },
        { "all_statuses", "every message type with every status byte; counted if it has a byte form", all_statuses, 20000, 400000, 4096 },
        { "from_bytes", "valid status byte", from_bytes, 50000, 1000000 },
        { "sysex_streams", "stream with at least one SysEx message", sysex_streams, 60000, 1000000 },
    };
}
