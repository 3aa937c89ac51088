#include "common.h"
#include <midi/sysex_collector.h>

using namespace h;

namespace {

struct Got
{
    uint32_t             man;
    std::vector<uint8_t> data;
    uint8_t              stream;
};

template<typename P>
void check_sequence(const std::vector<P>& ps, const std::vector<uint8_t>& wire, unsigned group, uint8_t stream)
{
    REQUIRE_MSG(!ps.empty(), "no packets");
    std::vector<uint8_t> got;
    for (size_t i = 0; i < ps.size(); ++i)
    {
        const uint32_t* w      = ps[i].data;
        const unsigned  status = (w[0] >> 20) & 15, n = (w[0] >> 16) & 15;
        const unsigned  expect = ps.size() == 1 ? 0 : i == 0 ? 1 : i + 1 == ps.size() ? 3 : 2;
        REQUIRE_MSG((w[0] >> 28) == 5, "packet " << i << " has wrong type " << show_packet(ps[i]));
        REQUIRE_MSG(((w[0] >> 24) & 15) == group, "packet " << i << " has wrong group " << show_packet(ps[i]));
        REQUIRE_MSG(status == expect, "packet " << i << " of " << ps.size() << " has format " << status
                                                << ", expected " << expect << " " << show_packet(ps[i]));
        REQUIRE_MSG(n >= 1 && n <= 14, "number of bytes " << n << " " << show_packet(ps[i]));
        REQUIRE_MSG(byte_of(w, 2) == stream, "packet " << i << " has wrong stream id " << show_packet(ps[i]));
        for (unsigned b = 0; b < 13; ++b)
        {
            const auto v = byte_of(w, 3 + b);
            if (b < n - 1)
                got.push_back(v);
            else
                REQUIRE_MSG(v == 0, "unused payload byte not zero in " << show_packet(ps[i]));
        }
    }
    REQUIRE_MSG(got == wire, "packets carry " << hexv(got) << " instead of " << hexv(wire));
}

struct Collector
{
    std::vector<Got>              out;
    Dirty<midi::sysex8_collector> col;
    explicit Collector(uint8_t pat)
      : col(pat, [this](const midi::sysex8& m, uint8_t id) { out.push_back({ m.manufacturerID, sx_data(m), id }); })
    {
    }
};

void roundtrip(Src& s, uint32_t man, const std::vector<uint8_t>& d, uint8_t stream, unsigned group, Collector& c)
{
    s.note([&](auto& o) { o << "group " << group << " stream " << +stream << " " << show_sx(man, d) << "\n"; });
    const auto sx   = make_sx<midi::sysex8>(man, d);
    const bool high = std::any_of(d.begin(), d.end(), [](uint8_t b) { return b >= 0x80; });
    REQUIRE_EQ(sx.is_8bit(), high);
    REQUIRE_EQ(sx.is_7bit(), !high);
    check_value(s, sx, man, d);
    const auto wire = wire8(man, d);

    const auto ps = midi::as_sysex8_packets(sx, stream, midi::group_t(group));
    check_sequence(ps, wire, group, stream);

    std::vector<midi::universal_packet> sent;
    midi::send_sysex8(sx, stream, midi::group_t(group), [&](const auto& p) { sent.push_back(p); });
    check_sequence(sent, wire, group, stream);

    c.out.clear();
    for (size_t i = 0; i < ps.size(); ++i)
    {
        REQUIRE_MSG(c.out.empty(), "delivered before the last packet");
        c.col->feed(ps[i]);
        if (i + 1 < ps.size())
            REQUIRE_EQ(c.col->stream_id(), stream);
    }
    REQUIRE_MSG(c.out.size() == 1, "collector delivered " << c.out.size() << " messages");
    const auto& g = c.out[0];
    REQUIRE_MSG(g.man == man && g.data == d,
                "collected " << show_sx(g.man, g.data) << " instead of " << show_sx(man, d));
    REQUIRE_EQ(g.stream, stream);
    REQUIRE_MSG(sx_is(sx, man, d), "the message was modified");
}

void random_messages(Src& s)
{
    Collector c(uint8_t(s.bits(8)));
    size_t    n = 0;
    do
    {
        const auto man   = gen_manufacturer(s);
        const auto len   = s.size(s.chance(1, 40) ? 70000 : 700);
        const auto d     = s.byte_vec(len, 8);
        const auto group = unsigned(s.draw(15));
        const auto strm  = uint8_t(s.bits(8));
        if (len > 11)
            s.nontrivial();
        roundtrip(s, man, d, strm, group, c);
    } while (s.more(n, 1, 6));
}

constexpr unsigned num_long = 16;
//! very many messages through one collector
void session(Src& s)
{
    s.draw(num_long - 1);
    Collector c(uint8_t(s.bits(8)));
    long_run(s, 40000, [&](Src& r, size_t i) {
        const auto d = r.byte_vec(r.draw(r.chance(1, 30) ? 80 : 14), 8);
        roundtrip(r, gen_manufacturer(r), d, uint8_t(r.bits(8)), unsigned(r.draw(15)), c);
        if (i > 300)
            r.nontrivial();
    });
}

//! giant messages, with a small one behind each
void giant(Src& s)
{
    Collector  c(uint8_t(s.bits(8)));
    const auto len = giant_len(s);
    roundtrip(s, gen_manufacturer(s), giant_data(s, len, 8), uint8_t(s.bits(8)), unsigned(s.draw(15)), c);
    roundtrip(s, gen_manufacturer(s), s.byte_vec(s.draw(30), 8), uint8_t(s.bits(8)), unsigned(s.draw(15)), c);
    if (len > 0xFFFF)
        s.nontrivial();
}

constexpr unsigned max_len = 600;
void all_lengths(Src& s)
{
    const auto k   = s.draw((max_len + 1) * 3 - 1);
    const auto len = k / 3;
    uint32_t   man = 0;
    switch (k % 3)
    {
    case 0: man = uint32_t(s.range(1, 0x7F)) << 16; break;
    case 1: man = (uint32_t(s.range(1, 0x7F)) << 8) | uint32_t(s.bits(7)); break;
    case 2: man = uint32_t(s.range(1, 0x7F)); break;
    }
    s.nontrivial();
    Collector c(0xA5);
    const auto d = s.byte_vec(len, 8);
    roundtrip(s, man, d, uint8_t(s.bits(8)), unsigned(s.draw(15)), c);
}

void all_ids(Src& s)
{
    const auto k   = s.draw(0x3FFF + 0x7F - 1);
    uint32_t   man = k < 0x7F ? uint32_t(k + 1) << 16 : 0;
    if (!man)
    {
        const auto v = k - 0x7F + 1;
        man          = uint32_t(((v >> 7) << 8) | (v & 0x7F));
    }
    s.nontrivial();
    Collector c(0x5A);
    const auto d = s.byte_vec(s.size(40), 8);
    roundtrip(s, man, d, uint8_t(s.bits(8)), unsigned(s.draw(15)), c);
}

} // namespace

const char* pbt::g_property = "C02";
std::vector<Facet> pbt::facets()
{
    return {
        { "random_messages", "some message needs more than one packet (1-6 messages through one collector)", random_messages, 150000, 3000000 },
        { "session", "more than 300 messages through one collector", session, num_long, num_long * 8, num_long },
        { "giant", "more than 65 535 data bytes (up to 2^20, around powers of two)", giant, 160, 4000 },
        { "all_lengths", "every data length 0..600 with every ID form", all_lengths, 30000, 600000, (max_len + 1) * 3 },
        { "all_ids", "every valid manufacturer ID", all_ids, 33000, 300000, 0x3FFF + 0x7F },
    };
}
