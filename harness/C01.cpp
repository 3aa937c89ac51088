#include "common.h"
#include <midi/sysex_collector.h>

using namespace h;

namespace {

struct Got
{
    uint32_t             man;
    std::vector<uint8_t> data;
};

//! the packet sequence must be well-formed and carry exactly `wire`, decoded from raw words
template<typename P>
void check_sequence(const std::vector<P>& ps, const std::vector<uint8_t>& wire, unsigned group)
{
    REQUIRE_MSG(!ps.empty(), "no packets");
    std::vector<uint8_t> got;
    for (size_t i = 0; i < ps.size(); ++i)
    {
        const uint32_t* w      = ps[i].data;
        const unsigned  status = (w[0] >> 20) & 15, n = (w[0] >> 16) & 15;
        const unsigned  expect = ps.size() == 1 ? 0 : i == 0 ? 1 : i + 1 == ps.size() ? 3 : 2;
        REQUIRE_MSG((w[0] >> 28) == 3, "packet " << i << " has wrong type " << show_packet(ps[i]));
        REQUIRE_MSG(((w[0] >> 24) & 15) == group, "packet " << i << " has wrong group " << show_packet(ps[i]));
        REQUIRE_MSG(status == expect, "packet " << i << " of " << ps.size() << " has format " << status
                                                << ", expected " << expect << " " << show_packet(ps[i]));
        REQUIRE_MSG(n <= 6, "payload size " << n);
        for (unsigned b = 0; b < 6; ++b)
        {
            const auto v = byte_of(w, 2 + b);
            if (b < n)
            {
                REQUIRE_MSG(v < 0x80, "payload byte not 7 bit in " << show_packet(ps[i]));
                got.push_back(v);
            }
            else
                REQUIRE_MSG(v == 0, "unused payload byte not zero in " << show_packet(ps[i]));
        }
    }
    REQUIRE_MSG(got == wire, "packets carry " << hexv(got) << " instead of " << hexv(wire));
}

void roundtrip(Src& s, uint32_t man, const std::vector<uint8_t>& d, unsigned group, midi::sysex7_collector& col,
               std::vector<Got>& out)
{
    s.note([&](auto& o) { o << "group " << group << " " << show_sx(man, d) << "\n"; });
    const auto sx   = make_sx<midi::sysex7>(man, d);
    const auto wire = wire7(man, d);

    REQUIRE_EQ(sx.total_data_size(), wire.size());
    REQUIRE(sx.is_valid());
    REQUIRE(sx.is_7bit() && !sx.is_8bit());
    check_value(s, sx, man, d);
    {
        auto bad = sx;
        if (s.chance(1, 2))
            bad.manufacturerID |= 0x80u << (8 * s.draw(2));
        else
        {
            bad.data.push_back(uint8_t(0x80 | s.bits(7)));
            std::swap(bad.data.back(), bad.data[s.draw(bad.data.size() - 1)]);
            REQUIRE_MSG(bad.is_8bit() && !bad.is_7bit(), "8 bit data not noticed in " << show_sx(bad.manufacturerID, sx_data(bad)));
        }
        REQUIRE_MSG(!bad.is_valid(), "invalid message called valid " << show_sx(bad.manufacturerID, sx_data(bad)));
    }

    const auto ps = midi::as_sysex7_packets(sx, midi::group_t(group));
    check_sequence(ps, wire, group);

    std::vector<midi::universal_packet> sent;
    midi::send_sysex7(sx, midi::group_t(group), [&](const auto& p) { sent.push_back(p); });
    check_sequence(sent, wire, group);

    out.clear();
    for (size_t i = 0; i < ps.size(); ++i)
    {
        REQUIRE_MSG(out.empty(), "delivered before the last packet");
        col.feed(ps[i]);
    }
    REQUIRE_MSG(out.size() == 1, "collector delivered " << out.size() << " messages");
    REQUIRE_MSG(out[0].man == man && out[0].data == d,
                "collected " << show_sx(out[0].man, out[0].data) << " instead of " << show_sx(man, d));
    REQUIRE_MSG(sx_is(sx, man, d), "the message was modified");
}

struct Collector
{
    std::vector<Got>               out;
    Dirty<midi::sysex7_collector> col;
    explicit Collector(uint8_t pat)
      : col(pat, [this](const midi::sysex7& m) { out.push_back({ m.manufacturerID, sx_data(m) }); })
    {
    }
};

void random_messages(Src& s)
{
    Collector c(uint8_t(s.bits(8)));
    size_t    n = 0;
    do
    {
        const auto man   = gen_manufacturer(s);
        const auto len   = s.size(s.chance(1, 40) ? 70000 : 700);
        const auto d     = s.byte_vec(len, 7);
        const auto group = unsigned(s.draw(15));
        if (len > 5)
            s.nontrivial();
        roundtrip(s, man, d, group, *c.col, c.out);
    } while (s.more(n, 1, 6));
}

constexpr unsigned num_long = 16;
//! very many messages through one collector
void session(Src& s)
{
    s.draw(num_long - 1);
    Collector c(uint8_t(s.bits(8)));
    long_run(s, 40000, [&](Src& r, size_t i) {
        roundtrip(r, gen_manufacturer(r), r.byte_vec(r.draw(r.chance(1, 30) ? 80 : 10), 7), unsigned(r.draw(15)), *c.col, c.out);
        if (i > 300)
            r.nontrivial();
    });
}

//! giant messages, with a small one behind each
void giant(Src& s)
{
    Collector  c(uint8_t(s.bits(8)));
    const auto len = giant_len(s);
    roundtrip(s, gen_manufacturer(s), giant_data(s, len, 7), unsigned(s.draw(15)), *c.col, c.out);
    roundtrip(s, gen_manufacturer(s), s.byte_vec(s.draw(20), 7), unsigned(s.draw(15)), *c.col, c.out);
    if (len > 0xFFFF)
        s.nontrivial();
}

constexpr unsigned max_len = 400;
//! all lengths x ID forms
void all_lengths(Src& s)
{
    const auto k   = s.draw((max_len + 1) * 3 - 1);
    const auto len = k / 3;
    uint32_t   man = 0;
    switch (k % 3)
    {
    case 0: man = uint32_t(s.range(1, 0x7F)) << 16; break;
    case 1: man = (uint32_t(s.range(1, 0x7F)) << 8) | uint32_t(s.bits(7)); break;
    case 2: man = uint32_t(s.range(1, 0x7F)); break;
    }
    s.nontrivial();
    Collector c(0xA5);
    roundtrip(s, man, s.byte_vec(len, 7), unsigned(s.draw(15)), *c.col, c.out);
}

//! every three byte and one byte manufacturer ID
void all_ids(Src& s)
{
    const auto k   = s.draw(0x3FFF + 0x7F - 1);
    uint32_t   man = k < 0x7F ? uint32_t(k + 1) << 16 : 0;
    if (!man)
    {
        const auto v = k - 0x7F + 1;
        man          = uint32_t(((v >> 7) << 8) | (v & 0x7F));
    }
    s.nontrivial();
    Collector c(0x5A);
    roundtrip(s, man, s.byte_vec(s.size(40), 7), unsigned(s.draw(15)), *c.col, c.out);
}

} // namespace

const char* pbt::g_property = "C01";
std::vector<Facet> pbt::facets()
{
    return {
        { "random_messages", "some message needs more than one packet (1-6 messages through one collector)", random_messages, 150000, 3000000 },
        { "session", "more than 300 messages through one collector", session, num_long, num_long * 8, num_long },
        { "giant", "more than 65 535 data bytes (up to 2^20, around powers of two)", giant, 160, 4000 },
        { "all_lengths", "every data length 0..400 with every ID form", all_lengths, 30000, 600000, (max_len + 1) * 3 },
        { "all_ids", "every valid manufacturer ID", all_ids, 33000, 300000, 0x3FFF + 0x7F },
    };
}
