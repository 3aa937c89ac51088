#include "collector.h"

using namespace h;

namespace {

//! `Hostile`: the user's callback may throw or reset the collector
template<bool Eight, typename Sut, typename Model, bool Hostile = false>
void history(Src& s)
{
    constexpr unsigned own = Eight ? 5 : 3;
    Sut                sut(uint8_t(s.bits(8)));
    Model              model;
    const auto         group  = unsigned(s.draw(15));
    unsigned           faults = 0, good_after_fault = 0;
    uint8_t            sid = uint8_t(s.bits(8));
    std::vector<std::vector<Packet>> pending; // left over packets of interrupted messages

    auto feed = [&](const Packet& p) {
        if (Hostile)
        {
            sut.act = s.chance(1, 3) ? s.chance(1, 4) ? Act::reset : Act::fail : Act::none;
            s.note([&](auto& o) { if (sut.act != Act::none) o << " callback will " << (sut.act == Act::fail ? "throw" : "reset") << "\n"; });
        }
        const auto e = step(s, sut, model, p);
        if (e.kind == Expect::exact && faults)
            ++good_after_fault;
        if (Hostile && !sut.out.empty() && sut.act != Act::none)
            ++faults;
        if constexpr (Eight)
            if (model.active)
                REQUIRE_EQ(sut.c->stream_id(), model.stream);
    };

    size_t n = 0;
    while (s.more(n, 6, 40))
    {
        switch (s.draw(7))
        {
        default: { // one message, possibly damaged
            const auto man  = gen_manufacturer(s);
            const auto data = s.byte_vec(s.size(s.chance(1, 60) ? 20000 : s.chance(1, 4) ? 300 : 40), Eight ? 8 : 7);
            const bool full = s.chance(1, 2);
            if (Eight && s.chance(1, 4))
                sid = uint8_t(s.bits(8));
            auto wire = Eight ? wire8(man, data) : wire7(man, data);
            auto ps   = split(s, wire, Eight ? 13 : 6, full, [&](unsigned st, const uint8_t* d, size_t k) {
                return Eight ? pkt8(group, sid, st, d, k) : pkt7(group, st, d, k);
            });
            if (inject_faults(s, ps, own))
                ++faults;
            if (Eight && s.chance(1, 6) && !ps.empty()) // one packet with a wrong stream id
            {
                put_byte(ps[s.draw(ps.size() - 1)].w, 2, uint8_t(s.bits(8)));
                ++faults;
            }
            s.note([&](auto& o) { o << " message " << show_sx(man, data) << "\n"; });
            for (auto& p : ps)
                feed(p);
            break;
        }
        case 1: // arbitrary packet
        {
            Packet p;
            for (auto& w : p.w)
                w = uint32_t(s.u32());
            if (s.chance(3, 4))
                p.w[0] = (own << 28) | (p.w[0] & 0x0FFFFFFF);
            if (s.chance(3, 4))
                p.w[0] = (p.w[0] & 0xFF3FFFFFu) & 0xFF7FFFFFu; // plausible status
            if (!Eight && s.chance(3, 4))
                p.w[0] &= 0xFFF7FFFFu;
            ++faults;
            feed(p);
            break;
        }
        case 2:
            feed(foreign(s, own));
            break;
        case 3: // single well-formed packet out of any context
        {
            const auto d = s.byte_vec(s.draw(Eight ? 13 : 6), Eight ? 8 : 7);
            const auto st = unsigned(s.draw(3));
            ++faults;
            feed(Eight ? pkt8(group, sid, st, d.data(), d.size()) : pkt7(group, st, d.data(), d.size()));
            break;
        }
        case 4:
            if (s.chance(1, 2))
            {
                s.note([&](auto& o) { o << " reset\n"; });
                sut.c->reset();
                model.reset();
                ++faults;
            }
            break;
        }
    }
    if (good_after_fault)
    {
        s.nontrivial();
        s.label("delivery_after_fault");
    }
}

constexpr unsigned num_long = 24;
//! one collector over a very long session of short messages
template<bool Eight, typename Sut, typename Model>
void session(Src& s)
{
    const auto k      = s.draw(num_long - 1);
    const bool faulty = k & 1, resets = k & 2;
    constexpr unsigned own = Eight ? 5 : 3;
    Sut   sut(uint8_t(s.bits(8)));
    Model model;
    long_run(s, 90000, [&](Src& r, size_t i) {
        const auto man  = gen_manufacturer(r);
        const auto data = r.byte_vec(r.draw(r.chance(1, 20) ? 60 : 9), Eight ? 8 : 7);
        const auto sid  = uint8_t(Eight ? r.bits(8) : 0);
        auto       wire = Eight ? wire8(man, data) : wire7(man, data);
        auto       ps   = split(r, wire, Eight ? 13 : 6, r.chance(3, 4), [&](unsigned st, const uint8_t* d, size_t n) {
            return Eight ? pkt8(3, sid, st, d, n) : pkt7(3, st, d, n);
        });
        if (faulty && r.chance(1, 3))
            inject_faults(r, ps, own);
        if (resets && r.chance(1, 300))
        {
            sut.c->reset();
            model.reset();
        }
        for (auto& p : ps)
            step(r, sut, model, p);
        if (i > 300)
            r.nontrivial();
        if (i > 0x10000)
            r.label("more_than_65536_messages");
    });
}

//! giant messages and giant bursts of foreign packets inside a message, damaged or not, with small messages behind them
template<bool Eight, typename Sut, typename Model>
void giant(Src& s)
{
    constexpr unsigned own = Eight ? 5 : 3;
    Sut   sut(uint8_t(s.bits(8)));
    Model model;
    bool  big = false;
    const unsigned rounds = unsigned(s.range(1, 3));
    for (unsigned r = 0; r < rounds; ++r)
    {
        const bool   burst = s.chance(1, 3);
        const size_t len   = burst ? s.draw(200) : giant_len(s) / 2;
        for (size_t l : { len, size_t(s.draw(20)) })
        {
            const auto man  = gen_manufacturer(s);
            const auto data = giant_data(s, l, Eight ? 8 : 7);
            const auto sid  = uint8_t(Eight ? s.bits(8) : 0);
            auto       wire = Eight ? wire8(man, data) : wire7(man, data);
            auto       ps   = split(s, wire, Eight ? 13 : 6, true, [&](unsigned st, const uint8_t* d, size_t n) {
                return Eight ? pkt8(3, sid, st, d, n) : pkt7(3, st, d, n);
            });
            if (s.chance(1, 3))
                inject_faults(s, ps, own);
            const size_t at = ps.empty() ? 0 : s.draw(ps.size() - 1), n = burst && l == len ? giant_len(s) / 8 : s.draw(3);
            const auto   f  = foreign(s, own);
            s.note([&](auto& o) { o << " message with " << l << " bytes in " << ps.size() << " packets, " << n << " foreign packets before number " << at << "\n"; });
            for (size_t i = 0; i < ps.size(); ++i)
            {
                if (i == at)
                    for (size_t k = 0; k < n; ++k)
                        step(s, sut, model, f);
                const auto e = step(s, sut, model, ps[i]);
                big |= e.kind == Expect::exact && (l > 0xFFFF || n > 0xFFFF);
            }
        }
    }
    if (big)
        s.nontrivial();
}

//! very short alphabets, exhaustively: every sequence of up to 5 packets from 8 shapes
template<bool Eight, typename Sut, typename Model>
void exhaustive(Src& s)
{
    const auto k = s.draw(32768 - 1);
    Sut        sut(0xA5);
    Model      model;
    auto       x = k;
    static const uint8_t d7[8] = { 0x00, 0x21, 0x09, 0x7E, 0x01, 0x02, 0x03, 0x04 };
    for (int i = 0; i < 5; ++i, x >>= 3)
    {
        const unsigned shape = unsigned(x & 7);
        const unsigned st    = shape & 3;
        if (Eight)
        {
            const uint8_t sid = (shape & 4) ? 7 : 0;
            static const uint8_t hdr[4] = { 0x00, 0x7E, 0x11, 0x22 };
            uint8_t d[4] = { hdr[0], hdr[1], uint8_t(i), uint8_t(0x80 + shape) };
            step(s, sut, model, pkt8(2, sid, st, d, 4));
        }
        else
        {
            const size_t n = (shape & 4) ? 6 : 2;
            uint8_t      d[6];
            for (size_t b = 0; b < n; ++b)
                d[b] = d7[(b + (shape & 4)) & 7];
            d[n - 1] = uint8_t(0x10 + i);
            step(s, sut, model, pkt7(2, st, d, n));
        }
    }
    s.nontrivial();
}

//! no callback installed / callback replaced: nothing crashes, the new callback gets the next message
void callbacks(Src& s)
{
    std::vector<uint8_t> a = s.byte_vec(s.size(30), 7), b = s.byte_vec(s.size(30), 7);
    const auto           man = gen_manufacturer(s);
    int                  n1 = 0, n2 = 0;
    const bool           mid = s.chance(1, 2);
    s.note([&](auto& o) { o << show_sx(man, a) << " then " << show_sx(man, b) << " switch mid message " << mid << "\n"; });
    s.nontrivial();
    {
        midi::sysex7_collector c(midi::sysex7_collector::callback{});
        auto                   p1 = midi::as_sysex7_packets(make_sx<midi::sysex7>(man, a), 1);
        auto                   p2 = midi::as_sysex7_packets(make_sx<midi::sysex7>(man, b), 1);
        for (auto& p : p1)
            c.feed(p);
        c.set_callback([&](const midi::sysex7& m) { n1 += sx_is(m, man, b) ? 1 : 100; });
        for (size_t i = 0; i < p2.size(); ++i)
            c.feed(p2[i]);
        REQUIRE_EQ(n1, 1);
        for (size_t i = 0; i < p1.size(); ++i)
        {
            if (i == (mid ? p1.size() - 1 : 0))
                c.set_callback([&](const midi::sysex7& m) { n2 += sx_is(m, man, a) ? 1 : 100; });
            c.feed(p1[i]);
        }
        REQUIRE_EQ(n1, 1);
        REQUIRE_EQ(n2, 1);
    }
    n1 = n2 = 0;
    {
        midi::sysex8_collector c(midi::sysex8_collector::callback{});
        auto                   p1 = midi::as_sysex8_packets(make_sx<midi::sysex8>(man, a), 3, 1);
        auto                   p2 = midi::as_sysex8_packets(make_sx<midi::sysex8>(man, b), 4, 1);
        for (auto& p : p1)
            c.feed(p);
        c.set_callback([&](const midi::sysex8& m, uint8_t id) { n1 += sx_is(m, man, b) && id == 4 ? 1 : 100; });
        for (auto& p : p2)
            c.feed(p);
        REQUIRE_EQ(n1, 1);
        for (size_t i = 0; i < p1.size(); ++i)
        {
            if (i == (mid ? p1.size() - 1 : 0))
                c.set_callback([&](const midi::sysex8& m, uint8_t id) { n2 += sx_is(m, man, a) && id == 3 ? 1 : 100; });
            c.feed(p1[i]);
        }
        REQUIRE_EQ(n1, 1);
        REQUIRE_EQ(n2, 1);
    }
}

} // namespace

const char* pbt::g_property = "C03";
std::vector<Facet> pbt::facets()
{
    return {
        { "history7", "an intact message is delivered after a transport fault in the same history", history<false, Sut7, Model7>, 120000, 3000000 },
        { "history8", "an intact message is delivered after a transport fault in the same history", history<true, Sut8, Model8>, 120000, 3000000 },
        { "hostile7", "an intact message is delivered after a callback threw or reset the collector, or a fault", history<false, Sut7, Model7, true>, 60000, 1500000 },
        { "hostile8", "an intact message is delivered after a callback threw or reset the collector, or a fault", history<true, Sut8, Model8, true>, 60000, 1500000 },
        { "session7", "more than 300 messages through one collector", session<false, Sut7, Model7>, num_long, num_long * 8, num_long },
        { "session8", "more than 300 messages through one collector", session<true, Sut8, Model8>, num_long, num_long * 8, num_long },
        { "giant7", "a message of more than 65 535 bytes, or with more than 65 535 foreign packets inside, is delivered", giant<false, Sut7, Model7>, 40, 1500 },
        { "giant8", "a message of more than 65 535 bytes, or with more than 65 535 foreign packets inside, is delivered", giant<true, Sut8, Model8>, 40, 1500 },
        { "exhaustive7", "all 5-packet sequences over 4 formats x 2 fill levels", exhaustive<false, Sut7, Model7>, 32768, 32768, 32768 },
        { "exhaustive8", "all 5-packet sequences over 4 formats x 2 stream ids", exhaustive<true, Sut8, Model8>, 32768, 32768, 32768 },
        { "callbacks", "message collected across a change of callback", callbacks, 10000, 100000 },
    };
}
