#include "collector.h"

using namespace h;

namespace {

//! packets that belong to no message: a fresh collector ignores them
template<bool Eight, typename Sut, typename Model>
void strays(Src& s, Sut& sut, Model& model, unsigned group, uint8_t sid, const std::vector<unsigned>& statuses)
{
    for (auto st : statuses)
    {
        const auto d = s.byte_vec(s.draw(Eight ? 13 : 6), Eight ? 8 : 7);
        s.note([&](auto& o) { o << " stray packet, status " << st << ", " << d.size() << " bytes\n"; });
        step(s, sut, model, Eight ? pkt8(group, sid, st, d.data(), d.size()) : pkt7(group, st, d.data(), d.size()));
    }
}

template<bool Eight, typename Sut, typename Model>
void limited(Src& s)
{
    Sut        sut(uint8_t(s.bits(8)));
    Model      model;
    const auto group = unsigned(s.draw(15));
    const bool big   = s.chance(1, 50);
    unsigned   rejected = 0, accepted_after_reject = 0, at_limit = 0;
    bool       begun = true; // a message was begun since the limit changed: an unfinished one before that cannot go on

    auto new_limit = [&] {
        model.limit = s.size(big ? 40000 : 400);
        s.note([&](auto& o) { o << " limit " << model.limit << "\n"; });
        sut.c->set_max_sysex_data_size(model.limit);
        begun = false;
    };
    if (s.chance(5, 6))
        new_limit();

    size_t n = 0;
    while (s.more(n, 6, 30))
    {
        if (s.chance(1, 6))
            new_limit(); // between messages
        if (s.chance(1, 20))
        {
            s.note([&](auto& o) { o << " reset\n"; });
            sut.c->reset();
            model.reset();
        }
        size_t len = 0;
        if (model.limit && s.chance(2, 3))
        {
            // around the limit
            const auto off = s.draw(24);
            len            = model.limit + off >= 12 ? model.limit + off - 12 : 0;
        }
        else
            len = s.size(big ? 50000 : 500);
        const auto man  = gen_manufacturer(s);
        const auto data = s.byte_vec(len, Eight ? 8 : 7);
        const auto wire = Eight ? wire8(man, data) : wire7(man, data);
        const auto sid  = uint8_t(s.draw(3));
        auto       ps   = split(s, wire, Eight ? 13 : 6, s.chance(2, 3), [&](unsigned st, const uint8_t* d, size_t k) {
            return Eight ? pkt8(group, sid, st, d, k) : pkt7(group, st, d, k);
        });
        if (s.chance(1, 3))
            ps.resize(s.draw(ps.size())); // the rest never arrives
        else if (begun && s.chance(1, 8) && ps.size() > 1)
            ps.erase(ps.begin(), ps.begin() + long(1 + s.draw(ps.size() - 2))); // the beginning got lost
        s.note([&](auto& o) { o << " message " << show_sx(man, data) << " in " << ps.size() << " packets\n"; });
        for (auto& p : ps)
        {
            const auto e = step(s, sut, model, p);
            if (e.kind == Expect::exact)
            {
                if (rejected)
                    ++accepted_after_reject;
                if (model.limit && e.data.size() == model.limit)
                    ++at_limit;
            }
        }
        if (model.limit && len > model.limit && !ps.empty())
            ++rejected;
        if (!ps.empty())
            begun = true;
        if (begun && s.chance(1, 4))
        {
            std::vector<unsigned> st;
            for (auto i = s.draw(2) + 1; i > 0; --i)
                st.push_back(unsigned(2 + s.draw(1)));
            strays<Eight>(s, sut, model, group, sid, st);
        }
    }
    if (accepted_after_reject)
    {
        s.nontrivial();
        s.label("accepted_after_reject");
    }
    if (at_limit)
        s.label("exactly_at_limit");
}

constexpr unsigned num_long = 16;
//! one collector over a very long session, limit fixed or changing
template<bool Eight, typename Sut, typename Model>
void session(Src& s)
{
    const auto k = s.draw(num_long - 1);
    Sut   sut(uint8_t(s.bits(8)));
    Model model;
    model.limit = s.draw(40);
    sut.c->set_max_sysex_data_size(model.limit);
    bool begun = true;
    long_run(s, 60000, [&](Src& r, size_t i) {
        if ((k & 1) && r.chance(1, (k & 2) ? 3 : 1000))
        {
            begun       = false;
            model.limit = r.draw(40);
            sut.c->set_max_sysex_data_size(model.limit);
        }
        const auto man  = gen_manufacturer(r);
        const auto data = r.byte_vec(r.draw(r.chance(1, 3) ? 50 : 12), Eight ? 8 : 7);
        auto       wire = Eight ? wire8(man, data) : wire7(man, data);
        auto       ps   = split(r, wire, Eight ? 13 : 6, true, [&](unsigned st, const uint8_t* d, size_t n) {
            return Eight ? pkt8(3, 9, st, d, n) : pkt7(3, st, d, n);
        });
        if ((k & 4) && r.chance(1, 4))
            ps.resize(r.draw(ps.size()));
        for (auto& p : ps)
            step(r, sut, model, p);
        if (!ps.empty())
            begun = true;
        if (begun && r.chance(1, 5))
            strays<Eight>(r, sut, model, 3, 9, { unsigned(2 + r.draw(1)) });
        if (i > 300)
            r.nontrivial();
        if (i > 0x10000)
            r.label("more_than_65536_messages");
    });
}

//! large limits: messages just below, at and above them, then small ones
template<bool Eight, typename Sut, typename Model>
void giant(Src& s)
{
    Sut        sut(uint8_t(s.bits(8)));
    Model      model;
    const auto limit = giant_len(s);
    model.limit      = limit;
    sut.c->set_max_sysex_data_size(limit);
    s.note([&](auto& o) { o << "limit " << limit << "\n"; });
    const unsigned rounds = unsigned(s.range(1, 3));
    for (unsigned r = 0; r < rounds; ++r)
    {
        const bool   over = s.chance(1, 2);
        const size_t len  = over ? limit + 1 + (s.chance(1, 2) ? 0 : s.draw(300)) : limit - (s.chance(1, 2) ? 0 : s.draw(std::min<size_t>(300, limit)));
        for (size_t l : { len, size_t(s.draw(20)) })
        {
            const auto   man  = gen_manufacturer(s);
            const auto   data = giant_data(s, l, Eight ? 8 : 7);
            const auto   wire = Eight ? wire8(man, data) : wire7(man, data);
            const size_t mx   = Eight ? 13 : 6;
            for (size_t pos = 0; pos < wire.size(); pos += mx)
            {
                const bool     first = pos == 0, last = pos + mx >= wire.size();
                const unsigned st    = first && last ? 0 : first ? 1 : last ? 3 : 2;
                const size_t   c     = std::min(mx, wire.size() - pos);
                step(s, sut, model, Eight ? pkt8(0, 1, st, wire.data() + pos, c) : pkt7(0, st, wire.data() + pos, c));
            }
            s.note([&](auto& o) { o << " message with " << l << " bytes\n"; });
        }
        s.label(over ? "over_the_limit" : "within_the_limit");
    }
    if (limit > 0xFFFF)
        s.nontrivial();
}

//! every limit 1..80 with every data length 0..90 through a fresh collector, followed by a small message
template<bool Eight, typename Sut, typename Model>
void grid(Src& s)
{
    const auto k    = s.draw(80 * 91 * 2 - 1);
    const bool three = k & 1;
    const size_t len = (k >> 1) % 91, limit = (k >> 1) / 91 + 1;
    Sut        sut(0xA5);
    Model      model;
    model.limit = limit;
    sut.c->set_max_sysex_data_size(limit);
    const uint32_t man = three ? 0x002109 : 0x7D0000;
    for (size_t l : { len, limit, size_t(0) })
    {
        std::vector<uint8_t> data;
        for (size_t i = 0; i < l; ++i)
            data.push_back(uint8_t((i * 5 + l) & 0x7F));
        const auto wire = Eight ? wire8(man, data) : wire7(man, data);
        const size_t mx = Eight ? 13 : 6;
        for (size_t pos = 0; pos < wire.size(); pos += mx)
        {
            const bool first = pos == 0, last = pos + mx >= wire.size();
            const unsigned st = first && last ? 0 : first ? 1 : last ? 3 : 2;
            const size_t   c  = std::min(mx, wire.size() - pos);
            step(s, sut, model, Eight ? pkt8(0, 1, st, wire.data() + pos, c) : pkt7(0, st, wire.data() + pos, c));
        }
        const uint8_t b[2] = { 1, 2 };
        for (unsigned st : { 2u, 3u }) // packets that belong to no message
            step(s, sut, model, Eight ? pkt8(0, 1, st, b, 2) : pkt7(0, st, b, 2));
    }
    s.nontrivial();
}

} // namespace

const char* pbt::g_property = "C04";
std::vector<Facet> pbt::facets()
{
    return {
        { "limited7", "an acceptable message is delivered after an oversized one in the same history", limited<false, Sut7, Model7>, 100000, 2000000 },
        { "limited8", "an acceptable message is delivered after an oversized one in the same history", limited<true, Sut8, Model8>, 100000, 2000000 },
        { "session7", "more than 300 messages through one collector", session<false, Sut7, Model7>, num_long, num_long * 8, num_long },
        { "session8", "more than 300 messages through one collector", session<true, Sut8, Model8>, num_long, num_long * 8, num_long },
        { "giant7", "limits above 65 535 (up to 2^20, around powers of two)", giant<false, Sut7, Model7>, 50, 1500 },
        { "giant8", "limits above 65 535 (up to 2^20, around powers of two)", giant<true, Sut8, Model8>, 50, 1500 },
        { "grid7", "every limit 1..80 x data length 0..90 x ID form", grid<false, Sut7, Model7>, 14560, 14560, 14560 },
        { "grid8", "every limit 1..80 x data length 0..90 x ID form", grid<true, Sut8, Model8>, 14560, 14560, 14560 },
    };
}
