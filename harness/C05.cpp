#include "parser.h"

using namespace h;

namespace {

void feed(Src& s, ParserSut& sut, ParserModel& m, const std::vector<uint8_t>& b)
{
    sut.out.clear();
    m.out.clear();
    // exact-size heap copy, so that reading past the end is visible
    std::unique_ptr<uint8_t[]> buf(new uint8_t[b.size() + (b.empty() ? 1 : 0)]);
    std::copy(b.begin(), b.end(), buf.get());
    switch (s.draw(2))
    {
    case 0:
        for (auto x : b)
            sut.p->feed(x);
        break;
    case 1: sut.p->feed(buf.get(), b.size()); break;
    default: sut.p->feed(buf.get(), buf.get() + b.size()); break;
    }
    for (auto x : b)
        m.feed(x);
    compare(sut.out, m.out);
}

void history(Src& s)
{
    const bool  cb      = s.chance(1, 2);
    const bool  enabled = !s.chance(1, 12);
    const auto  pat     = uint8_t(s.bits(8));
    const bool  with_group = s.chance(1, 2);
    ParserModel m;
    m.callback_mode = cb;
    m.enabled       = enabled;
    m.group         = with_group ? uint8_t(s.draw(15)) : 0;
    std::unique_ptr<ParserSut> sut(with_group ? new ParserSut(pat, cb, enabled, m.group)
                                              : new ParserSut(pat, cb, enabled));
    s.note([&](auto& o) { o << "sysex " << (cb ? "callback" : "packets") << ", enabled " << enabled << ", group " << +m.group << "\n"; });
    size_t n = 0, events = 0;
    bool   ops = false;
    while (s.more(n, 12, 120))
    {
        switch (s.draw(15))
        {
        case 13:
            m.set_group(uint8_t(s.draw(15)));
            s.note([&](auto& o) { o << " set_group " << +m.group << "\n"; });
            sut->p->set_group(m.group);
            REQUIRE_EQ(sut->p->group(), m.group);
            ops = true;
            break;
        case 14: {
            const bool e = s.chance(2, 3);
            s.note([&](auto& o) { o << " enable_callbacks " << e << "\n"; });
            m.set_enabled(e);
            sut->p->enable_callbacks(e);
            REQUIRE_EQ(sut->p->callbacks_enabled(), e);
            ops = true;
            break;
        }
        case 15:
            s.note([&](auto& o) { o << " reset\n"; });
            m.reset();
            sut->p->reset();
            ops = true;
            break;
        default: {
            const auto e = gen_element(s);
            s.note([&](auto& o) { o << " " << hexv(e) << "\n"; });
            feed(s, *sut, m, e);
            events += m.out.size();
            break;
        }
        }
    }
    if (events >= 3)
        s.nontrivial();
    if (ops)
        s.label("with_group_enable_reset");
    s.label(cb ? "sysex_callback" : "sysex_packets");
}

//! callbacks that throw or reset the parser: the message counts as delivered, decoding goes on after it
void hostile(Src& s)
{
    ParserModel m;
    m.callback_mode = s.chance(1, 2);
    m.group         = uint8_t(s.draw(15));
    ParserSut sut(uint8_t(s.bits(8)), m.callback_mode, true, m.group);
    size_t    n = 0, acted = 0, after = 0;
    while (s.more(n, 10, 80))
    {
        const auto e = gen_element(s);
        s.note([&](auto& o) { o << " " << hexv(e) << "\n"; });
        sut.act = s.chance(1, 3) ? s.chance(1, 3) ? Act::reset : Act::fail : Act::none;
        for (auto b : e)
        {
            sut.out.clear();
            m.out.clear();
            try
            {
                sut.p->feed(b);
            }
            catch (const Boom&)
            {
                s.note([&](auto& o) { o << "  callback threw at " << +b << "\n"; });
            }
            m.feed(b);
            compare(sut.out, m.out);
            if (acted)
                after += m.out.size();
            if (!m.out.empty() && sut.act != Act::none)
            {
                ++acted;
                if (sut.act == Act::reset)
                {
                    s.note([&](auto& o) { o << "  callback reset the parser at " << +b << "\n"; });
                    m.reset();
                }
            }
        }
    }
    if (after)
        s.nontrivial();
}

constexpr unsigned num_long = 24;
//! one parser over a very long session
void session(Src& s)
{
    const auto  k = s.draw(num_long - 1);
    ParserModel m;
    m.callback_mode = k & 1;
    m.group         = uint8_t(s.draw(15));
    ParserSut sut(uint8_t(s.bits(8)), m.callback_mode, true, m.group);
    size_t    events = 0;
    long_run(s, 40000, [&](Src& r, size_t) {
        if ((k & 2) && r.chance(1, 500))
        {
            m.reset();
            sut.p->reset();
        }
        const auto e = gen_element(r);
        r.note([&](auto& o) { o << " " << hexv(e) << "\n"; });
        feed(r, sut, m, e);
        events += m.out.size();
        if (events > 1000)
            r.nontrivial();
        if (events > 0x10000)
            r.label("more_than_65536_messages");
    });
}

//! giant SysEx messages and very long runs under one status byte
void giant(Src& s)
{
    ParserModel m;
    m.callback_mode = s.chance(1, 2);
    m.group         = uint8_t(s.draw(15));
    ParserSut sut(uint8_t(s.bits(8)), m.callback_mode, true, m.group);
    size_t    n = 0;
    do
    {
        const auto           len = giant_len(s) / 2;
        std::vector<uint8_t> e   = giant_data(s, len, 7);
        if (s.chance(1, 2))
        {
            e.insert(e.begin(), 0xF0);
            if (s.chance(1, 3))
                e.insert(e.begin() + 1, 0);
            if (!s.chance(1, 5))
                e.push_back(0xF7);
            s.note([&](auto& o) { o << " SysEx, " << len << " bytes\n"; });
            if (len > 0xFFFF)
                s.label("giant_sysex");
        }
        else
        {
            e.insert(e.begin(), uint8_t(0x80 + s.draw(0x6F)));
            s.note([&](auto& o) { o << " running status " << +e[0] << ", " << len << " data bytes\n"; });
            if (len > 0xFFFF)
                s.label("giant_run");
        }
        const size_t rt = s.draw(3);
        for (size_t i = 0; i < rt; ++i)
            e[1 + s.draw(e.size() - 2)] = uint8_t(s.pick<int>({ 0xF8, 0xFA, 0xFB, 0xFC, 0xFE, 0xFF }));
        feed(s, sut, m, e);
        if (len > 512)
            s.nontrivial();
        const auto tail = gen_element(s);
        s.note([&](auto& o) { o << " " << hexv(tail) << "\n"; });
        feed(s, sut, m, tail);
    } while (s.more(n, 1, 4));
}

//! every two-byte continuation of every parser context
void contexts(Src& s)
{
    static const std::vector<std::vector<uint8_t>> prefix = {
        {}, { 0x90 }, { 0x90, 0x10 }, { 0x90, 0x10, 0x20 }, { 0x90, 0x10, 0x20, 0x30 }, { 0xC5 }, { 0xC5, 0x11 },
        { 0xF1 }, { 0xF1, 0x12 }, { 0xF2 }, { 0xF2, 0x13 }, { 0xF2, 0x13, 0x14 }, { 0xF3 }, { 0xF6 }, { 0xF4 }, { 0xF7 },
        { 0xF0 }, { 0xF0, 0x00 }, { 0xF0, 0x00, 0x01 }, { 0xF0, 0x00, 0x01, 0x02 }, { 0xF0, 0x7E }, { 0xF0, 0x7E, 1, 2, 3, 4 },
        { 0xF0, 0x7E, 1, 2, 3, 4, 5 }, { 0xF0, 0x7E, 1, 2, 3, 4, 5, 6 }, { 0xF0, 0x7E, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11 },
        { 0xF0, 0x7E, 0xF7 }, { 0xE3, 0x01, 0x02, 0xF8 }, { 0x85, 0x01, 0x02, 0xF6 }, { 0x90, 0x10, 0xF0, 0x7E }, { 0xD2, 0x10, 0xF4 },
        { 0xF8 }, { 0xB0, 0x01, 0xFE },
    };
    const auto  k  = s.draw(32 * 65536 - 1);
    const auto& pf = prefix[k >> 16];
    std::vector<uint8_t> bytes = pf;
    bytes.push_back(uint8_t(k >> 8));
    bytes.push_back(uint8_t(k));
    // a tail that makes the reached state visible
    for (uint8_t t : { 0x21, 0x22, 0xF8, 0x23, 0xF7, 0x24, 0x25, 0x91, 0x26, 0x27 })
        bytes.push_back(t);
    for (bool cb : { false, true })
    {
        ParserModel m;
        m.callback_mode = cb;
        m.group         = uint8_t(k & 15);
        ParserSut sut(0xA5, cb, true, m.group);
        for (auto b : bytes)
        {
            sut.p->feed(b);
            m.feed(b);
        }
        s.note([&](auto& o) { o << hexv(bytes) << (cb ? " callback" : " packets") << "\n"; });
        compare(sut.out, m.out);
    }
    s.nontrivial();
}

} // namespace

const char* pbt::g_property = "C05";
std::vector<Facet> pbt::facets()
{
    return {
        { "history", "at least three messages decoded", history, 200000, 4000000 },
        { "hostile", "messages decoded after a callback threw or reset the parser", hostile, 80000, 2000000 },
        { "session", "more than 1000 messages from one parser", session, num_long, num_long * 8, num_long },
        { "giant", "a SysEx message or run under one status byte of more than 512 bytes (up to 2^19)", giant, 150, 4000 },
        { "contexts", "sampled quickly, all 2^16 two-byte continuations of 32 parser contexts in the thorough tier", contexts, 200000, 32 * 65536 },
    };
}
