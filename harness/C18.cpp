#include "ci.h"

using namespace h;

namespace {

//! the bytes live in a heap block of exactly their size: any access outside is caught
midi::sysex7 exact_heap(uint32_t man, const Bytes& d)
{
    midi::sysex7 r(man);
    r.data = midi::sysex7::data_type(d.begin(), d.end());
    if (r.data.capacity() != r.data.size())
        r.data.shrink_to_fit();
    return r;
}

size_t payload_of(int sub)
{
    switch (sub)
    {
    case 0x70: return 17;
    case 0x71: return 18;
    case 0x72: return 1;
    case 0x73: return 3;
    case 0x7D: case 0x7F: return 10;
    case 0x7E: return 4;
    case 0x20: return 0;
    case 0x21: return 4;
    case 0x22: case 0x23: case 0x24: case 0x25: return 7;
    case 0x26: case 0x27: return 5;
    case 0x28: return 6;
    case 0x29: return 8;
    case 0x2F: return 9;
    case 0x30: case 0x31: return 3;
    case 0x34: case 0x35: case 0x36: case 0x37: case 0x38: case 0x39: case 0x3F: return 9;
    case 0x41: return 1;
    case 0x42: return 5;
    case 0x43: return 4;
    }
    return 0;
}

const std::vector<int> subtypes{ 0x70, 0x71, 0x72, 0x73, 0x7D, 0x7F, 0x7E, 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2F,
                                 0x30, 0x31, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3F, 0x40, 0x41, 0x42, 0x43, 0x44, 0x32, 0x33, 0x3A, 0x2A, 0x74 };

//! a message with proper identification and embedded lengths that do or do not fit
Bytes gen_ci(Src& s, int sub)
{
    Bytes d = ci_prefix(uint8_t(s.bits(7)), uint8_t(sub), s.chance(1, 3) ? uint8_t(s.bits(7)) : s.pick<uint8_t>({ 2, 1 }), uint32_t(s.bits(28)), uint32_t(s.bits(28)));
    // a length field announcing about as much as is there
    auto len = [&](size_t actual) -> uint32_t {
        switch (s.draw(5))
        {
        default: return uint32_t(actual);
        case 1: return uint32_t(actual + 1);
        case 2: return uint32_t(actual ? actual - 1 : 1);
        case 3: return uint32_t(s.bits(14));
        }
    };
    auto body = [&](size_t n) {
        const auto b = s.byte_vec(n, 7);
        d.insert(d.end(), b.begin(), b.end());
    };
    const size_t n = s.size(s.chance(1, 20) ? 5000 : 40);
    switch (sub)
    {
    case 0x73: d.push_back(uint8_t(s.bits(7))); put14(d, len(n)); body(n); break;
    case 0x7D: case 0x7F: body(8); put14(d, len(n)); body(n); break;
    case 0x21: {
        const size_t m = s.size(8);
        put14(d, len(n / 5)); body(n / 5 * 5); put14(d, len(m)); body(m * 5);
        break;
    }
    case 0x29: body(6); put14(d, len(n)); body(n); break;
    case 0x2F: body(5); if (s.chance(1, 8)) put28(d, uint32_t(s.bits(28))); else put28(d, len(n)); body(n); break;
    case 0x34: case 0x35: case 0x36: case 0x37: case 0x38: case 0x39: case 0x3F: {
        const size_t hn = s.chance(1, 2) ? 0 : s.size(60), cn = s.chance(1, 2) ? 0 : n;
        d.push_back(uint8_t(s.bits(7)));
        put14(d, len(hn)); body(hn);
        switch (s.draw(3))
        {
        case 0: put14(d, 1); put14(d, 1); break;
        case 1: put14(d, uint32_t(s.draw(3))); put14(d, uint32_t(s.draw(3))); break;
        case 2: { const auto k = s.bits(14); put14(d, uint32_t(k)); put14(d, uint32_t(s.chance(1, 2) ? k : s.bits(14))); break; }
        default: { const auto k = s.draw(1000); put14(d, uint32_t(k)); put14(d, uint32_t(k + s.draw(2)) & 0x3FFF); break; }
        }
        put14(d, len(cn)); body(cn);
        break;
    }
    default: body(payload_of(sub)); break;
    }
    return d;
}

void check(Src& s, uint32_t man, const Bytes& d, bool exact)
{
    s.note([&](auto& o) { o << " ask about " << show_sx(man, d) << "\n"; });
    const auto sx = exact_heap(man, d);
    const auto n  = inspect(sx, exact);
    if (n > 2)
    {
        s.nontrivial();
        s.label("accepted");
    }
    else
        s.label("refused");
}

//! a CI message, possibly truncated, extended or corrupted
void mutated(Src& s)
{
    const int sub = s.pick(subtypes);
    Bytes     d   = gen_ci(s, sub);
    uint32_t  man = 0x7E0000;
    bool      exact = true;
    switch (s.draw(6))
    {
    default: break;
    case 1: d.resize(s.draw(d.size())); s.label("truncated"); break;
    case 2: { const auto e = s.byte_vec(s.size(20), 7); d.insert(d.end(), e.begin(), e.end()); s.label("extended"); break; }
    case 3: if (!d.empty()) d[s.draw(d.size() - 1)] = uint8_t(s.bits(7)); s.label("corrupted"); break;
    case 4: if (d.size() > 12) d[12 + s.draw(d.size() - 13)] = uint8_t(s.bits(7)); s.label("corrupted"); break;
    case 5: man = s.pick<uint32_t>({ 0x7F0000, 0x7D0000, 0x00007E, 0x000000, 0x7E0001, 0x7E7E00 }); s.label("other manufacturer"); break;
    case 6: if (!d.empty()) { d[s.draw(d.size() - 1)] |= 0x80; exact = false; } s.label("8-bit"); break;
    }
    check(s, man, d, exact);
}

//! giant embedded lengths, up to what their fields can announce, and messages that fall short of them
void giant(Src& s)
{
    const int sub = s.pick<int>({ 0x21, 0x21, 0x2F, 0x29, 0x73, 0x7D, 0x7F, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3F });
    Bytes     d   = ci_prefix(uint8_t(s.bits(7)), uint8_t(sub), 2, uint32_t(s.bits(28)), uint32_t(s.bits(28)));
    auto      len = [&] { return s.chance(1, 4) ? 0x3FFF - s.draw(3) : s.chance(1, 6) ? s.draw(3) : s.bits(14); };
    auto      body = [&](size_t n) {
        const auto b = giant_data(s, n, 7);
        d.insert(d.end(), b.begin(), b.end());
    };
    switch (sub)
    {
    case 0x21: {
        const auto a = len(), b = len();
        put14(d, uint32_t(a)); body(a * 5); put14(d, uint32_t(b)); body(b * 5);
        break;
    }
    case 0x2F: { const auto n = giant_len(s) / 2; body(5); put28(d, uint32_t(n)); body(n); break; }
    case 0x29: { const auto n = len(); body(6); put14(d, uint32_t(n)); body(n); break; }
    case 0x73: { const auto n = len(); body(1); put14(d, uint32_t(n)); body(n); break; }
    case 0x7D: case 0x7F: { const auto n = len(); body(8); put14(d, uint32_t(n)); body(n); break; }
    default: {
        const auto h = len(), c = len();
        body(1);
        put14(d, uint32_t(h)); body(h);
        put14(d, uint32_t(s.bits(14))); put14(d, uint32_t(s.chance(2, 3) ? 1 : s.bits(14)));
        put14(d, uint32_t(c)); body(c);
        break;
    }
    }
    switch (s.draw(3))
    {
    case 0: d.resize(d.size() - 1 - s.draw(4)); s.label("just short"); break;
    case 1: d.resize(s.draw(d.size())); s.label("truncated"); break;
    default: break;
    }
    check(s, 0x7E0000, d, true);
    if (d.size() > 0xFFFF)
        s.label("more than 65 535 bytes");
}

//! every truncation of one message, and the message itself
void truncations(Src& s)
{
    const int sub = subtypes[s.draw(subtypes.size() - 1)];
    Bytes     d   = gen_ci(s, sub);
    if (d.size() > 80)
        d.resize(80);
    for (size_t n = 0; n <= d.size(); ++n)
        check(s, 0x7E0000, Bytes(d.begin(), d.begin() + long(n)), true);
}

//! arbitrary content, any manufacturer, any length
void arbitrary(Src& s)
{
    uint32_t man = s.chance(3, 4) ? s.pick<uint32_t>({ 0x7E0000, 0x7F0000 }) : s.chance(1, 2) ? gen_manufacturer(s) : uint32_t(s.bits(32));
    const bool eight = s.chance(1, 4);
    Bytes d = s.byte_vec(s.size(s.chance(1, 50) ? 40000 : 48), eight ? 8 : 7);
    if (d.size() > 2 && s.chance(2, 3))
    {
        d[1] = s.pick<uint8_t>({ 0x0D, 0x06 });
        d[2] = d[1] == 6 ? s.pick<uint8_t>({ 2, 1, 3 }) : uint8_t(s.pick(subtypes));
    }
    bool exact = true;
    for (auto b : d)
        exact &= b < 0x80;
    s.note([&](auto& o) { o << " ask about " << show_sx(man, d) << "\n"; });
    const auto sx = exact_heap(man, d);
    if (inspect(sx, exact) > 1)
        s.nontrivial();
    if (!((man == 0x7E0000 || man == 0x7F0000) && d.size() >= 2))
    {
        REQUIRE_EQ(midi::universal_sysex_type_of(sx), 0);
        REQUIRE_EQ(midi::universal_sysex_subtype_of(sx), 0);
        REQUIRE_MSG(midi::universal_sysex_device_id_of(sx) > 0x7F, "device ID " << +midi::universal_sysex_device_id_of(sx) << " of a message without one");
    }
    // the mutable helper class reads short messages safely, too
    midi::universal_sysex::message m(man);
    m.data = sx.data;
    REQUIRE_EQ(m.device_id(), d.empty() ? 0xFF : d[0]);
    if (exact && !(man & 0xFF00FFFF))
        REQUIRE_EQ(m.type(), d.size() < 2 ? 0 : int(man >> 8 | d[1]));
    REQUIRE_EQ(m.subtype(), d.size() > 2 ? d[2] : 0);
    REQUIRE_EQ(sx.is_7bit(), exact);
    REQUIRE_EQ(sx.is_8bit(), !exact);
    REQUIRE_EQ(sx.is_valid(), exact && !(man & 0xFF808080));
}

//! identity messages of every length around the valid ones
void identity(Src& s)
{
    const size_t n = s.draw(20);
    Bytes        d = s.byte_vec(n, 7);
    if (n > 1)
        d[1] = 6;
    if (n > 2)
        d[2] = s.pick<uint8_t>({ 2, 1 });
    if (n > 3 && s.chance(1, 2))
        d[3] = 0;
    check(s, s.chance(1, 8) ? 0x7F0000 : 0x7E0000, d, true);
    if (n == 12 || n == 14)
        s.nontrivial();
}

} // namespace

const char* pbt::g_property = "C18";

std::vector<Facet> pbt::facets()
{
    return {
        { "mutated_ci", "the message is accepted as a specific MIDI-CI kind", mutated, 60000, 1500000 },
        { "giant", "the message is accepted; lengths up to what the fields can announce", giant, 1500, 40000 },
        { "truncations", "the untruncated message is accepted as a specific MIDI-CI kind", truncations, 6000, 150000, subtypes.size() },
        { "arbitrary", "recognised as a universal SysEx of some kind", arbitrary, 40000, 1000000 },
        { "identity", "length of an identity reply", identity, 15000, 200000, 21 },
    };
}
