#include "ci.h"
#include "names.h"

using namespace h;
namespace us = midi::universal_sysex;

namespace {

//! any sequence of appended fields reads back at its positions
void fields(Src& s)
{
    struct F
    {
        unsigned              kind;
        size_t                pos;
        uint32_t              v;
        midi::device_identity id;
    };
    midi::sysex7 sx;
    const auto   man = gen_manufacturer(s);
    Bytes        e;
    switch (s.draw(3))
    {
    case 0: sx = midi::sysex7(man); break;
    case 1: sx = midi::sysex7(man, s.size(64)); break;
    case 2: e = s.chance(1, 200) ? giant_data(s, giant_len(s) / 4, 7) : s.byte_vec(s.size(20), 7); sx = midi::sysex7(man, e.data(), e.size()); break;
    default: sx = midi::sysex7(man, { 1, 2, 3 }); e = { 1, 2, 3 }; break;
    }
    std::vector<F> f;
    size_t         n = 0;
    while (s.more(n, 6, 30))
    {
        F x{ unsigned(s.draw(5)), e.size(), 0, {} };
        switch (x.kind)
        {
        case 0: x.v = uint32_t(s.bits(7)); sx.add_uint7(uint8_t(x.v)); e.push_back(uint8_t(x.v)); break;
        case 1: x.v = uint32_t(s.bits(14)); sx.add_uint14(uint16_t(x.v)); put14(e, x.v); break;
        case 2: x.v = uint32_t(s.bits(28)); sx.add_uint28(x.v); put28(e, x.v); break;
        case 3: x.v = uint32_t(s.bits(32)); sx.add_uint32(x.v); put28(e, x.v & 0x0FFFFFFF); e.push_back(uint8_t(x.v >> 28)); break;
        case 4: x.id = gen_identity(s); sx.add_device_identity(x.id); put_identity(e, x.id); break;
        default: {
            const auto b = s.byte_vec(s.range<size_t>(1, 12), 7);
            sx.add_data(b.data(), b.size());
            e.insert(e.end(), b.begin(), b.end());
            break;
        }
        }
        f.push_back(x);
        s.note([&](auto& o) { o << " append kind " << x.kind << " value " << std::hex << x.v << std::dec << "\n"; });
        REQUIRE_MSG(sx_is(sx, man, e), "appending field kind " << x.kind << " gave " << show_sx(man, sx_data(sx)) << ", expected " << show_sx(man, e));
    }
    for (auto& x : f)
        switch (x.kind)
        {
        case 1: REQUIRE_EQ(uint32_t(sx.make_uint14(x.pos)), x.v); break;
        case 2: REQUIRE_EQ(uint32_t(sx.make_uint28(x.pos)), x.v); break;
        case 3: REQUIRE_EQ(uint32_t(sx.make_uint32(x.pos)), x.v); break;
        case 4: {
            const auto i = sx.make_device_identity(x.pos);
            REQUIRE_EQ(uint32_t(i.manufacturer), uint32_t(x.id.manufacturer));
            REQUIRE_EQ(uint32_t(i.family), uint32_t(x.id.family));
            REQUIRE_EQ(uint32_t(i.model), uint32_t(x.id.model));
            REQUIRE_EQ(uint32_t(i.revision), uint32_t(x.id.revision));
            break;
        }
        default: break;
        }
    REQUIRE(sx.is_7bit());
    REQUIRE(!sx.is_8bit());
    REQUIRE(sx.is_valid());
    REQUIRE_EQ(sx.total_data_size(), wire7(man, e).size());
    REQUIRE(!sx.empty());
    if (n > 1)
        s.nontrivial();
}

//! container laws of the SysEx value type
void value(Src& s)
{
    auto       man = s.chance(1, 8) ? 0u : gen_manufacturer(s);
    auto       d   = s.byte_vec(s.size(s.chance(1, 40) ? 40000 : 30), s.chance(1, 2) ? 7 : 8);
    const auto a   = make_sx<midi::sysex7>(man, d);
    auto       b   = a;
    REQUIRE(a == b);
    REQUIRE(!(a != b));
    bool eight = false;
    for (auto x : d)
        eight |= x >= 0x80;
    REQUIRE_EQ(a.is_7bit(), !eight);
    REQUIRE_EQ(a.is_8bit(), eight);
    REQUIRE_EQ(a.is_valid(), !eight);
    REQUIRE_EQ(a.empty(), !man && d.empty());
    REQUIRE_EQ(a.total_data_size(), d.size() + (!man ? 0 : man >> 16 ? 1 : 3));
    if (!d.empty())
    {
        s.nontrivial();
        switch (s.draw(3))
        {
        case 0: b.data[s.draw(d.size() - 1)] ^= uint8_t(1u << s.draw(7)); break;
        case 1: b.data.pop_back(); break;
        case 2: b.data.push_back(uint8_t(s.bits(7))); break;
        default: b.manufacturerID ^= 1u << s.draw(22); break;
        }
        REQUIRE(!(a == b));
        REQUIRE(a != b);
        REQUIRE(sx_is(a, man, d));
        midi::sysex8 e8 = make_sx<midi::sysex8>(man, d), f8 = e8;
        REQUIRE(e8 == f8);
        f8.data.back() ^= 0x80;
        REQUIRE(e8 != f8);
        REQUIRE(!(e8 == f8));
    }
    auto moved = std::move(b);
    b = a;
    REQUIRE(b == a);
    b.clear();
    REQUIRE(b.empty());
    REQUIRE_EQ(b.manufacturerID, 0u);
    REQUIRE(b.data.empty());
    b.add_uint14(0x1234);
    REQUIRE(sx_is(b, 0, Bytes{ 0x34, 0x24 }));
}

void identity(Src& s)
{
    const auto dev = s.chance(1, 3) ? uint8_t(0x7F) : uint8_t(s.bits(7));
    const us::message req = s.chance(1, 2) ? us::make_identity_request(dev) : us::message(us::identity_request(dev));
    REQUIRE_MSG(sx_is(req, 0x7E0000, Bytes{ dev, 6, 1 }), "identity request is " << show_sx(req.manufacturerID, sx_data(req)));
    REQUIRE(us::is_identity_request(req));
    REQUIRE(!us::is_identity_reply(req));
    REQUIRE_EQ(req.device_id(), dev);
    REQUIRE(sx_is(us::make_identity_request(), 0x7E0000, Bytes{ 0x7F, 6, 1 }));

    midi::device_identity i = gen_identity(s);
    i.manufacturer          = gen_manufacturer(s);
    s.note([&](auto& o) { o << " identity " << std::hex << i.manufacturer << " " << i.family << " " << i.model << " " << i.revision << " device " << +dev << std::dec << "\n"; });
    const bool one = i.manufacturer >> 16;
    auto       exp = [&](uint8_t dv) {
        Bytes e{ dv, 6, 2 };
        if (one)
            e.push_back(uint8_t(i.manufacturer >> 16));
        else
        {
            e.push_back(0);
            e.push_back((i.manufacturer >> 8) & 0x7F);
            e.push_back(i.manufacturer & 0x7F);
        }
        put14(e, i.family);
        put14(e, i.model);
        put28(e, i.revision);
        return e;
    };
    REQUIRE_MSG(sx_is(us::make_identity_reply(i.manufacturer, i.family, i.model, i.revision), 0x7E0000, exp(0x7F)) &&
                  sx_is(us::identity_reply(i.manufacturer, i.family, i.model, i.revision), 0x7E0000, exp(0x7F)) &&
                  sx_is(us::identity_reply(i), 0x7E0000, exp(0x7F)) && sx_is(us::identity_request(), 0x7E0000, Bytes{ 0x7F, 6, 1 }),
                "without a device ID the message is not addressed to all");
    const bool full = s.chance(3, 4);
    us::message m = full ? (s.chance(1, 2) ? us::make_identity_reply(i.manufacturer, i.family, i.model, i.revision, dev)
                                           : us::message(us::identity_reply(i.manufacturer, i.family, i.model, i.revision, dev)))
                         : us::make_identity_reply(i);
    Bytes e = exp(full ? dev : 0x7F);
    REQUIRE_MSG(sx_is(m, 0x7E0000, e), "identity reply is " << show_sx(m.manufacturerID, sx_data(m)) << ", expected " << show_sx(0x7E0000, e));
    REQUIRE(m.is_valid());
    inspect(m, true);
    if (s.chance(1, 2))
    {
        const auto dv = uint8_t(s.bits(7));
        m.set_device_id(dv);
        e[0] = dv;
        REQUIRE(sx_is(m, 0x7E0000, e));
    }
    REQUIRE_EQ(m.device_id(), e[0]);
    REQUIRE_EQ(m.type(), 0x7E06);
    REQUIRE_EQ(m.subtype(), 2);
    REQUIRE(us::is_identity_reply(m));
    REQUIRE(!us::is_identity_request(m));
    // over the wire
    midi::sysex7           got;
    unsigned               calls = 0;
    midi::sysex7_collector c{ [&](const midi::sysex7& x) { got = x; ++calls; } };
    for (auto& p : midi::as_sysex7_packets(m))
        c.feed(p);
    REQUIRE_EQ(calls, 1u);
    auto v = us::as_identity_reply_view(got);
    REQUIRE(bool(v));
    const auto r = v->identity();
    REQUIRE_EQ(uint32_t(r.manufacturer), uint32_t(i.manufacturer));
    REQUIRE_EQ(uint32_t(r.family), uint32_t(i.family));
    REQUIRE_EQ(uint32_t(r.model), uint32_t(i.model));
    REQUIRE_EQ(uint32_t(r.revision), uint32_t(i.revision));
    REQUIRE_EQ(v->device_id(), e[0]);
    if (i.family && i.model && i.revision)
        s.nontrivial();
}

//! every 7- and 14-bit number
void small_numbers(Src& s)
{
    const auto   v = uint32_t(s.draw(16383));
    REQUIRE(midi::sysex7::uint7_max == 0x7F && midi::sysex7::uint14_max == 0x3FFF && midi::sysex7::uint28_max == 0x0FFFFFFF);
    midi::sysex7 sx(0x7D0000);
    sx.add_uint7(uint8_t(v & 0x7F));
    sx.add_uint14(uint16_t(v));
    sx.add_uint28(v << 14 | (v ^ 0x2A55));
    sx.add_uint7(uint8_t(v >> 7));
    Bytes e{ uint8_t(v & 0x7F) };
    put14(e, v);
    put28(e, v << 14 | (v ^ 0x2A55));
    e.push_back(uint8_t(v >> 7));
    REQUIRE_MSG(sx_is(sx, 0x7D0000, e), show_sx(0x7D0000, sx_data(sx)) << " expected " << show_sx(0x7D0000, e));
    REQUIRE_EQ(uint32_t(sx.make_uint14(1)), v);
    REQUIRE_EQ(uint32_t(sx.make_uint28(3)), v << 14 | (v ^ 0x2A55));
    if (v > 127)
        s.nontrivial();
}

void named(Src& s)
{
    pick_named(s, named_manufacturers, named_universal_types, named_universal_subtypes);
    s.nontrivial();
}

} // namespace

const char* pbt::g_property = "C20";

std::vector<Facet> pbt::facets()
{
    return {
        { "field_sequences", "at least two fields", fields, 30000, 600000 },
        { "value_type", "message has data", value, 20000, 400000 },
        { "identity", "family, model and revision not zero", identity, 30000, 600000 },
        { "named_constants", "every constant (enumerated)", named, 200, 200, count_named(named_manufacturers, named_universal_types, named_universal_subtypes) },
        { "all_14bit", "more than 7 bits used", small_numbers, 16384, 16384, 16384 },
    };
}
