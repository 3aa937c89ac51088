#include "names.h"
#include <midi/stream_message.h>

using namespace h;
using midi::universal_packet;

namespace {

void is_words(const universal_packet& p, const uint32_t* w)
{
    REQUIRE_MSG(!memcmp(p.data, w, 16), "packet " << show_packet(p) << ", expected [" << show_words(w, 4) << "]");
    REQUIRE_EQ(p.size(), size_t(4));
}
void is_words(const universal_packet& p, uint32_t a, uint32_t b = 0, uint32_t c = 0, uint32_t d = 0)
{
    const uint32_t w[4] = { a, b, c, d };
    is_words(p, w);
}

void fixed(Src& s)
{
    const auto k = s.draw(7);
    const auto maj = uint8_t(s.bits(8)), min = uint8_t(s.bits(8));
    s.note([&](auto& o) { o << "stream factory " << k << "\n"; });
    s.nontrivial();
    switch (k)
    {
    case 0: {
        const auto f = uint8_t(s.draw(31));
        const auto p = midi::make_endpoint_discovery_message(f, maj, min);
        is_words(p, 0xF0000000u | maj << 8 | min, f);
        const auto v = midi::as_endpoint_discovery_view(p);
        REQUIRE(v.has_value());
        REQUIRE_EQ(v->ump_version_major(), maj);
        REQUIRE_EQ(v->ump_version_minor(), min);
        REQUIRE_EQ(v->ump_version(), uint16_t(maj << 8 | min));
        REQUIRE_EQ(v->filter(), f);
        REQUIRE_EQ(v->requests_info(), (f & 1) != 0);
        REQUIRE_EQ(v->requests_device_identity(), (f & 2) != 0);
        REQUIRE_EQ(v->requests_name(), (f & 4) != 0);
        REQUIRE_EQ(v->requests_product_instance_id(), (f & 8) != 0);
        REQUIRE_EQ(v->requests_stream_configuration(), (f & 16) != 0);
        is_words(midi::make_endpoint_discovery_message(f), 0xF0000101u, f);
        break;
    }
    case 1: {
        const auto n = uint8_t(s.bits(7));
        const bool st = s.draw(1);
        const auto pr = uint8_t(s.draw(3)), ex = uint8_t(s.draw(3));
        const auto p = midi::make_endpoint_info_message(n, st, pr, ex, maj, min);
        is_words(p, 0xF0010000u | maj << 8 | min, (st ? 0x80000000u : 0) | n << 24 | pr << 8 | ex);
        const auto v = midi::as_endpoint_info_view(p);
        REQUIRE(v.has_value());
        REQUIRE_EQ(v->ump_version_major(), maj);
        REQUIRE_EQ(v->ump_version_minor(), min);
        REQUIRE_EQ(v->ump_version(), uint16_t(maj << 8 | min));
        REQUIRE_EQ(v->num_function_blocks(), n);
        REQUIRE_EQ(v->static_function_blocks(), st);
        REQUIRE_EQ(v->protocols(), pr);
        REQUIRE_EQ(v->extensions(), ex);
        is_words(midi::make_endpoint_info_message(n, st, pr, ex), 0xF0010101u, (st ? 0x80000000u : 0) | n << 24 | pr << 8 | ex);
        break;
    }
    case 2: {
        midi::device_identity i{};
        i.manufacturer = s.chance(1, 2) ? gen_manufacturer(s) : uint32_t(s.bits(24)) & 0x7F7F7F;
        i.family   = uint16_t(s.bits(14));
        i.model    = uint16_t(s.bits(14));
        i.revision = uint32_t(s.bits(28));
        const auto p = midi::make_device_identity_message(i);
        const uint32_t fam = i.family, mod = i.model, rev = i.revision;
        is_words(p, 0xF0020000u, i.manufacturer,
                 (fam & 0x7F) << 24 | (fam >> 7) << 16 | (mod & 0x7F) << 8 | mod >> 7,
                 (rev & 0x7F) << 24 | ((rev >> 7) & 0x7F) << 16 | ((rev >> 14) & 0x7F) << 8 | rev >> 21);
        const auto v = midi::as_device_identity_view(p);
        REQUIRE(v.has_value());
        const auto r = v->identity();
        REQUIRE_EQ(uint32_t(r.manufacturer), uint32_t(i.manufacturer));
        REQUIRE_EQ(uint32_t(r.family), fam);
        REQUIRE_EQ(uint32_t(r.model), mod);
        REQUIRE_EQ(uint32_t(r.revision), rev);
        break;
    }
    case 3: {
        const auto pr = uint8_t(1 + s.draw(1)), ex = uint8_t(s.draw(3));
        const bool req = s.draw(1);
        const auto p = req ? midi::make_stream_configuration_request(pr, ex) : midi::make_stream_configuration_notification(pr, ex);
        is_words(p, (req ? 0xF0050000u : 0xF0060000u) | pr << 8 | ex);
        const auto v = midi::as_stream_configuration_view(p);
        REQUIRE(v.has_value());
        REQUIRE_EQ(v->protocol(), pr);
        REQUIRE_EQ(v->extensions(), ex);
        is_words(midi::make_stream_configuration_request(pr), 0xF0050000u | pr << 8);
        is_words(midi::make_stream_configuration_notification(pr), 0xF0060000u | pr << 8);
        break;
    }
    case 4: {
        const auto fb = uint8_t(s.chance(1, 3) ? 0xFF : s.draw(31)), f = uint8_t(s.draw(3));
        const auto p = midi::make_function_block_discovery_message(fb, f);
        is_words(p, 0xF0100000u | fb << 8 | f);
        const auto v = midi::as_function_block_discovery_view(p);
        REQUIRE(v.has_value());
        REQUIRE_EQ(v->function_block(), fb);
        REQUIRE_EQ(v->filter(), f);
        REQUIRE_EQ(v->requests_info(), (f & 1) != 0);
        REQUIRE_EQ(v->requests_name(), (f & 2) != 0);
        for (unsigned b = 0; b < 32; ++b)
            REQUIRE_EQ(v->requests_function_block(uint8_t(b)), fb == 0xFF || fb == b);
        break;
    }
    case 5: {
        const auto fb = uint8_t(s.draw(31)), dir = uint8_t(1 + s.draw(2)), g = uint8_t(s.draw(15)), n = uint8_t(1 + s.draw(15));
        const auto p = midi::make_function_block_info_message(fb, dir, g, n);
        is_words(p, 0xF0118000u | fb << 8 | dir << 4 | dir, uint32_t(g) << 24 | n << 16);
        const auto v = midi::as_function_block_info_view(p);
        REQUIRE(v.has_value());
        REQUIRE_EQ(v->active(), true);
        REQUIRE_EQ(v->function_block(), fb);
        REQUIRE_EQ(v->direction(), dir);
        REQUIRE_EQ(v->ui_hint(), dir);
        REQUIRE_EQ(v->first_group(), g);
        REQUIRE_EQ(v->num_groups_spanned(), n);
        is_words(midi::make_function_block_info_message(fb, dir, g), 0xF0118000u | fb << 8 | dir << 4 | dir, uint32_t(g) << 24 | 1 << 16);
        break;
    }
    case 6: {
        const auto fb = uint8_t(s.draw(31)), g = uint8_t(s.draw(15)), n = uint8_t(1 + s.draw(15));
        midi::function_block_options o;
        o.active    = s.draw(1);
        o.direction = uint8_t(1 + s.draw(2));
        o.midi1     = uint8_t(s.draw(2));
        o.ui_hint   = uint8_t(s.draw(3));
        if (!(o.ui_hint & o.direction))
            o.ui_hint = 0;
        o.ci_message_version     = uint8_t(s.bits(7));
        o.max_num_sysex8_streams = uint8_t(s.bits(8));
        const auto hint = uint32_t(o.ui_hint ? o.ui_hint : o.direction);
        const auto p = midi::make_function_block_info_message(fb, o, g, n);
        is_words(p, 0xF0110000u | (o.active ? 0x8000u : 0) | fb << 8 | hint << 4 | o.midi1 << 2 | o.direction,
                 uint32_t(g) << 24 | n << 16 | o.ci_message_version << 8 | o.max_num_sysex8_streams);
        const auto v = midi::as_function_block_info_view(p);
        REQUIRE(v.has_value());
        REQUIRE_EQ(v->active(), o.active);
        REQUIRE_EQ(v->function_block(), fb);
        REQUIRE_EQ(v->direction(), o.direction);
        REQUIRE_EQ(v->midi1(), o.midi1);
        REQUIRE_EQ(unsigned(v->ui_hint()), hint);
        REQUIRE_EQ(v->first_group(), g);
        REQUIRE_EQ(v->num_groups_spanned(), n);
        REQUIRE_EQ(v->ci_message_version(), o.ci_message_version);
        REQUIRE_EQ(v->max_num_sysex8_streams(), o.max_num_sysex8_streams);
        break;
    }
    default: {
        const auto st = uint8_t(s.bits(8));
        const auto f = midi::packet_format(s.draw(3)), f2 = midi::packet_format(s.draw(3));
        midi::stream_message m(st, f);
        m.data[1] = uint32_t(s.u32());
        m.set_byte(2, maj);
        is_words(m, 0xF0000000u | uint32_t(f) << 26 | st << 16 | maj << 8, m.data[1]);
        REQUIRE_EQ(unsigned(m.format()), unsigned(f));
        m.set_format(f2);
        is_words(m, 0xF0000000u | uint32_t(f2) << 26 | st << 16 | maj << 8, m.data[1]);
        REQUIRE_EQ(unsigned(m.format()), unsigned(f2));
        is_words(midi::stream_message(), 0xF0000000u);
        is_words(midi::stream_message(st), 0xF0000000u | st << 16);
        REQUIRE_EQ(m.status(), st);
        REQUIRE(midi::is_stream_message(m));
    }
    }
}

std::string gen_text(Src& s, size_t max, bool ascii)
{
    size_t n = s.chance(1, 2) ? s.draw(max < 60 ? max : 60) : s.size(max);
    if (s.chance(1, 3))
        n = std::min<size_t>(max, s.pick<size_t>({ 13, 14, 15, 26, 27, 28, 29, 39, 42 }));
    std::string r;
    for (size_t i = 0; i < n; ++i)
        r.push_back(char(1 + s.draw(ascii ? 126 : 254)));
    return r;
}

//! names of any length through the senders and views
void check_name(Src& s, unsigned kind, uint8_t fb, const std::string& text)
{
    const size_t cap = kind == 1 ? 13 : 14, off = kind == 1 ? 3 : 2;
    s.note([&](auto& o) { o << (kind == 0 ? "endpoint name " : kind == 1 ? "function block name " : "product instance id ") << text.size() << ": " << hex((const uint8_t*)text.data(), text.size()) << "\n"; });
    // not NUL terminated, exactly sized
    std::unique_ptr<char[]> raw(new char[text.size() ? text.size() : 1]);
    memcpy(raw.get(), text.data(), text.size());
    const std::string_view  sv(raw.get(), text.size());
    std::vector<universal_packet> out;
    auto send = [&](const midi::stream_message& m) { out.push_back(m); };
    if (kind == 0)
        midi::send_endpoint_name(sv, send);
    else if (kind == 1)
        midi::send_function_block_name(fb, sv, send);
    else
        midi::send_product_instance_id(sv, send);
    const size_t want = text.size() <= cap ? 1 : (text.size() + cap - 1) / cap;
    REQUIRE_EQ(out.size(), want);
    std::string back;
    size_t      at = 0;
    for (size_t i = 0; i < out.size(); ++i)
    {
        const auto& p = out[i];
        const unsigned f = want == 1 ? 0u : i == 0 ? 1u : i + 1 == want ? 3u : 2u;
        uint32_t w[4] = { 0xF0000000u | f << 26 | (kind == 0 ? 3u : kind == 1 ? 0x12u : 4u) << 16, 0, 0, 0 };
        if (kind == 1)
            put_byte(w, 2, fb);
        for (size_t b = off; b < 16 && at < text.size(); ++b)
            put_byte(w, b, uint8_t(text[at++]));
        is_words(p, w);
        if (kind == 0)
        {
            const auto v = midi::as_endpoint_name_view(p);
            REQUIRE(v.has_value());
            REQUIRE_EQ(unsigned(v->format()), f);
            back += v->payload();
        }
        else if (kind == 1)
        {
            const auto v = midi::as_function_block_name_view(p);
            REQUIRE(v.has_value());
            REQUIRE_EQ(unsigned(v->format()), f);
            REQUIRE_EQ(v->function_block(), fb);
            back += v->payload();
        }
        else
        {
            const auto v = midi::as_product_instance_id_view(p);
            REQUIRE(v.has_value());
            REQUIRE_EQ(unsigned(v->format()), f);
            back += v->payload();
        }
    }
    REQUIRE_MSG(back == text, "text changed to " << hex((const uint8_t*)back.data(), back.size()));
    if (!text.empty())
        s.nontrivial();
    if (want > 2)
        s.label("continued");
}

void names(Src& s)
{
    const auto kind = unsigned(s.draw(2)); // endpoint, function block, product instance id
    const auto fb   = uint8_t(s.draw(31));
    check_name(s, kind, fb, kind == 2 ? gen_text(s, 16, true) : gen_text(s, s.chance(1, 10) ? 2000 : 98, false));
}

//! giant names
void giant_names(Src& s)
{
    const auto  kind = unsigned(s.draw(1));
    const auto  fb   = uint8_t(s.draw(31));
    const auto  len  = giant_len(s) / 4;
    const auto  d    = giant_data(s, len, 8);
    std::string text(d.begin(), d.end());
    for (auto& c : text)
        if (!c)
            c = 'x';
    check_name(s, kind, fb, text);
}

//! single name packets
void name_packets(Src& s)
{
    const auto f = midi::packet_format(s.draw(3));
    const auto fb = uint8_t(s.draw(31));
    const auto a = gen_text(s, 14, false), b = gen_text(s, 13, false), c = gen_text(s, 14, true);
    auto layout = [&](uint32_t w0, size_t off, const std::string& t, const universal_packet& p) {
        uint32_t w[4] = { w0, 0, 0, 0 };
        for (size_t i = 0; i < t.size(); ++i)
            put_byte(w, off + i, uint8_t(t[i]));
        is_words(p, w);
    };
    s.note([&](auto& o) { o << "lengths " << a.size() << " " << b.size() << " " << c.size() << "\n"; });
    const auto p = midi::make_endpoint_name_message(f, a);
    layout(0xF0030000u | uint32_t(f) << 26, 2, a, p);
    REQUIRE_EQ(midi::as_endpoint_name_view(p)->payload(), a);
    const auto q = midi::make_function_block_name_message(f, fb, b);
    layout(0xF0120000u | uint32_t(f) << 26 | fb << 8, 3, b, q);
    REQUIRE_EQ(midi::as_function_block_name_view(q)->payload(), b);
    if (f != midi::packet_format::cont)
    {
        const auto r = midi::make_product_instance_id_message(f, c);
        layout(0xF0040000u | uint32_t(f) << 26, 2, c, r);
        REQUIRE_EQ(midi::as_product_instance_id_view(r)->payload(), c);
    }
    s.nontrivial();
}

void named(Src& s)
{
    const auto& k = pick_named(s, named_stream_statuses, named_protocols, named_discovery_filters);
    is_words(midi::stream_message(uint8_t(k.lib)), 0xF0000000u | k.spec << 16);
    is_words(midi::make_endpoint_discovery_message(uint8_t(k.lib)), 0xF0000101u, k.spec);
    using O = midi::function_block_options;
    REQUIRE_EQ(unsigned(O::direction_input), 1u);
    REQUIRE_EQ(unsigned(O::direction_output), 2u);
    REQUIRE_EQ(unsigned(O::bidirectional), 3u);
    REQUIRE_EQ(unsigned(O::not_midi1), 0u);
    REQUIRE_EQ(unsigned(O::midi1_unrestricted), 1u);
    REQUIRE_EQ(unsigned(O::midi1_31250), 2u);
    REQUIRE_EQ(unsigned(O::ui_hint_as_direction), 0u);
    REQUIRE_EQ(unsigned(O::ui_hint_receiver), 1u);
    REQUIRE_EQ(unsigned(O::ui_hint_sender), 2u);
    // an unmodified option set: active, bidirectional, MIDI 2, no CI, no SysEx8
    const auto fb = uint8_t(s.draw(31)), g = uint8_t(s.draw(15));
    is_words(midi::make_function_block_info_message(fb, O{}, g), 0xF0118000u | fb << 8 | 0x33, uint32_t(g) << 24 | 1 << 16);
    s.nontrivial();
}

} // namespace

const char* pbt::g_property = "C16";
std::vector<Facet> pbt::facets()
{
    return {
        { "fixed", "every case (factory enumerated)", fixed, 300000, 8000000, 8 },
        { "named_constants", "every constant (enumerated)", named, 5000, 20000,
          count_named(named_stream_statuses, named_protocols, named_discovery_filters) },
        { "giant_names", "every case: names of up to 2^18 bytes, lengths around powers of two", giant_names, 120, 3000 },
        { "names", "non-empty text", names, 120000, 3000000 },
        { "name_packets", "every case", name_packets, 100000, 2000000 },
    };
}
