#include "ci.h"
#include "names.h"

using namespace h;
namespace ci = midi::ci;

namespace {

struct Base
{
    uint8_t  dev;
    uint32_t src, dst;
};
Base gen_base(Src& s)
{
    Base b;
    b.dev = s.chance(1, 3) ? 0x7F : uint8_t(s.bits(7));
    b.src = uint32_t(s.bits(28));
    b.dst = s.chance(1, 4) ? 0x0FFFFFFF : uint32_t(s.bits(28));
    return b;
}
ci::profile_id gen_pid(Src& s)
{
    uint8_t b[5];
    for (auto& x : b)
        x = uint8_t(s.bits(7));
    return ci::profile_id{ b[0], b[1], b[2], b[3], b[4] };
}
//! equal exactly if all parts are
void check_pid_equality(Src& s, const ci::profile_id& p)
{
    auto q = p;
    REQUIRE_MSG(q == p, "a copy of a profile ID is not equal");
    uint8_t* const b[] = { &q.byte1, &q.byte2, &q.byte3, &q.byte4, &q.byte5 };
    *b[s.draw(4)] ^= uint8_t(1 + s.draw(0x7E));
    REQUIRE_MSG(!(q == p), "different profile IDs are equal");
    const ci::profile_destination a{ uint8_t(s.bits(7)), uint16_t(s.bits(14)) };
    auto c = a;
    REQUIRE_MSG(c == a, "a copy of a profile destination is not equal");
    if (s.chance(1, 2))
        c.scope ^= uint8_t(1 + s.draw(0x7E));
    else
        c.num_channels ^= uint16_t(1 + s.draw(0x3FFE));
    REQUIRE_MSG(!(c == a), "different profile destinations are equal");
}
void put_pid(Bytes& e, const ci::profile_id& p)
{
    for (auto b : { p.byte1, p.byte2, p.byte3, p.byte4, p.byte5 })
        e.push_back(b);
}

//! the message has exactly the expected bytes and everything the library says about it fits them
void verify(Src& s, const ci::message& m, const Bytes& e)
{
    s.note([&](auto& o) { o << " built " << show_sx(m.manufacturerID, sx_data(m)) << "\n expected " << show_sx(0x7E0000, e) << "\n"; });
    REQUIRE_EQ(m.manufacturerID, 0x7E0000u);
    const auto d = sx_data(m);
    REQUIRE_MSG(d == e, "bytes differ from the MIDI-CI layout: " << show_sx(m.manufacturerID, d) << " expected " << show_sx(0x7E0000, e));
    REQUIRE(m.is_valid());
    REQUIRE(m.is_7bit());
    inspect(m, true);
    REQUIRE_EQ(m.device_id(), e[0]);
    REQUIRE_EQ(m.type(), 0x7E0D);
    REQUIRE_EQ(m.subtype(), e[2]);
    REQUIRE_EQ(m.message_version(), e[3]);
    REQUIRE_EQ(m.source_muid(), get28(e, 4));
    REQUIRE_EQ(m.destination_muid(), get28(e, 8));
    if (e.size() > 40 || e[4])
        s.nontrivial();
    // transport as SysEx packets
    if (e.size() < 2000 || s.chance(1, 4))
    {
        unsigned     calls = 0;
        midi::sysex7 got;
        midi::sysex7_collector c{ [&](const midi::sysex7& x) { ++calls; got = x; } };
        for (auto& p : midi::as_sysex7_packets(m, uint8_t(s.draw(15))))
            c.feed(p);
        REQUIRE_EQ(calls, 1u);
        REQUIRE_MSG(sx_is(got, 0x7E0000, e), "changed by transport as packets");
        REQUIRE(got == m);
        inspect(got, true);
    }
    // edits touch exactly their field
    if (s.chance(1, 4))
    {
        auto       x   = m;
        Bytes      exp = e;
        const auto sm = uint32_t(s.bits(28)), dm = uint32_t(s.bits(28));
        const auto dv = uint8_t(s.bits(7));
        if (s.chance(1, 2)) { x.set_source_muid(sm); for (int i = 0; i < 4; ++i) exp[4 + i] = (sm >> (7 * i)) & 0x7F; }
        if (s.chance(1, 2)) { x.set_destination_muid(dm); for (int i = 0; i < 4; ++i) exp[8 + i] = (dm >> (7 * i)) & 0x7F; }
        if (s.chance(1, 2)) { x.set_device_id(dv); exp[0] = dv; }
        REQUIRE_MSG(sx_is(x, 0x7E0000, exp), "edit changed more than its field: " << show_sx(0x7E0000, sx_data(x)) << " expected " << show_sx(0x7E0000, exp));
        REQUIRE_EQ(x.source_muid(), get28(exp, 4));
        REQUIRE_EQ(x.destination_muid(), get28(exp, 8));
    }
}

#define ACCEPTED(VIEW, m) auto v_ = ci::as<VIEW>(m); REQUIRE_MSG(bool(v_), #VIEW " refuses the message"); auto& v = *v_

void management(Src& s)
{
    const auto b = gen_base(s);
    switch (s.draw(9))
    {
    case 0: case 1: { // discovery
        const auto id  = gen_identity(s);
        const auto cat = uint8_t(s.bits(7)), path = uint8_t(s.bits(7)), fb = uint8_t(s.bits(7));
        const auto max = uint32_t(s.bits(28));
        auto common = [&](uint8_t sub, uint8_t ver, uint32_t dst) {
            auto e = ci_prefix(0x7F, sub, ver, b.src, dst);
            put_identity(e, id);
            e.push_back(cat);
            put28(e, max);
            return e;
        };
        auto fields = [&](const auto& v) {
            const auto i = v.identity();
            REQUIRE_EQ(uint32_t(i.manufacturer), uint32_t(id.manufacturer));
            REQUIRE_EQ(uint32_t(i.family), uint32_t(id.family));
            REQUIRE_EQ(uint32_t(i.model), uint32_t(id.model));
            REQUIRE_EQ(uint32_t(i.revision), uint32_t(id.revision));
            REQUIRE_EQ(v.categories(), cat);
            REQUIRE_EQ(v.maximum_message_size(), max);
        };
        switch (s.draw(4))
        {
        case 0: {
            const auto m = ci::make_discovery_inquiry(b.src, id, cat, max, path);
            auto       e = common(0x70, 2, 0x0FFFFFFF);
            e.push_back(path);
            verify(s, m, e);
            ACCEPTED(ci::discovery_inquiry_view, m);
            fields(v);
            REQUIRE_EQ(v.output_path_id(), path);
            break;
        }
        case 1: {
            const auto m = ci::make_discovery_inquiry_v1(b.src, id, cat, max);
            verify(s, m, common(0x70, 1, 0x0FFFFFFF));
            ACCEPTED(ci::discovery_inquiry_view, m);
            fields(v);
            REQUIRE_EQ(v.output_path_id(), 0);
            break;
        }
        case 2: {
            const auto m = ci::make_discovery_reply(b.src, b.dst, id, cat, max, path, fb);
            auto       e = common(0x71, 2, b.dst);
            e.push_back(path);
            e.push_back(fb);
            verify(s, m, e);
            ACCEPTED(ci::discovery_reply_view, m);
            fields(v);
            REQUIRE_EQ(v.output_path_id(), path);
            REQUIRE_EQ(v.function_block(), fb);
            break;
        }
        case 3: { // defaults
            const auto m = ci::make_discovery_reply(b.src, b.dst, id, cat, max, path);
            auto       e = common(0x71, 2, b.dst);
            e.push_back(path);
            e.push_back(0x7F);
            verify(s, m, e);
            const auto m2 = ci::make_discovery_inquiry(b.src, id, cat, max);
            auto       e2 = common(0x70, 2, 0x0FFFFFFF);
            e2.push_back(0);
            verify(s, m2, e2);
            break;
        }
        default: {
            const auto m = ci::make_discovery_reply_v1(b.src, b.dst, id, cat, max);
            verify(s, m, common(0x71, 1, b.dst));
            ACCEPTED(ci::discovery_reply_view, m);
            fields(v);
            REQUIRE_EQ(v.output_path_id(), 0);
            REQUIRE_EQ(v.function_block(), 0x7F);
            break;
        }
        }
        break;
    }
    case 2: {
        const auto st = uint8_t(s.bits(7));
        const auto m  = ci::make_endpoint_information_inquiry(b.src, b.dst, st);
        auto       e  = ci_prefix(0x7F, 0x72, 2, b.src, b.dst);
        e.push_back(st);
        verify(s, m, e);
        ACCEPTED(ci::endpoint_information_inquiry_view, m);
        REQUIRE_EQ(v.status(), st);
        break;
    }
    case 3: {
        const auto st   = uint8_t(s.bits(7));
        const auto data = s.byte_vec(s.size(s.chance(1, 20) ? 16383 : 200), 7);
        const auto m    = ci::make_endpoint_information_reply(b.src, b.dst, st, data.data(), data.size());
        auto       e    = ci_prefix(0x7F, 0x73, 2, b.src, b.dst);
        e.push_back(st);
        put14(e, uint32_t(data.size()));
        e.insert(e.end(), data.begin(), data.end());
        verify(s, m, e);
        ACCEPTED(ci::endpoint_information_reply_view, m);
        REQUIRE_EQ(v.status(), st);
        REQUIRE_EQ(size_t(v.information_data_length()), data.size());
        REQUIRE(span(v.information_data(), data.size()) == data);
        break;
    }
    case 4: case 5: case 6: { // ack, nak
        const auto tr = uint8_t(s.bits(7)), sc = uint8_t(s.bits(7)), sd = uint8_t(s.bits(7));
        uint8_t    det[5];
        for (auto& x : det)
            x = uint8_t(s.bits(7));
        const auto text = gen_text(s, s.size(s.chance(1, 20) ? 16383 : 80));
        auto       tail = [&](Bytes& e, uint8_t t) {
            e.push_back(t);
            e.push_back(sc);
            e.push_back(sd);
            e.insert(e.end(), det, det + 5);
            put14(e, uint32_t(text.size()));
            e.insert(e.end(), text.begin(), text.end());
        };
        auto fields = [&](const auto& v, uint8_t t) {
            REQUIRE_EQ(v.transaction(), t);
            REQUIRE_EQ(v.status_code(), sc);
            REQUIRE_EQ(v.status_data(), sd);
            REQUIRE(!memcmp(v.details(), det, 5));
            REQUIRE_EQ(size_t(v.message_length()), text.size());
            REQUIRE(v.message() == text);
        };
        switch (s.draw(2))
        {
        case 0: {
            const auto m = ci::make_ack_message(b.src, b.dst, b.dev, tr, sc, sd, det, text);
            auto       e = ci_prefix(b.dev, 0x7D, 2, b.src, b.dst);
            tail(e, tr);
            verify(s, m, e);
            ACCEPTED(ci::ack_view, m);
            fields(v, tr);
            break;
        }
        case 1: {
            const auto m = ci::make_nak_message(b.src, b.dst, b.dev, tr, sc, sd, det, text);
            auto       e = ci_prefix(b.dev, 0x7F, 2, b.src, b.dst);
            tail(e, tr);
            verify(s, m, e);
            ACCEPTED(ci::nak_view, m);
            fields(v, tr);
            break;
        }
        default: { // in reply to some message: addressed back to its sender
            auto req = ci_prefix(b.dev, tr, uint8_t(s.range(1, 2)), b.src, b.dst);
            const auto junk = s.byte_vec(s.size(20), 7);
            req.insert(req.end(), junk.begin(), junk.end());
            const auto rsx = make_sx<midi::sysex7>(0x7E0000, req);
            const auto m   = ci::make_nak_message(midi::capability_inquiry_view{ rsx }, sc, sd, det, text);
            auto       e   = ci_prefix(b.dev, 0x7F, 2, b.dst, b.src);
            tail(e, tr);
            verify(s, m, e);
            ACCEPTED(ci::nak_view, m);
            fields(v, tr);
            verify(s, ci::make_nak_message_v1(midi::capability_inquiry_view{ rsx }), ci_prefix(b.dev, 0x7F, 1, b.dst, b.src));
            break;
        }
        }
        break;
    }
    case 7: verify(s, ci::make_nak_message_v1(b.src, b.dst, b.dev), ci_prefix(b.dev, 0x7F, 1, b.src, b.dst)); break;
    case 8: {
        const auto t = uint32_t(s.bits(28));
        const auto m = ci::make_invalidate_muid_message(b.src, t);
        auto       e = ci_prefix(0x7F, 0x7E, 2, b.src, 0x0FFFFFFF);
        put28(e, t);
        verify(s, m, e);
        ACCEPTED(ci::invalidate_muid_view, m);
        REQUIRE_EQ(v.target_muid(), t);
        break;
    }
    default: { // bare message classes
        const auto sub = uint8_t(s.bits(7));
        verify(s, ci::message(sub, b.src, b.dst, b.dev), ci_prefix(b.dev, sub, 2, b.src, b.dst));
        verify(s, ci::message::make_with_payload_size(s.size(300), sub, b.src, b.dst, b.dev), ci_prefix(b.dev, sub, 2, b.src, b.dst));
        break;
    }
    }
}

void inquiry_reply(Src& s, const Base& b, size_t num_enabled, size_t num_disabled)
{
    std::vector<ci::profile_id> en, dis;
    auto fill = [&](auto& l, size_t n) {
        for (size_t i = 0; i < n; ++i)
            l.push_back(i < 12 ? gen_pid(s) : ci::profile_id{ uint8_t(i & 0x7F), uint8_t(i >> 7), 1, uint8_t((i * 7) & 0x7F), 3 });
    };
    fill(en, num_enabled);
    fill(dis, num_disabled);
    const auto m = s.chance(1, 2)
                     ? ci::make_profile_inquiry_reply(b.src, b.dst, en, dis, b.dev)
                     : ci::make_profile_inquiry_reply(b.src, b.dst, en.data(), uint16_t(en.size()), dis.data(), uint16_t(dis.size()), b.dev);
    auto e = ci_prefix(b.dev, 0x21, 2, b.src, b.dst);
    put14(e, uint32_t(en.size()));
    for (auto& x : en)
        put_pid(e, x);
    put14(e, uint32_t(dis.size()));
    for (auto& x : dis)
        put_pid(e, x);
    verify(s, m, e);
    ACCEPTED(ci::profile_inquiry_reply_view, m);
    REQUIRE_EQ(size_t(v.num_enabled_profiles()), en.size());
    REQUIRE_EQ(size_t(v.num_disabled_profiles()), dis.size());
    REQUIRE_EQ(v.has_enabled_profiles(), !en.empty());
    REQUIRE_EQ(v.has_disabled_profiles(), !dis.empty());
    REQUIRE(v.enabled_profiles() == en);
    REQUIRE(v.disabled_profiles() == dis);
}

constexpr size_t edge_counts[]   = { 0, 1, 2, 4, 8, 16, 32, 63, 64, 127, 128, 129, 130, 255, 256, 257, 258, 384, 387, 512, 1023, 1024, 2048, 4096, 8192, 16383 };
constexpr size_t num_edge_counts = sizeof edge_counts / sizeof *edge_counts;
//! numbers of profiles around the bounds of the two count bytes
void profile_counts(Src& s)
{
    const auto k = s.draw(num_edge_counts * num_edge_counts - 1);
    const auto b = gen_base(s);
    s.nontrivial();
    inquiry_reply(s, b, edge_counts[k / num_edge_counts], edge_counts[k % num_edge_counts]);
}

void profiles(Src& s)
{
    const auto b = gen_base(s);
    const auto p = gen_pid(s);
    check_pid_equality(s, p);
    switch (s.draw(6))
    {
    case 0: {
        const auto m = ci::make_profile_inquiry_message(b.src, b.dst, b.dev);
        verify(s, m, ci_prefix(b.dev, 0x20, 2, b.src, b.dst));
        REQUIRE(bool(ci::as<ci::profile_inquiry_view>(m)));
        break;
    }
    case 1: {
        const size_t n = s.size(s.chance(1, 60) ? 16383 : 12), k = s.size(s.chance(1, 60) ? 16383 : 12);
        inquiry_reply(s, b, n, k);
        break;
    }
    case 2: case 3: { // on, off, enabled, disabled
        const ci::profile_destination dest{ b.dev, uint16_t(s.bits(14)) };
        const unsigned k = unsigned(s.draw(3));
        const auto m = k == 0 ? ci::make_profile_on_request(b.src, b.dst, p, dest) :
                       k == 1 ? ci::make_profile_off_request(b.src, b.dst, p, dest) :
                       k == 2 ? ci::make_profile_enabled_notification(b.src, b.dst, p, dest) :
                                ci::make_profile_disabled_notification(b.src, b.dst, p, dest);
        auto e = ci_prefix(b.dev, uint8_t(0x22 + k), 2, b.src, b.dst);
        put_pid(e, p);
        put14(e, k == 1 ? 0 : dest.num_channels);
        verify(s, m, e);
        ACCEPTED(ci::profile_destination_view, m);
        REQUIRE(v.profile() == p);
        REQUIRE_EQ(v.num_channels(), k == 1 ? 0 : dest.num_channels);
        REQUIRE_EQ(v.params().scope, b.dev);
        if (k != 1)
            REQUIRE(v.params() == dest);
        REQUIRE(bool(ci::as<ci::profile_id_view>(m)));
        break;
    }
    case 4: {
        const bool add = s.chance(1, 2);
        const auto m = add ? ci::make_profile_added_notification(b.src, b.dst, p, b.dev) : ci::make_profile_removed_notification(b.src, b.dst, p, b.dev);
        auto e = ci_prefix(b.dev, add ? 0x26 : 0x27, 2, b.src, b.dst);
        put_pid(e, p);
        verify(s, m, e);
        ACCEPTED(ci::profile_id_view, m);
        REQUIRE(v.profile() == p);
        break;
    }
    case 5: {
        const auto t = uint8_t(s.bits(7));
        if (s.chance(1, 2))
        {
            const auto m = ci::make_profile_details_inquiry(b.src, b.dst, p, t, b.dev);
            auto       e = ci_prefix(b.dev, 0x28, 2, b.src, b.dst);
            put_pid(e, p);
            e.push_back(t);
            verify(s, m, e);
            ACCEPTED(ci::profile_details_inquiry_view, m);
            REQUIRE(v.profile() == p);
            REQUIRE_EQ(v.target(), t);
        }
        else
        {
            const auto data = s.byte_vec(s.size(s.chance(1, 20) ? 16383 : 100), 7);
            const auto m    = ci::make_profile_details_reply(b.src, b.dst, p, t, data.data(), data.size(), b.dev);
            auto       e    = ci_prefix(b.dev, 0x29, 2, b.src, b.dst);
            put_pid(e, p);
            e.push_back(t);
            put14(e, uint32_t(data.size()));
            e.insert(e.end(), data.begin(), data.end());
            verify(s, m, e);
            ACCEPTED(ci::profile_details_reply_view, m);
            REQUIRE(v.profile() == p);
            REQUIRE_EQ(v.target(), t);
            REQUIRE_EQ(size_t(v.target_data_length()), data.size());
            REQUIRE(span(v.target_data(), data.size()) == data);
        }
        break;
    }
    default: {
        const auto data = s.byte_vec(s.size(s.chance(1, 200) ? 2200000 : s.chance(1, 20) ? 70000 : 100), 7);
        const auto m = s.chance(1, 2) ? ci::make_profile_specific_data_message(b.src, b.dst, p, data, b.dev)
                                      : ci::make_profile_specific_data_message(b.src, b.dst, p, data.data(), data.size(), b.dev);
        auto e = ci_prefix(b.dev, 0x2F, 2, b.src, b.dst);
        put_pid(e, p);
        put28(e, uint32_t(data.size()));
        e.insert(e.end(), data.begin(), data.end());
        verify(s, m, e);
        ACCEPTED(ci::profile_specific_data_view, m);
        REQUIRE(v.profile() == p);
        REQUIRE_EQ(v.data_size(), data.size());
        REQUIRE(Bytes(v.data_begin(), v.data_end()) == data);
        break;
    }
    }
}

void process(Src& s)
{
    const auto b = gen_base(s);
    const auto x = uint8_t(s.bits(7)), y = uint8_t(s.bits(7)), z = uint8_t(s.bits(7)), w = uint8_t(s.bits(7));
    switch (s.draw(6))
    {
    case 0: verify(s, ci::make_process_inquiry_capabilities_inquiry(b.src, b.dst, b.dev), ci_prefix(b.dev, 0x40, 2, b.src, b.dst)); break;
    case 1: {
        const auto m = ci::make_process_inquiry_capabilities_reply(b.src, b.dst, x, b.dev);
        auto       e = ci_prefix(b.dev, 0x41, 2, b.src, b.dst);
        e.push_back(x);
        verify(s, m, e);
        ACCEPTED(ci::process_inquiry_capabilities_reply_view, m);
        REQUIRE_EQ(v.supported_features(), x);
        break;
    }
    case 2: {
        const auto m = ci::make_midi_message_report_inquiry(b.src, b.dst, x, y, z, w, b.dev);
        auto       e = ci_prefix(b.dev, 0x42, 2, b.src, b.dst);
        for (auto q : { x, y, uint8_t(0), z, w })
            e.push_back(q);
        verify(s, m, e);
        ACCEPTED(ci::midi_message_report_inquiry_view, m);
        REQUIRE_EQ(v.message_data_control(), x);
        REQUIRE_EQ(v.system_message_types(), y);
        REQUIRE_EQ(v.channel_controller_message_types(), z);
        REQUIRE_EQ(v.note_data_message_types(), w);
        break;
    }
    case 3: {
        const auto m = ci::make_midi_message_report_reply(b.src, x, y, z, b.dev);
        auto       e = ci_prefix(b.dev, 0x43, 2, b.src, 0x0FFFFFFF);
        for (auto q : { x, uint8_t(0), y, z })
            e.push_back(q);
        verify(s, m, e);
        ACCEPTED(ci::midi_message_report_reply_view, m);
        REQUIRE_EQ(v.system_message_types(), x);
        REQUIRE_EQ(v.channel_controller_message_types(), y);
        REQUIRE_EQ(v.note_data_message_types(), z);
        break;
    }
    case 4: verify(s, ci::make_midi_message_report_end(b.src, b.dev), ci_prefix(b.dev, 0x44, 2, b.src, 0x0FFFFFFF)); break;
    case 5: {
        const bool inq = s.chance(1, 2);
        const auto m = inq ? ci::make_property_exchange_capabilities_inquiry(b.src, b.dst, x, b.dev) : ci::make_property_exchange_capabilities_reply(b.src, b.dst, x, b.dev);
        auto       e = ci_prefix(b.dev, inq ? 0x30 : 0x31, 2, b.src, b.dst);
        for (auto q : { x, uint8_t(0), uint8_t(0) })
            e.push_back(q);
        verify(s, m, e);
        ACCEPTED(ci::property_exchange_capabilities_view, m);
        REQUIRE_EQ(v.maximum_number_of_requests(), x);
        break;
    }
    default: { // default device id of every factory which has one
        verify(s, ci::make_process_inquiry_capabilities_inquiry(b.src, b.dst), ci_prefix(0x7F, 0x40, 2, b.src, b.dst));
        verify(s, ci::make_midi_message_report_end(b.src), ci_prefix(0x7F, 0x44, 2, b.src, 0x0FFFFFFF));
        verify(s, ci::make_profile_inquiry_message(b.src, b.dst), ci_prefix(0x7F, 0x20, 2, b.src, b.dst));
        auto e = ci_prefix(0x7F, 0x30, 2, b.src, b.dst);
        for (int q : { 1, 0, 0 })
            e.push_back(uint8_t(q));
        verify(s, ci::make_property_exchange_capabilities_inquiry(b.src, b.dst), e);
        break;
    }
    }
}

//! property data with an explicit header: all layouts of header, chunk numbers and chunk
void property_data(Src& s)
{
    namespace pe = ci::property_exchange;
    const auto b   = gen_base(s);
    const auto rid = uint8_t(s.bits(7));
    auto       hdr = s.chance(1, 3) ? Bytes{} : s.byte_vec(s.size(s.chance(1, 30) ? 16383 : 60), 7);
    auto       chk = s.chance(1, 3) ? Bytes{} : s.byte_vec(s.size(s.chance(1, 30) ? 16383 : 200), 7);
    const auto sub = s.pick<uint8_t>({ 0x35, 0x34, 0x36, 0x37, 0x38, 0x39, 0x3F });
    const auto num = uint32_t(s.bits(14));
    uint32_t   cur = num ? uint32_t(s.draw(num)) : uint32_t(s.bits(14));
    if (!chk.empty() && !cur)
        cur = 1;
    if (cur > 1)
        hdr.clear();
    const pe::header h = hdr.empty() ? pe::header{} : pe::header{ hdr.data(), hdr.size() };
    const pe::chunk  c = chk.empty() ? pe::chunk{} : pe::chunk{ chk.data(), chk.size() };
    ci::message m = sub == 0x35 && s.chance(1, 2) ? ci::make_get_property_data_reply(b.src, b.dst, h, uint16_t(num), uint16_t(cur), c, rid, b.dev)
                                                  : pe::make_property_data_message(sub, b.src, b.dst, h, uint16_t(num), uint16_t(cur), c, rid, b.dev);
    if (hdr.empty() && s.chance(1, 2))
    {
        if (sub == 0x35)
            m = ci::make_get_property_data_reply(b.src, b.dst, uint16_t(num), uint16_t(cur), c, rid, b.dev);
        else if (sub == 0x36)
            m = ci::make_set_property_data_inquiry(b.src, b.dst, uint16_t(num), uint16_t(cur), c, rid, b.dev);
        else if (sub == 0x38)
            m = ci::make_subscription_inquiry(b.src, b.dst, uint16_t(num), uint16_t(cur), c, rid, b.dev);
    }
    auto e = ci_prefix(b.dev, sub, 2, b.src, b.dst);
    e.push_back(rid);
    put14(e, uint32_t(hdr.size()));
    e.insert(e.end(), hdr.begin(), hdr.end());
    put14(e, num);
    put14(e, cur);
    put14(e, uint32_t(chk.size()));
    e.insert(e.end(), chk.begin(), chk.end());
    verify(s, m, e);
    ACCEPTED(pe::property_data_message_view, m);
    REQUIRE_EQ(v.request_id(), rid);
    REQUIRE_EQ(v.header_size(), hdr.size());
    REQUIRE(Bytes(v.header_begin(), v.header_end()) == hdr);
    REQUIRE_EQ(uint32_t(v.number_of_chunks()), num);
    REQUIRE_EQ(uint32_t(v.number_of_this_chunk()), cur);
    REQUIRE_EQ(v.chunk_size(), chk.size());
    REQUIRE(Bytes(v.chunk_begin(), v.chunk_end()) == chk);
}

//! omitted arguments mean: request 0, one request, addressed to the whole function block
void defaults(Src& s)
{
    namespace pe = ci::property_exchange;
    const auto& k = pick_named(s, named_ci_subtypes, named_ci_categories);
    const auto  b = gen_base(s);
    const auto  p = gen_pid(s);
    const auto  x = uint8_t(s.bits(7)), y = uint8_t(s.bits(7)), z = uint8_t(s.bits(7)), w = uint8_t(s.bits(7));
    const auto  rid = uint8_t(s.bits(7));
    const auto  data = s.byte_vec(s.size(30), 7);
    const std::string res = "ResourceList", txt = "some text";
    const pe::header_options o{ { "resId", "x" } };
    const auto  chk = data.empty() ? pe::chunk{} : pe::chunk{ data.data(), data.size() };
    const uint8_t hd[] = { '{', '}' };
    const pe::header hdr{ hd, 2 };
    const std::vector<ci::profile_id> en{ p }, dis{ p, p };
    constexpr uint8_t all = 0x7F;
    auto same = [&](const char* what, const ci::message& a, const ci::message& e) {
        REQUIRE_MSG(a == e, what << ": " << show_sx(a.manufacturerID, sx_data(a)) << " differs from that with the default written out, " << show_sx(e.manufacturerID, sx_data(e)));
    };
    s.nontrivial();
    verify(s, ci::message(uint8_t(k.lib), b.src, b.dst), ci_prefix(all, uint8_t(k.spec), 2, b.src, b.dst));
    verify(s, ci::message::make_with_payload_size(3, uint8_t(k.lib), b.src, b.dst), ci_prefix(all, uint8_t(k.spec), 2, b.src, b.dst));
    REQUIRE_EQ(uint32_t(ci::broadcast_muid), 0x0FFFFFFFu);
    REQUIRE_EQ(ci::channel_profile(x).scope, x);
    REQUIRE_EQ(ci::channel_profile(x).num_channels, 1);
    REQUIRE_EQ(ci::channel_profile(x, 7).num_channels, 7);
    REQUIRE_EQ(ci::group_profile.scope, 0x7E);
    REQUIRE_EQ(ci::group_profile.num_channels, 0);
    REQUIRE_EQ(ci::function_block_profile.scope, 0x7F);
    REQUIRE_EQ(ci::function_block_profile.num_channels, 0);
    REQUIRE(ci::profile_destination{} == ci::function_block_profile);
    REQUIRE(ci::profile_id{} == (ci::profile_id{ 0x7E, 0, 0, 0, 0 }));
#define SAME1(f, ...) same(#f, ci::f(b.src, b.dst, __VA_ARGS__), ci::f(b.src, b.dst, __VA_ARGS__, all))
#define SAME2(f, ...)                                                                          \
    same(#f, ci::f(b.src, b.dst, __VA_ARGS__), ci::f(b.src, b.dst, __VA_ARGS__, 0, all));      \
    same(#f, ci::f(b.src, b.dst, __VA_ARGS__, rid), ci::f(b.src, b.dst, __VA_ARGS__, rid, all))
    same("profile inquiry", ci::make_profile_inquiry_message(b.src, b.dst), ci::make_profile_inquiry_message(b.src, b.dst, all));
    same("profile inquiry reply", ci::make_profile_inquiry_reply(b.src, b.dst, en.data(), 1, dis.data(), 2), ci::make_profile_inquiry_reply(b.src, b.dst, en, dis, all));
    SAME1(make_profile_inquiry_reply, en, dis);
    SAME1(make_profile_added_notification, p);
    SAME1(make_profile_removed_notification, p);
    SAME1(make_profile_details_inquiry, p, x);
    SAME1(make_profile_details_reply, p, x, data.data(), data.size());
    SAME1(make_profile_specific_data_message, p, data);
    SAME1(make_profile_specific_data_message, p, data.data(), data.size());
    same("capabilities inquiry", ci::make_property_exchange_capabilities_inquiry(b.src, b.dst), ci::make_property_exchange_capabilities_inquiry(b.src, b.dst, 1, all));
    same("capabilities reply", ci::make_property_exchange_capabilities_reply(b.src, b.dst), ci::make_property_exchange_capabilities_reply(b.src, b.dst, 1, all));
    SAME1(make_property_exchange_capabilities_inquiry, x);
    SAME1(make_property_exchange_capabilities_reply, x);
    SAME2(make_get_property_data_inquiry, res);
    SAME2(make_get_property_data_inquiry, res, o);
    SAME2(make_get_property_data_reply, hdr, 1, 1, chk);
    SAME2(make_get_property_data_reply, 200, 1, 1, chk);
    SAME2(make_get_property_data_reply, 200, txt, 1, 1, chk);
    SAME2(make_get_property_data_reply, 2, 2, chk);
    SAME2(make_set_property_data_inquiry, res, 1, 1, chk);
    SAME2(make_set_property_data_inquiry, res, o, 1, 1, chk);
    SAME2(make_set_property_data_inquiry, 2, 2, chk);
    SAME2(make_set_property_data_reply, 200);
    SAME2(make_set_property_data_reply, 200, txt);
    SAME2(make_subscription_inquiry, res, txt, "id");
    SAME2(make_subscription_inquiry, res, txt, "id", 1, 1, chk);
    SAME2(make_subscription_inquiry, 2, 2, chk);
    SAME2(make_subscription_reply, 200);
    SAME2(make_subscription_reply, 200, txt);
    SAME2(make_notify_message, 200);
    SAME2(make_notify_message, 200, txt);
    same("pi capabilities", ci::make_process_inquiry_capabilities_inquiry(b.src, b.dst), ci::make_process_inquiry_capabilities_inquiry(b.src, b.dst, all));
    SAME1(make_process_inquiry_capabilities_reply, x);
    SAME1(make_midi_message_report_inquiry, x, y, z, w);
    same("report reply", ci::make_midi_message_report_reply(b.src, x, y, z), ci::make_midi_message_report_reply(b.src, x, y, z, all));
    same("report end", ci::make_midi_message_report_end(b.src), ci::make_midi_message_report_end(b.src, all));
    same("property data", pe::make_property_data_message(0x35, b.src, b.dst, hdr, 1, 1, chk), pe::make_property_data_message(0x35, b.src, b.dst, hdr, 1, 1, chk, 0, all));
}

} // namespace

const char* pbt::g_property = "C17";

std::vector<Facet> pbt::facets()
{
    return {
        { "management", "source MUID has low bits set or the message has a payload", management, 30000, 600000 },
        { "profiles", "source MUID has low bits set or the message has a payload", profiles, 25000, 500000 },
        { "profile_counts", "every case; numbers of enabled x disabled profiles at the bounds", profile_counts, 600, 5000, num_edge_counts * num_edge_counts },
        { "defaults", "every case; subtypes enumerated", defaults, 2000, 40000, count_named(named_ci_subtypes, named_ci_categories) },
        { "process_and_capabilities", "source MUID has low bits set", process, 15000, 300000 },
        { "property_data", "source MUID has low bits set or header/chunk present", property_data, 20000, 400000 },
    };
}
