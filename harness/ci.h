#pragma once
// MIDI-CI 1.2 layout oracle, independent of the library: which views may accept a SysEx message and
// where each field lies.
#include "common.h"
#include <midi/capability_inquiry.h>
#include <midi/sysex_collector.h>

#include <map>

namespace h {

using Bytes = std::vector<uint8_t>;

inline void put14(Bytes& b, uint32_t v)
{
    for (int i = 0; i < 2; ++i, v >>= 7)
        b.push_back(v & 0x7F);
}
inline void put28(Bytes& b, uint32_t v)
{
    for (int i = 0; i < 4; ++i, v >>= 7)
        b.push_back(v & 0x7F);
}
inline uint32_t get14(const Bytes& b, size_t p)
{
    return b.at(p) | (uint32_t(b.at(p + 1)) << 7);
}
inline uint32_t get28(const Bytes& b, size_t p)
{
    return get14(b, p) | (get14(b, p + 2) << 14);
}

enum Kind : unsigned
{
    k_universal, k_ci, k_identity_request, k_identity_reply,
    k_discovery_inquiry, k_discovery_reply, k_endpoint_inquiry, k_endpoint_reply, k_ack, k_nak, k_invalidate,
    k_profile_inquiry, k_profile_inquiry_reply, k_profile_id, k_profile_destination, k_details_inquiry, k_details_reply,
    k_specific_data,
    k_pe_caps, k_property_data, k_get, k_set, k_subscription, k_notify,
    k_process_caps_reply, k_report_inquiry, k_report_reply,
    k_count
};
inline const char* kind_name(unsigned k)
{
    static const char* n[] = { "universal_sysex_view", "capability_inquiry_view", "identity_request", "identity_reply",
        "discovery_inquiry", "discovery_reply", "endpoint_information_inquiry", "endpoint_information_reply", "ack", "nak", "invalidate_muid",
        "profile_inquiry", "profile_inquiry_reply", "profile_id", "profile_destination", "profile_details_inquiry", "profile_details_reply",
        "profile_specific_data",
        "property_exchange_capabilities", "property_data_message", "get_property_data", "set_property_data", "subscription", "notify",
        "process_inquiry_capabilities_reply", "midi_message_report_inquiry", "midi_message_report_reply" };
    return n[k];
}

enum Accept { no, yes, either };

//! must the kind be recognised?  (7-bit content)
inline Accept accept(unsigned k, uint32_t man, const Bytes& d)
{
    const size_t n    = d.size();
    const bool   uni  = (man == 0x7E0000 || man == 0x7F0000) && n >= 2;
    const bool   nrt  = man == 0x7E0000;
    const bool   ci   = nrt && n >= 12 && d[1] == 0x0D;
    const int    sub  = ci ? d[2] : -1;
    auto         has  = [&](size_t s) { return n >= s; };
    auto         pe   = [&]() -> bool {
        if (!ci || !has(21))
            return false;
        const size_t hb = get14(d, 13);
        if (!has(21 + hb))
            return false;
        const auto num = get14(d, 15 + hb), cur = get14(d, 17 + hb), cb = get14(d, 19 + hb);
        if (num && cur > num)
            return false; // more chunks than announced
        if (hb && cur > 1)
            return false; // only the first chunk carries a header
        if (cb && cur < 1)
            return false; // chunks are numbered from 1
        return has(21 + hb + cb);
    };
    auto b = [](bool x) { return x ? yes : no; };
    switch (k)
    {
    case k_universal: return b(uni);
    case k_ci: return b(ci);
    case k_identity_request: return b(nrt && n >= 3 && d[1] == 6 && d[2] == 1);
    case k_identity_reply:
        if (!(nrt && n >= 3 && d[1] == 6 && d[2] == 2))
            return no;
        if (n == 12)
            return b(d[3] != 0);
        if (n == 14)
            return d[3] == 0 ? yes : either; // one byte ID followed by two surplus bytes
        return no;
    case k_discovery_inquiry: return b(sub == 0x70 && has(d[3] > 1 ? 29 : 28));
    case k_discovery_reply: return b(sub == 0x71 && has(d[3] > 1 ? 30 : 28));
    case k_endpoint_inquiry: return b(sub == 0x72 && has(13));
    case k_endpoint_reply: return b(sub == 0x73 && has(15) && has(15 + get14(d, 13)));
    case k_ack: return b(sub == 0x7D && has(22) && has(22 + get14(d, 20)));
    case k_nak: return b(sub == 0x7F && d[3] >= 2 && has(22) && has(22 + get14(d, 20)));
    case k_invalidate: return b(sub == 0x7E && has(16));
    case k_profile_inquiry: return b(sub == 0x20);
    case k_profile_inquiry_reply: {
        if (sub != 0x21 || !has(16))
            return no;
        const size_t e = get14(d, 12) * 5;
        return b(has(16 + e) && has(16 + e + get14(d, 14 + e) * 5));
    }
    case k_profile_id: return sub == 0x2F ? either : b(sub >= 0x22 && sub <= 0x27 && has(17));
    case k_profile_destination: return b(sub >= 0x22 && sub <= 0x25 && has(19));
    case k_details_inquiry: return b(sub == 0x28 && has(18));
    case k_details_reply: return b(sub == 0x29 && has(20) && has(20 + get14(d, 18)));
    case k_specific_data: return b(sub == 0x2F && has(21) && has(size_t(21) + get28(d, 17)));
    case k_pe_caps: return b((sub == 0x30 || sub == 0x31) && has(d[3] >= 2 ? 15 : 13));
    case k_property_data: return b(((sub >= 0x34 && sub <= 0x39) || sub == 0x3F) && pe());
    case k_get: return b((sub == 0x34 || sub == 0x35) && pe());
    case k_set: return b((sub == 0x36 || sub == 0x37) && pe());
    case k_subscription: return b((sub == 0x38 || sub == 0x39) && pe());
    case k_notify: return b(sub == 0x3F && pe());
    case k_process_caps_reply: return b(sub == 0x41 && has(13));
    case k_report_inquiry: return b(sub == 0x42 && has(17));
    case k_report_reply: return b(sub == 0x43 && has(16));
    }
    return either;
}

//! ask the library, through every route it offers
inline bool ask(unsigned k, const midi::sysex7& sx)
{
    using namespace midi;
    using namespace midi::ci;
    auto via = [&](auto* tag) -> bool {
        using V      = std::remove_pointer_t<decltype(tag)>;
        const bool v = V::validate(sx);
        REQUIRE_EQ(bool(universal_sysex::message_view::make_optional<V>(sx)), v);
        if constexpr (std::is_base_of_v<capability_inquiry_view, V>)
        {
            REQUIRE_EQ(bool(midi::ci::as<V>(sx)), v);
            if (auto c = as_capability_inquiry_view(sx))
            {
                REQUIRE_EQ(bool(midi::ci::as<V>(*c)), v);
                REQUIRE_EQ(bool(c->template as<V>()), v);
            }
        }
        if (auto u = as_universal_sysex_view(sx))
            REQUIRE_EQ(bool(u->template as<V>()), v);
        return v;
    };
#define VIA(X) via(static_cast<X*>(nullptr))
    switch (k)
    {
    case k_universal: {
        const bool v = is_universal_sysex_message(sx);
        REQUIRE_EQ(bool(as_universal_sysex_view(sx)), v);
        return v;
    }
    case k_ci: {
        const bool v = is_capability_inquiry_message(sx);
        REQUIRE_EQ(bool(as_capability_inquiry_view(sx)), v);
        REQUIRE_EQ(VIA(capability_inquiry_view), v);
        return v;
    }
    case k_identity_request: return universal_sysex::is_identity_request(sx);
    case k_identity_reply: {
        const bool v = universal_sysex::is_identity_reply(sx);
        REQUIRE_EQ(bool(universal_sysex::as_identity_reply_view(sx)), v);
        REQUIRE_EQ(VIA(universal_sysex::identity_reply_view), v);
        return v;
    }
    case k_discovery_inquiry: return VIA(discovery_inquiry_view);
    case k_discovery_reply: return VIA(discovery_reply_view);
    case k_endpoint_inquiry: return VIA(endpoint_information_inquiry_view);
    case k_endpoint_reply: return VIA(endpoint_information_reply_view);
    case k_ack: return VIA(ack_view);
    case k_nak: return VIA(nak_view);
    case k_invalidate: return VIA(invalidate_muid_view);
    case k_profile_inquiry: return VIA(profile_inquiry_view);
    case k_profile_inquiry_reply: return VIA(profile_inquiry_reply_view);
    case k_profile_id: return VIA(profile_id_view);
    case k_profile_destination: return VIA(profile_destination_view);
    case k_details_inquiry: return VIA(profile_details_inquiry_view);
    case k_details_reply: return VIA(profile_details_reply_view);
    case k_specific_data: return VIA(profile_specific_data_view);
    case k_pe_caps: return VIA(property_exchange_capabilities_view);
    case k_property_data: return VIA(property_exchange::property_data_message_view);
    case k_get: return VIA(get_property_data_view);
    case k_set: return VIA(set_property_data_view);
    case k_subscription: return VIA(subscription_view);
    case k_notify: return VIA(notify_view);
    case k_process_caps_reply: return VIA(process_inquiry_capabilities_reply_view);
    case k_report_inquiry: return VIA(midi_message_report_inquiry_view);
    case k_report_reply: return VIA(midi_message_report_reply_view);
    }
#undef VIA
    return false;
}

inline Bytes span(const uint8_t* b, size_t n)
{
    return Bytes(b, b + n); // touches every byte
}

#define FIELD(a, b)                                                                                          \
    do                                                                                                       \
    {                                                                                                        \
        const uint64_t f_a = (a), f_b = (b);                                                                 \
        if (exact)                                                                                           \
            REQUIRE_MSG(f_a == f_b, #a " = " << f_a << ", the message says " << f_b);                        \
    } while (0)
#define SPAN(a, n, pos, len)                                                                                 \
    do                                                                                                       \
    {                                                                                                        \
        const Bytes s_a = span(a, n);                                                                        \
        const size_t s_p = (pos), s_l = (len);                                                               \
        if (exact)                                                                                           \
        {                                                                                                    \
            REQUIRE_MSG(s_a.size() == s_l, #n " = " << s_a.size() << ", the message says " << s_l);          \
            REQUIRE_MSG(s_p + s_l <= d.size() && std::equal(s_a.begin(), s_a.end(), d.begin() + long(s_p)),  \
                        #a " does not hold the bytes of the message");                                       \
        }                                                                                                    \
    } while (0)

//! call every accessor of an accepted view; exact: compare with the layout
inline void read_all(unsigned k, const midi::sysex7& sx, const Bytes& d, bool exact)
{
    using namespace midi;
    using namespace midi::ci;
    auto pid = [&](const profile_id& p, size_t at) {
        FIELD(p.byte1, d.at(at));
        FIELD(p.byte2, d.at(at + 1));
        FIELD(p.byte3, d.at(at + 2));
        FIELD(p.byte4, d.at(at + 3));
        FIELD(p.byte5, d.at(at + 4));
    };
    auto identity = [&](const device_identity& i, size_t at) {
        FIELD(i.manufacturer, (uint32_t(d.at(at)) << 16) | (uint32_t(d.at(at + 1)) << 8) | d.at(at + 2));
        FIELD(i.family, get14(d, at + 3));
        FIELD(i.model, get14(d, at + 5));
        FIELD(i.revision, get28(d, at + 7));
    };
    auto disc = [&](const discovery::message_view& v) {
        identity(v.identity(), 12);
        FIELD(v.categories(), d.at(23));
        FIELD(v.maximum_message_size(), get28(d, 24));
        FIELD(v.output_path_id(), d.at(3) >= 2 ? d.at(28) : 0);
    };
    auto nack = [&](const nack::view& v) {
        FIELD(v.transaction(), d.at(12));
        FIELD(v.status_code(), d.at(13));
        FIELD(v.status_data(), d.at(14));
        SPAN(v.details(), 5, 15, 5);
        FIELD(v.message_length(), get14(d, 20));
        SPAN(v.message_data(), v.message_length(), 22, get14(d, 20));
        const auto m = v.message();
        SPAN(reinterpret_cast<const uint8_t*>(m.data()), m.size(), 22, get14(d, 20));
    };
    auto pe = [&](const property_exchange::property_data_message_view& v) {
        const size_t hb = get14(d, 13);
        FIELD(v.request_id(), d.at(12));
        FIELD(v.header_size(), hb);
        SPAN(v.header_begin(), size_t(v.header_end() - v.header_begin()), 15, hb);
        FIELD(v.number_of_chunks(), get14(d, 15 + hb));
        FIELD(v.number_of_this_chunk(), get14(d, 17 + hb));
        FIELD(v.chunk_size(), get14(d, 19 + hb));
        SPAN(v.chunk_begin(), size_t(v.chunk_end() - v.chunk_begin()), 21 + hb, get14(d, 19 + hb));
    };
    auto common = [&](const capability_inquiry_view& v) {
        FIELD(v.device_id(), d.at(0));
        FIELD(v.type(), 0x7E0D);
        FIELD(v.subtype(), d.at(2));
        FIELD(v.data_size(), d.size());
        FIELD(v.message_version(), d.at(3));
        FIELD(v.source_muid(), get28(d, 4));
        FIELD(v.destination_muid(), get28(d, 8));
        return true;
    };
#define VIEW(X, ...)                                                                                       \
    {                                                                                                        \
        X v(sx);                                                                                             \
        common(v);                                                                                           \
        __VA_ARGS__;                                                                                         \
    }                                                                                                        \
    break
    switch (k)
    {
    case k_universal: {
        universal_sysex_view v(sx);
        FIELD(v.device_id(), d.at(0));
        FIELD(v.type(), (sx.manufacturerID >> 8) | d.at(1));
        FIELD(v.subtype(), d.size() > 2 ? d[2] : 0);
        FIELD(v.data_size(), d.size());
        FIELD(universal_sysex_type_of(sx), (sx.manufacturerID >> 8) | d.at(1));
        FIELD(universal_sysex_subtype_of(sx), d.size() > 2 ? d[2] : 0);
        FIELD(universal_sysex_device_id_of(sx), d.at(0));
        break;
    }
    case k_ci: VIEW(capability_inquiry_view, { capability_inquiry_view w(static_cast<const universal_sysex::message_view&>(v)); common(w); });
    case k_identity_request: break;
    case k_identity_reply: {
        universal_sysex::identity_reply_view v(sx);
        const auto i = v.identity();
        FIELD(v.device_id(), d.at(0));
        const bool   one = d.at(3) != 0;
        const size_t o   = one ? 4 : 6;
        FIELD(i.manufacturer, one ? uint32_t(d[3]) << 16 : (uint32_t(d[4]) << 8) | d[5]);
        FIELD(i.family, get14(d, o));
        FIELD(i.model, get14(d, o + 2));
        FIELD(i.revision, get28(d, o + 4));
        break;
    }
    case k_discovery_inquiry: VIEW(discovery_inquiry_view, disc(v));
    case k_discovery_reply: VIEW(discovery_reply_view, { disc(v); FIELD(v.function_block(), d.at(3) >= 2 ? d.at(29) : 0x7F); });
    case k_endpoint_inquiry: VIEW(endpoint_information_inquiry_view, FIELD(v.status(), d.at(12)));
    case k_endpoint_reply: VIEW(endpoint_information_reply_view, {
        FIELD(v.status(), d.at(12));
        FIELD(v.information_data_length(), get14(d, 13));
        SPAN(v.information_data(), v.information_data_length(), 15, get14(d, 13));
    });
    case k_ack: VIEW(ack_view, nack(v));
    case k_nak: VIEW(nak_view, nack(v));
    case k_invalidate: VIEW(invalidate_muid_view, FIELD(v.target_muid(), get28(d, 12)));
    case k_profile_inquiry: VIEW(profile_inquiry_view, {});
    case k_profile_inquiry_reply: VIEW(profile_inquiry_reply_view, {
        const size_t ne = v.num_enabled_profiles(), nd = v.num_disabled_profiles();
        const auto   e = v.enabled_profiles(), x = v.disabled_profiles();
        FIELD(ne, get14(d, 12));
        FIELD(nd, get14(d, 14 + 5 * get14(d, 12)));
        FIELD(e.size(), get14(d, 12));
        FIELD(x.size(), nd);
        FIELD(v.has_enabled_profiles(), ne != 0);
        FIELD(v.has_disabled_profiles(), nd != 0);
        if (exact)
        {
            for (size_t i = 0; i < e.size(); ++i)
                pid(e[i], 14 + 5 * i);
            for (size_t i = 0; i < x.size(); ++i)
                pid(x[i], 16 + 5 * ne + 5 * i);
        }
    });
    case k_profile_id: VIEW(profile_id_view, pid(v.profile(), 12));
    case k_profile_destination: VIEW(profile_destination_view, {
        pid(v.profile(), 12);
        FIELD(v.num_channels(), get14(d, 17));
        FIELD(v.params().scope, d.at(0));
        FIELD(v.params().num_channels, get14(d, 17));
    });
    case k_details_inquiry: VIEW(profile_details_inquiry_view, { pid(v.profile(), 12); FIELD(v.target(), d.at(17)); });
    case k_details_reply: VIEW(profile_details_reply_view, {
        pid(v.profile(), 12);
        FIELD(v.target(), d.at(17));
        FIELD(v.target_data_length(), get14(d, 18));
        SPAN(v.target_data(), v.target_data_length(), 20, get14(d, 18));
    });
    case k_specific_data: VIEW(profile_specific_data_view, {
        pid(v.profile(), 12);
        FIELD(v.data_size(), get28(d, 17));
        SPAN(v.data_begin(), size_t(v.data_end() - v.data_begin()), 21, get28(d, 17));
    });
    case k_pe_caps: VIEW(property_exchange_capabilities_view, {
        FIELD(v.maximum_number_of_requests(), d.at(12));
        FIELD(v.pe_version_major(), d.at(3) >= 2 ? d.at(13) : 0);
        FIELD(v.pe_version_minor(), d.at(3) >= 2 ? d.at(14) : 0);
    });
    case k_property_data: VIEW(property_exchange::property_data_message_view, pe(v));
    case k_get: VIEW(get_property_data_view, pe(v));
    case k_set: VIEW(set_property_data_view, pe(v));
    case k_subscription: VIEW(subscription_view, pe(v));
    case k_notify: VIEW(notify_view, pe(v));
    case k_process_caps_reply: VIEW(process_inquiry_capabilities_reply_view, FIELD(v.supported_features(), d.at(12)));
    case k_report_inquiry: VIEW(midi_message_report_inquiry_view, {
        FIELD(v.message_data_control(), d.at(12));
        FIELD(v.system_message_types(), d.at(13));
        FIELD(v.channel_controller_message_types(), d.at(15));
        FIELD(v.note_data_message_types(), d.at(16));
    });
    case k_report_reply: VIEW(midi_message_report_reply_view, {
        FIELD(v.system_message_types(), d.at(12));
        FIELD(v.channel_controller_message_types(), d.at(14));
        FIELD(v.note_data_message_types(), d.at(15));
    });
    }
#undef VIEW
}

//! ask everything about a 7-bit message and compare with the layout oracle
inline unsigned inspect(const midi::sysex7& sx, bool exact)
{
    const Bytes d = sx_data(sx);
    unsigned    accepted = 0;
    for (unsigned k = 0; k < k_count; ++k)
    {
        const auto e = accept(k, sx.manufacturerID, d);
        const bool a = ask(k, sx);
        if (exact && e != either)
            REQUIRE_MSG(a == (e == yes), kind_name(k) << (a ? " accepted" : " refused") << " for " << show_sx(sx.manufacturerID, d));
        if (a)
        {
            ++accepted;
            // a kind that is accepted although the oracle says "no" on 8-bit content is only walked
            read_all(k, sx, d, exact);
        }
    }
    return accepted;
}

inline midi::device_identity gen_identity(Src& s)
{
    midi::device_identity i{};
    i.manufacturer = s.chance(1, 8) ? uint32_t(s.bits(7) << 16 | s.bits(7) << 8 | s.bits(7)) : gen_manufacturer(s);
    i.family       = uint16_t(s.bits(14));
    i.model        = uint16_t(s.bits(14));
    i.revision     = uint32_t(s.bits(28));
    return i;
}
inline void put_identity(Bytes& b, const midi::device_identity& i)
{
    b.push_back((i.manufacturer >> 16) & 0x7F);
    b.push_back((i.manufacturer >> 8) & 0x7F);
    b.push_back(i.manufacturer & 0x7F);
    put14(b, i.family);
    put14(b, i.model);
    put28(b, i.revision);
}

inline Bytes ci_prefix(uint8_t dev, uint8_t sub, uint8_t ver, uint32_t src, uint32_t dst)
{
    Bytes b{ dev, 0x0D, sub, ver };
    put28(b, src);
    put28(b, dst);
    return b;
}

inline std::string gen_text(Src& s, size_t n)
{
    std::string r;
    for (size_t i = 0; i < n; ++i)
        r.push_back(i < 40 ? char(s.range(0x20, 0x7E)) : char(0x30 + i % 70));
    return r;
}

} // namespace h
