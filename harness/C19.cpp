#include "ci.h"
#include "json.h"

using namespace h;
namespace ci = midi::ci;
namespace pe = midi::ci::property_exchange;

namespace {

//! text which needs no escaping inside a JSON string
std::string plain(Src& s)
{
    switch (s.draw(4))
    {
    case 0: return s.pick<const char*>({ "ResourceList", "DeviceInfo", "ProgramList", "singing-piano", "X-Custom", "start", "end", "sub138047", "Error: no such resource", "a", "-", "", "0", "-0", "00", "007", "-12", "--1",
                                         "12", "1.5", "1e5", "+5", " 5", "5 ", "-a", "0x10", "2147483648", "-9223372036854775809", "{}", "[1]", "null", "true", ":", ",", "}", "1-", "-01" });
    case 1: { // digits and signs
        std::string  r;
        const size_t n = s.size(12);
        for (size_t i = 0; i < n; ++i)
            r += "0123456789-.+e "[s.draw(i ? 14 : 11)];
        return r;
    }
    case 2: { // an integer
        std::string r = s.chance(1, 3) ? "-" : "";
        return r + std::to_string(s.bits(unsigned(s.range(1, 63))));
    }
    default: {
        auto t = gen_text(s, s.size(s.chance(1, 30) ? 3000 : 24));
        for (auto& c : t)
            if (c == '"' || c == '\\')
                c = '_';
        return t;
    }
    }
}
std::string key(Src& s)
{
    return s.chance(1, 2) ? s.pick<const char*>({ "resId", "offset", "limit", "encoding", "mutualEncoding", "id", "setPartial", "path" }) : "k" + plain(s);
}
JVal str(const std::string& t) { return { JVal::string, t }; }
JVal num(long long v) { return { JVal::number, std::to_string(v) }; }
//! option values which are integers become numbers, all others strings
JVal opt(const std::string& t) { return { json_number(t) ? JVal::number : JVal::string, t }; }

std::string render(const JObj& o)
{
    std::string r;
    for (auto& [k, v] : o)
        r += (v.type == JVal::string ? " str " : " num ") + ("'" + k + "'='") + v.text + "'";
    return r;
}

void require_json(Src& s, const std::string& text, const JObj& e)
{
    s.note([&](auto& o) { o << " header " << text << "\n expected" << render(e) << "\n"; });
    JObj got;
    REQUIRE_MSG(parse_object(text, got), "not a valid JSON object: " << text);
    REQUIRE_MSG(got == e, "JSON says" << render(got) << ", expected" << render(e));
    for (char c : text)
        REQUIRE(static_cast<unsigned char>(c) < 0x80);
}

struct Opts
{
    std::vector<std::pair<std::string, std::string>> own;
    pe::header_options                               view;
};
void gen_opts(Src& s, Opts& o)
{
    const bool many = s.chance(1, 40);
    size_t     n    = 0;
    while (s.more(n, many ? 40 : 2, many ? 300 : 6))
    {
        auto k = key(s); // drawn in a fixed order
        auto v = plain(s);
        o.own.emplace_back(k, v);
    }
    for (auto& x : o.own)
        o.view.emplace_back(x.first, x.second);
}

void rjson(Src& s)
{
    const auto k = key(s), v = plain(s);
    Opts       o;
    gen_opts(s, o);
    JObj e{ { k, str(v) } };
    require_json(s, pe::make_rjson(k, std::string_view{ v }), e);
    for (auto& x : o.own)
        e.emplace_back(x.first, opt(x.second));
    require_json(s, pe::make_rjson(k, std::string_view{ v }, o.view), e);
    const int i = int(uint32_t(s.u32()));
    e[0].second = num(i);
    require_json(s, pe::make_rjson(k, i, o.view), e);
    require_json(s, pe::make_rjson(k, i), JObj{ e[0] });
    if (!o.own.empty())
        s.nontrivial();
}

template<typename View>
void require_message(Src& s, const ci::message& m, uint8_t sub, uint8_t dev, uint8_t rid, uint32_t src, uint32_t dst, const JObj& e, uint32_t n, uint32_t cur, const Bytes& body)
{
    REQUIRE(m.is_valid());
    auto v = ci::as<View>(m);
    REQUIRE_MSG(bool(v), "the view refuses the message " << show_sx(m.manufacturerID, sx_data(m)));
    REQUIRE(bool(ci::as<pe::property_data_message_view>(m)));
    REQUIRE_EQ(v->subtype(), sub);
    REQUIRE_EQ(v->device_id(), dev);
    REQUIRE_EQ(v->request_id(), rid);
    REQUIRE_EQ(v->source_muid(), src);
    REQUIRE_EQ(v->destination_muid(), dst);
    REQUIRE_EQ(v->message_version(), 2);
    const std::string h(v->header_begin(), v->header_end());
    REQUIRE_EQ(v->header_size(), h.size());
    if (e.empty())
        REQUIRE(h.empty());
    else
        require_json(s, h, e);
    REQUIRE_EQ(uint32_t(v->number_of_chunks()), n);
    REQUIRE_EQ(uint32_t(v->number_of_this_chunk()), cur);
    REQUIRE_EQ(v->chunk_size(), body.size());
    REQUIRE(Bytes(v->chunk_begin(), v->chunk_end()) == body);
    REQUIRE_EQ(sx_data(m).size(), 21 + h.size() + body.size());
}

//! the same bytes, handed over in one of the ways the types offer; keep holds the storage
struct Keep
{
    Bytes       bytes;
    std::string text;
};
template<typename View>
View as_view(Src& s, const Bytes& b, Keep& keep)
{
    keep.bytes = b;
    keep.text.assign(b.begin(), b.end());
    View v;
    switch (s.draw(4))
    {
    case 0: v = View{ keep.bytes.data(), keep.bytes.size() }; break;
    case 1: v = View{ keep.text.data(), keep.text.size() }; break;
    case 2: v = View{ keep.bytes }; break;
    case 3: v = View{ keep.text }; break;
    default: v = View{ std::string_view{ keep.text } }; break;
    }
    REQUIRE_EQ(v.size, b.size());
    REQUIRE_MSG(std::equal(b.begin(), b.end(), v.data), "header or chunk points to other data");
    REQUIRE_MSG(v.as_string_view() == keep.text, "text of a header or chunk is '" << v.as_string_view() << "'");
    return v;
}

void factories(Src& s)
{
    const auto src = uint32_t(s.bits(28)), dst = uint32_t(s.bits(28));
    const auto dev = uint8_t(s.bits(7)), rid = uint8_t(s.bits(7));
    const auto res = plain(s), text = plain(s), cmd = plain(s), sid = plain(s);
    const int  status = s.chance(1, 2) ? s.pick<int>({ 200, 202, 341, 343, 400, 403, 404, 500 }) : int(uint32_t(s.u32()));
    Opts       o;
    gen_opts(s, o);
    JObj resource{ { "resource", str(res) } }, with_opts = resource;
    for (auto& x : o.own)
        with_opts.emplace_back(x.first, opt(x.second));
    const JObj st{ { "status", num(status) } };
    JObj       st_msg = st;
    st_msg.emplace_back("message", opt(text));
    JObj subscr = resource;
    subscr.emplace_back("command", opt(cmd));
    subscr.emplace_back("subscribeId", opt(sid));

    const auto body = s.chance(1, 3) ? Bytes{} : s.byte_vec(s.size(s.chance(1, 40) ? 16383 : 80), 7);
    Keep       keep;
    const auto chunk = body.empty() && s.chance(1, 2) ? pe::chunk{} : as_view<pe::chunk>(s, body, keep);
    const auto n   = uint16_t(s.chance(1, 2) ? 1 : s.bits(14));
    const auto cur = uint16_t(1);
    const Bytes none;
    s.nontrivial();
    switch (s.draw(12))
    {
    case 0: require_message<ci::get_property_data_view>(s, ci::make_get_property_data_inquiry(src, dst, res, rid, dev), 0x34, dev, rid, src, dst, resource, 1, 1, none); break;
    case 1: require_message<ci::get_property_data_view>(s, ci::make_get_property_data_inquiry(src, dst, res, o.view, rid, dev), 0x34, dev, rid, src, dst, with_opts, 1, 1, none); break;
    case 2: require_message<ci::get_property_data_view>(s, ci::make_get_property_data_reply(src, dst, status, n, cur, chunk, rid, dev), 0x35, dev, rid, src, dst, st, n, cur, body); break;
    case 3: require_message<ci::get_property_data_view>(s, ci::make_get_property_data_reply(src, dst, status, text, n, cur, chunk, rid, dev), 0x35, dev, rid, src, dst, st_msg, n, cur, body); break;
    case 4: require_message<ci::set_property_data_view>(s, ci::make_set_property_data_inquiry(src, dst, res, n, cur, chunk, rid, dev), 0x36, dev, rid, src, dst, resource, n, cur, body); break;
    case 5: require_message<ci::set_property_data_view>(s, ci::make_set_property_data_inquiry(src, dst, res, o.view, n, cur, chunk, rid, dev), 0x36, dev, rid, src, dst, with_opts, n, cur, body); break;
    case 6: require_message<ci::set_property_data_view>(s, ci::make_set_property_data_reply(src, dst, status, rid, dev), 0x37, dev, rid, src, dst, st, 1, 1, none); break;
    case 7: require_message<ci::set_property_data_view>(s, ci::make_set_property_data_reply(src, dst, status, text, rid, dev), 0x37, dev, rid, src, dst, st_msg, 1, 1, none); break;
    case 8: {
        const auto m = ci::make_subscription_inquiry(src, dst, res, cmd, sid, rid, dev);
        auto       v = ci::as<ci::subscription_view>(m);
        REQUIRE(bool(v));
        // which chunk numbering announces "no data" is the library's choice
        require_message<ci::subscription_view>(s, m, 0x38, dev, rid, src, dst, subscr, v->number_of_chunks(), v->number_of_this_chunk(), none);
        REQUIRE(v->number_of_chunks() <= 1);
        break;
    }
    case 9: require_message<ci::subscription_view>(s, ci::make_subscription_inquiry(src, dst, res, cmd, sid, n, cur, chunk, rid, dev), 0x38, dev, rid, src, dst, subscr, n, cur, body); break;
    case 10: require_message<ci::subscription_view>(s, ci::make_subscription_reply(src, dst, status, rid, dev), 0x39, dev, rid, src, dst, st, 1, 1, none); break;
    case 11: require_message<ci::subscription_view>(s, ci::make_subscription_reply(src, dst, status, text, rid, dev), 0x39, dev, rid, src, dst, st_msg, 1, 1, none); break;
    default:
        require_message<ci::notify_view>(s, ci::make_notify_message(src, dst, status, rid, dev), 0x3F, dev, rid, src, dst, st, 1, 1, none);
        require_message<ci::notify_view>(s, ci::make_notify_message(src, dst, status, text, rid, dev), 0x3F, dev, rid, src, dst, st_msg, 1, 1, none);
        break;
    }
}

//! a property body cut into chunks, sent as packets, collected and put together again
void transfer(Src& s)
{
    const auto src = uint32_t(s.bits(28)), dst = uint32_t(s.bits(28));
    const auto body  = s.byte_vec(s.size(s.chance(1, 20) ? 20000 : 400), 7);
    const auto max   = s.range<size_t>(1, s.chance(1, 4) ? 16383 : 100);
    const auto parts = std::max<size_t>(1, (body.size() + max - 1) / max);
    if (parts > 300)
        return;
    const bool known = s.chance(3, 4); // total number of chunks announced, or 0 for "not known yet"
    const auto res   = plain(s);
    const bool set   = s.chance(1, 2);
    Bytes      got;
    size_t     count = 0;
    std::string header;
    midi::sysex7_collector c{ [&](const midi::sysex7& x) {
        auto v = ci::as<pe::property_data_message_view>(x);
        REQUIRE(bool(v));
        ++count;
        REQUIRE_EQ(size_t(v->number_of_this_chunk()), count);
        REQUIRE_EQ(size_t(v->number_of_chunks()), known || count == parts ? parts : 0);
        header.insert(header.end(), v->header_begin(), v->header_end());
        got.insert(got.end(), v->chunk_begin(), v->chunk_end());
    } };
    for (size_t i = 0; i < parts; ++i)
    {
        const auto     from = i * max, len = std::min(max, body.size() - from);
        const auto     total = uint16_t(known || i + 1 == parts ? parts : 0), cur = uint16_t(i + 1);
        const pe::chunk ch   = len ? pe::chunk{ body.data() + from, len } : pe::chunk{};
        const auto     m    = set ? (i ? ci::make_set_property_data_inquiry(src, dst, total, cur, ch) : ci::make_set_property_data_inquiry(src, dst, res, total, cur, ch))
                                  : (i ? ci::make_get_property_data_reply(src, dst, total, cur, ch) : ci::make_get_property_data_reply(src, dst, 200, total, cur, ch));
        for (auto& p : midi::as_sysex7_packets(m, 3))
            c.feed(p);
    }
    REQUIRE_EQ(count, parts);
    REQUIRE(got == body);
    require_json(s, header, set ? JObj{ { "resource", str(res) } } : JObj{ { "status", num(200) } });
    if (parts > 1)
        s.nontrivial();
}

//! acceptance of chunk numbering, small numbers exhaustively
void numbering(Src& s)
{
    const auto i   = s.draw(4 * 6 * 6 - 1);
    const bool hd  = i & 1, ch = i & 2;
    auto       num = uint32_t(i / 4 % 6), cur = uint32_t(i / 24);
    if (num == 5)
        num = uint32_t(s.bits(14));
    if (cur == 5)
        cur = uint32_t(s.chance(1, 2) ? num : s.bits(14));
    auto d = ci_prefix(uint8_t(s.bits(7)), s.pick<uint8_t>({ 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3F }), 2, uint32_t(s.bits(28)), uint32_t(s.bits(28)));
    d.push_back(uint8_t(s.bits(7)));
    const auto h = s.byte_vec(hd ? s.range<size_t>(1, 200) : 0, 7), c = s.byte_vec(ch ? s.range<size_t>(1, 200) : 0, 7);
    put14(d, uint32_t(h.size()));
    d.insert(d.end(), h.begin(), h.end());
    put14(d, num);
    put14(d, cur);
    put14(d, uint32_t(c.size()));
    d.insert(d.end(), c.begin(), c.end());
    const bool ok = !(num && cur > num) && !(hd && cur > 1) && !(ch && cur == 0);
    s.note([&](auto& o) { o << " chunk " << cur << " of " << num << ", header " << h.size() << ", data " << c.size() << "\n"; });
    const auto sx = make_sx<midi::sysex7>(0x7E0000, d);
    REQUIRE_MSG(pe::property_data_message_view::validate(sx) == ok, "chunk " << cur << " of " << num << (hd ? ", with header" : "") << (ch ? ", with data" : "") << " should be " << (ok ? "accepted" : "refused"));
    inspect(sx, true);
    if (hd || ch)
        s.nontrivial();
}

} // namespace

const char* pbt::g_property = "C19";

std::vector<Facet> pbt::facets()
{
    return {
        { "rjson", "at least one option", rjson, 40000, 1000000 },
        { "factories", "always (a header is built and parsed)", factories, 50000, 1000000 },
        { "transfer", "more than one chunk", transfer, 6000, 100000 },
        { "numbering", "header or chunk data present", numbering, 20000, 300000, 4 * 6 * 6 },
    };
}
