// End to end: mixed traffic from one device to another through every layer of the library.
#include "ci.h"
#include "json.h"
#include "parser.h"
#include <midi/channel_voice_message.h>
#include <midi/data_message.h>
#include <midi/extended_data_message.h>
#include <midi/stream_message.h>

#include <array>
#include <sstream>
#include <tuple>

using namespace h;
namespace ci = midi::ci;
namespace pe = midi::ci::property_exchange;

namespace {

using Up = midi::universal_packet;

// ---------------------------------------------------------------- the UMP link

//! words of the packets, as they travel: as a block of words, or written as text and read again
std::vector<Up> carry(Src& s, const std::vector<Up>& in)
{
    std::vector<Up> out;
    if (s.chance(1, 5))
    {
        std::stringstream t;
        for (auto& p : in)
            t << p << '\n';
        Up p;
        while (out.size() < in.size() && t >> p)
            out.push_back(p);
        s.label("text");
    }
    else
    {
        std::vector<uint32_t> words;
        for (auto& p : in)
        {
            REQUIRE_MSG(p.size() == ump_words(p.data[0] >> 28), "packet " << show_packet(p) << " announces " << p.size() << " words");
            words.insert(words.end(), p.data, p.data + p.size());
        }
        for (size_t i = 0; i < words.size();)
        {
            const size_t n = Up(words[i]).size();
            REQUIRE_MSG(n >= 1 && i + n <= words.size(), "the last packet is cut off");
            const auto w = words.data() + i;
            switch (n)
            {
            case 1: out.emplace_back(w[0]); break;
            case 2: out.emplace_back(w[0], w[1]); break;
            case 3: out.emplace_back(w[0], w[1], w[2]); break;
            default: out.emplace_back(w[0], w[1], w[2], w[3]); break;
            }
            i += n;
        }
    }
    REQUIRE_MSG(out.size() == in.size(), in.size() << " packets sent, " << out.size() << " received");
    return out;
}

//! a packet that is neither SysEx nor a stream message
Up other_packet(Src& s, unsigned group)
{
    static const std::vector<uint32_t> types{ 0x2, 0x4, 0x1, 0x0, 0xD, 0x6, 0x7, 0x8, 0x9, 0xA, 0xB, 0xC, 0xE };
    Up p;
    const auto type = s.pick(types);
    p.data[0]       = type << 28 | group << 24 | uint32_t(s.bits(24));
    if (type == 1 && s.chance(3, 4)) // a real system message
        p.data[0] = (p.data[0] & 0xFF007F7Fu) | s.pick<uint32_t>({ 0xF1, 0xF2, 0xF3, 0xF6, 0xF8, 0xFA, 0xFB, 0xFC, 0xFE, 0xFF }) << 16;
    for (size_t i = 1; i < ump_words(type); ++i)
        p.data[i] = uint32_t(s.u32());
    return p;
}

std::vector<Up> packets7(Src& s, uint32_t man, const Bytes& d, unsigned group)
{
    std::vector<Up> r;
    const auto      sx = make_sx<midi::sysex7>(man, d);
    if (s.chance(1, 2))
        for (auto& p : midi::as_sysex7_packets(sx, midi::group_t(group)))
            r.push_back(p);
    else
        midi::send_sysex7(sx, midi::group_t(group), [&](const Up& p) { r.push_back(p); });
    return r;
}
std::vector<Up> packets8(Src& s, uint32_t man, const Bytes& d, uint8_t stream, unsigned group)
{
    std::vector<Up> r;
    const auto      sx = make_sx<midi::sysex8>(man, d);
    if (s.chance(1, 2))
        for (auto& p : midi::as_sysex8_packets(sx, stream, midi::group_t(group)))
            r.push_back(p);
    else
        midi::send_sysex8(sx, stream, midi::group_t(group), [&](const Up& p) { r.push_back(p); });
    return r;
}

enum LaneKind { l_other, l_sx7, l_sx8, l_endpoint_name, l_product_id, l_block_name, l_stream, l_kinds };
using Key  = std::tuple<int, unsigned, unsigned>; // kind, group, stream or block
using Item = std::string;                         // what arrived, rendered

Item item_packet(const Up& p) { return show_words(p.data, ump_words(p.data[0] >> 28)); }

struct Receiver
{
    std::map<Key, std::vector<Item>>                                    got;
    std::map<unsigned, std::unique_ptr<midi::sysex7_collector>>         c7;
    std::map<std::pair<unsigned, unsigned>, std::unique_ptr<midi::sysex8_collector>> c8;
    std::map<Key, std::string>                                          text;
    bool                                                                everything{ false }; // collectors see all packets of their group

    void name(const Key& k, midi::packet_format f, const std::string& payload)
    {
        auto& t = text[k];
        if (f == midi::packet_format::complete || f == midi::packet_format::start)
            t.clear();
        t += payload;
        if (f == midi::packet_format::complete || f == midi::packet_format::end)
            got[k].push_back(t);
    }
    void feed(const Up& p)
    {
        if (everything && !midi::is_stream_message(p))
        {
            if (!midi::is_sysex7_packet(p) && c7.count(p.group()))
                c7[p.group()]->feed(p);
            if (!midi::is_sysex8_packet(p))
                for (auto& c : c8)
                    if (c.first.first == p.group())
                        c.second->feed(p);
        }
        if (auto v = midi::as_sysex7_packet_view(p))
        {
            const unsigned g = v->group();
            auto&          c = c7[g];
            if (!c)
                c = std::make_unique<midi::sysex7_collector>([this, g](const midi::sysex7& m) { got[{ l_sx7, g, 0 }].push_back(show_all(m)); });
            c->feed(p);
        }
        else if (auto e = midi::as_sysex8_packet_view(p))
        {
            const unsigned g = e->group(), id = e->stream_id();
            auto&          c = c8[{ g, id }];
            if (!c)
                c = std::make_unique<midi::sysex8_collector>([this, g](const midi::sysex8& m, uint8_t i) { got[{ l_sx8, g, i }].push_back(show_all(m)); });
            c->feed(p);
        }
        else if (auto n = midi::as_endpoint_name_view(p))
            name({ l_endpoint_name, 0, 0 }, n->format(), n->payload());
        else if (auto i = midi::as_product_instance_id_view(p))
            name({ l_product_id, 0, 0 }, i->format(), i->payload());
        else if (auto b = midi::as_function_block_name_view(p))
            name({ l_block_name, 0, b->function_block() }, b->format(), b->payload());
        else if (midi::is_stream_message(p))
            got[{ l_stream, 0, 0 }].push_back(item_packet(p));
        else
            got[{ l_other, p.group(), 0 }].push_back(item_packet(p));
    }
    template<typename SX>
    static Item show_all(const SX& m)
    {
        char b[40];
        snprintf(b, sizeof b, "id %06x %zu ", unsigned(m.manufacturerID), size_t(m.data.size()));
        Item r = b;
        r.append(m.data.begin(), m.data.end());
        return r;
    }
};

std::string printable(const std::string& t)
{
    std::string r;
    for (unsigned char c : t.substr(0, 120))
    {
        char b[8];
        snprintf(b, sizeof b, c >= 0x20 && c < 0x7F ? "%c" : "\\%02x", c);
        r += b;
    }
    return t.size() > 120 ? r + "...(" + std::to_string(t.size()) + ")" : r;
}

void require_same(const std::map<Key, std::vector<Item>>& got, const std::map<Key, std::vector<Item>>& want)
{
    static const char* names[] = { "packets", "SysEx7", "SysEx8", "endpoint name", "product id", "block name", "stream" };
    auto lane = [&](const Key& k) { return std::string(names[std::get<0>(k)]) + " of group " + std::to_string(std::get<1>(k)) + "/" + std::to_string(std::get<2>(k)); };
    for (auto& [k, l] : want)
    {
        const auto                     it = got.find(k);
        const std::vector<Item>        none;
        const std::vector<Item>&       g = it == got.end() ? none : it->second;
        for (size_t i = 0; i < l.size(); ++i)
        {
            REQUIRE_MSG(i < g.size(), lane(k) << ": number " << i << " lost: " << printable(l[i]));
            REQUIRE_MSG(g[i] == l[i], lane(k) << ": number " << i << " arrived as " << printable(g[i]) << ", sent " << printable(l[i]));
        }
        REQUIRE_MSG(g.size() == l.size(), lane(k) << ": invented " << printable(g[l.size()]));
    }
    for (auto& [k, l] : got)
        REQUIRE_MSG(l.empty() || want.count(k), lane(k) << ": nothing was sent, received " << printable(l[0]));
}

void ump_link(Src& s)
{
    std::map<Key, std::vector<Item>>  sent;
    std::map<Key, std::vector<Up>>    lanes;
    size_t                            n = 0, multi = 0;
    while (s.more(n, 6, 24))
    {
        const auto kind = int(s.draw(l_kinds - 1));
        const auto group = unsigned(s.chance(1, 2) ? s.draw(2) : s.draw(15));
        Key k{ kind, kind == l_other || kind == l_sx7 || kind == l_sx8 ? group : 0u, 0u };
        if (kind == l_sx8)
            std::get<2>(k) = unsigned(s.chance(1, 2) ? s.draw(2) : s.bits(8));
        if (kind == l_block_name)
            std::get<2>(k) = unsigned(s.chance(1, 2) ? s.draw(2) : s.draw(31));
        auto&      lane = lanes[k];
        auto&      list = sent[k];
        const auto before = lane.size();
        switch (kind)
        {
        case l_other: {
            size_t c = 0;
            do
            {
                lane.push_back(other_packet(s, group));
                list.push_back(item_packet(lane.back()));
            } while (s.more(c, 3, 10));
            break;
        }
        case l_sx7: {
            const auto man = gen_manufacturer(s);
            const auto d   = s.byte_vec(s.size(s.chance(1, 30) ? 2000 : 60), 7);
            for (auto& p : packets7(s, man, d, group))
                lane.push_back(p);
            list.push_back(Receiver::show_all(make_sx<midi::sysex7>(man, d)));
            break;
        }
        case l_sx8: {
            const auto man = gen_manufacturer(s);
            const auto d   = s.byte_vec(s.size(s.chance(1, 30) ? 2000 : 80), 8);
            for (auto& p : packets8(s, man, d, uint8_t(std::get<2>(k)), group))
                lane.push_back(p);
            list.push_back(Receiver::show_all(make_sx<midi::sysex8>(man, d)));
            break;
        }
        case l_stream: {
            Up p;
            p.data[0] = 0xF0000000u | s.pick<uint32_t>({ 0x00, 0x01, 0x02, 0x05, 0x06, 0x10, 0x11, 0x20, 0x21 }) << 16 | uint32_t(s.bits(16));
            for (int i = 1; i < 4; ++i)
                p.data[i] = uint32_t(s.u32());
            lane.push_back(p);
            list.push_back(item_packet(p));
            break;
        }
        default: {
            const auto t    = gen_text(s, s.size(kind == l_product_id ? 16 : s.chance(1, 20) ? 400 : 50));
            auto       take = [&](const Up& p) { lane.push_back(p); };
            if (kind == l_endpoint_name)
                midi::send_endpoint_name(t, take);
            else if (kind == l_product_id)
                midi::send_product_instance_id(t, take);
            else
                midi::send_function_block_name(midi::uint7_t(std::get<2>(k)), t, take);
            list.push_back(t);
        }
        }
        multi += lane.size() > before + 1;
    }
    // the lanes share one link, in any order that keeps each of them in order
    std::vector<std::pair<const std::vector<Up>*, size_t>> heads;
    for (auto& l : lanes)
        heads.push_back({ &l.second, 0 });
    std::vector<Up> link;
    for (;;)
    {
        std::vector<size_t> live;
        for (size_t i = 0; i < heads.size(); ++i)
            if (heads[i].second < heads[i].first->size())
                live.push_back(i);
        if (live.empty())
            break;
        auto& h = heads[live[s.draw(live.size() - 1)]];
        for (size_t burst = 1 + s.draw(3); burst && h.second < h.first->size(); --burst)
            link.push_back((*h.first)[h.second++]);
    }
    s.note([&](auto& o) {
        for (auto& p : link)
            o << "  " << show_words(p.data, p.size()) << "\n";
    });
    Receiver r;
    r.everything = s.chance(1, 2);
    for (auto& p : carry(s, link))
        r.feed(p);
    require_same(r.got, sent);
    if (lanes.size() > 1 && multi)
        s.nontrivial();
}

// ---------------------------------------------------------------- MIDI 1 cables

struct Out // what a MIDI 1 sender puts on a cable
{
    std::vector<uint8_t> bytes;
    std::vector<Event>   events; // in the order in which their last byte is sent
};

//! packets -> bytes, with real-time messages cutting in and running status
Out midi1_sender(Src& s, unsigned group, size_t avg, bool& mixed)
{
    Out        o;
    const bool running = s.chance(1, 2), cut_in = s.chance(1, 2);
    uint8_t    last = 0;
    auto put = [&](const Up& p) {
        uint8_t    b[8];
        const auto k = midi::to_midi1_byte_stream(p, b);
        REQUIRE_MSG(k >= 1 && k <= 8, "packet " << show_packet(p) << " converted to " << k << " bytes");
        size_t i = 0;
        if (b[0] >= 0x80 && b[0] < 0xF0)
        {
            if (running && b[0] == last)
                i = 1;
            last = b[0];
        }
        else if (b[0] < 0xF8)
            last = 0;
        for (; i < k; ++i)
        {
            if (cut_in && i && s.chance(1, 8))
            {
                const auto rt = s.pick<uint8_t>({ 0xF8, 0xFA, 0xFB, 0xFC, 0xFE, 0xFF });
                o.bytes.push_back(rt);
                Event e;
                e.w[0] = 0x10000000u | group << 24 | uint32_t(rt) << 16;
                o.events.push_back(e);
                mixed = true;
            }
            o.bytes.push_back(b[i]);
        }
    };
    size_t n = 0;
    while (s.more(n, avg, 30))
    {
        Event e;
        switch (s.draw(4))
        {
        case 0: {
            e.sysex        = true;
            e.man          = gen_manufacturer(s);
            e.data         = s.byte_vec(s.size(s.chance(1, 30) ? 1500 : 50), 7);
            const auto pk  = packets7(s, e.man, e.data, group);
            for (size_t i = 0; i < pk.size(); ++i)
            {
                put(pk[i]);
                if (i + 1 < pk.size() && s.chance(1, 6))
                {
                    Event rt;
                    rt.w[0] = 0x10000000u | group << 24 | s.pick<uint32_t>({ 0xF8, 0xFA, 0xFB, 0xFC, 0xFE, 0xFF }) << 16;
                    put(Up(rt.w[0]));
                    o.events.push_back(rt);
                    mixed = true;
                }
            }
            break;
        }
        default: {
            uint8_t st = s.chance(1, 5) ? s.pick<uint8_t>({ 0xF1, 0xF2, 0xF3, 0xF6, 0xF8, 0xFA, 0xFB, 0xFC, 0xFE, 0xFF }) : uint8_t(0x80 + s.draw(0x6F));
            if (last && s.chance(1, 2))
                st = last;
            e.w[0]           = (st >= 0xF0 ? 0x10000000u : 0x20000000u) | group << 24 | uint32_t(st) << 16;
            const unsigned a = ParserModel::num_args(st);
            if (a > 0)
                e.w[0] |= uint32_t(s.bits(7)) << 8;
            if (a > 1)
                e.w[0] |= uint32_t(s.bits(7));
            put(Up(e.w[0]));
        }
        }
        o.events.push_back(e);
    }
    return o;
}

//! the other end of a cable: a parser, followed by a collector if it works with packets
struct CableEnd
{
    std::vector<Event>                              got;
    std::vector<Up>                                 packets; // everything the parser sent on (packet mode)
    std::unique_ptr<midi::sysex7_collector>         col;
    std::unique_ptr<midi::midi1_byte_stream_parser> par;

    static Event whole(const midi::sysex7& m)
    {
        Event e;
        e.sysex = true;
        e.man   = m.manufacturerID;
        e.data  = sx_data(m);
        return e;
    }
    const unsigned group;
    CableEnd(unsigned g, bool callback)
      : group(g)
    {
        col = std::make_unique<midi::sysex7_collector>([this](const midi::sysex7& m) { got.push_back(whole(m)); });
        auto pcb = [this](Up p) { on_packet(p); };
        if (callback)
            par = std::make_unique<midi::midi1_byte_stream_parser>(midi::group_t(group), pcb, [this](const midi::sysex7& m) { got.push_back(whole(m)); });
        else
            par = std::make_unique<midi::midi1_byte_stream_parser>(midi::group_t(group), pcb);
    }
    void on_packet(const Up& p)
    {
        packets.push_back(p);
        if (p.group() != group)
            return; // not for this receiver
        if (midi::is_sysex7_packet(p))
            return col->feed(p);
        Event e;
        memcpy(e.w, p.data, sizeof e.w);
        got.push_back(e);
    }
    void feed(Src& s, const std::vector<uint8_t>& b, size_t from, size_t n)
    {
        if (n == 1 && s.chance(1, 2))
            par->feed(b[from]);
        else if (s.chance(1, 2))
            par->feed(b.data() + from, n);
        else
            par->feed(b.data() + from, b.data() + from + n);
    }
};

void midi1_cables(Src& s)
{
    struct Cable
    {
        Out                       out;
        std::unique_ptr<CableEnd> end;
        size_t                    pos{ 0 };
    };
    const auto         count = 1 + s.draw(3);
    std::vector<Cable> cables(count);
    bool               mixed = false;
    size_t             total = 0;
    for (auto& c : cables)
    {
        const auto group = unsigned(s.draw(15));
        c.out = midi1_sender(s, group, 5, mixed);
        c.end = std::make_unique<CableEnd>(group, s.chance(1, 2));
        total += c.out.bytes.size();
        s.note([&](auto& o) { o << " cable, group " << group << ": " << hexv(c.out.bytes) << "\n"; });
    }
    const size_t typical = 1 + s.draw(20);
    while (total)
    {
        std::vector<size_t> live;
        for (size_t i = 0; i < cables.size(); ++i)
            if (cables[i].pos < cables[i].out.bytes.size())
                live.push_back(i);
        auto&        c = cables[live[s.draw(live.size() - 1)]];
        const size_t n = std::min<size_t>(c.out.bytes.size() - c.pos, 1 + s.draw(total > 400 ? 400 : typical));
        c.end->feed(s, c.out.bytes, c.pos, n);
        c.pos += n;
        total -= n;
    }
    for (auto& c : cables)
        compare(c.end->got, c.out.events);
    if (mixed)
        s.nontrivial();
}

// ---------------------------------------------------------------- bulk transfers

//! dumps of up to 2^18 bytes on several lanes of one link at once
void bulk_link(Src& s)
{
    std::map<Key, std::vector<Item>> sent;
    std::map<Key, std::vector<Up>>   lanes;
    const auto g = unsigned(s.draw(15));
    bool       big = false;
    for (int kind : { l_sx7, l_sx8, l_endpoint_name, l_block_name, l_sx7, l_sx8 })
    {
        if (!s.chance(1, 2))
            continue;
        const auto   x    = unsigned(s.draw(31));
        const size_t len  = giant_len(s) / (kind == l_sx7 || kind == l_sx8 ? 4 : 8);
        const auto   grp  = unsigned(kind == l_sx7 || kind == l_sx8 ? g : 0);
        const Key    k{ kind, grp, kind == l_sx8 || kind == l_block_name ? x : 0u };
        auto&        lane = lanes[k];
        auto         take = [&](const Up& p) { lane.push_back(p); };
        auto         d    = giant_data(s, len, kind == l_sx8 ? 8 : 7);
        s.note([&](auto& o) { o << " lane " << kind << "/" << x << ": " << len << " bytes\n"; });
        big |= len > 0xFFFF;
        if (kind == l_sx7)
        {
            const auto man = gen_manufacturer(s);
            for (auto& p : packets7(s, man, d, grp))
                take(p);
            sent[k].push_back(Receiver::show_all(make_sx<midi::sysex7>(man, d)));
        }
        else if (kind == l_sx8)
        {
            const auto man = gen_manufacturer(s);
            for (auto& p : packets8(s, man, d, uint8_t(x), grp))
                take(p);
            sent[k].push_back(Receiver::show_all(make_sx<midi::sysex8>(man, d)));
        }
        else
        {
            std::string t;
            for (auto b : d)
                t += char('0' + b % 64);
            if (kind == l_endpoint_name)
                midi::send_endpoint_name(t, take);
            else
                midi::send_function_block_name(midi::uint7_t(x), t, take);
            sent[k].push_back(t);
        }
    }
    std::vector<std::pair<const std::vector<Up>*, size_t>> heads;
    for (auto& l : lanes)
        if (!l.second.empty())
            heads.push_back({ &l.second, 0 });
    std::vector<Up> link;
    uint64_t        r = s.draw(0xFFFFFFFFu);
    for (size_t alive = heads.size(); alive;)
    {
        r       = mix(r + 1);
        auto& h = heads[r % heads.size()];
        for (size_t burst = 1 + (r >> 32) % 64; burst && h.second < h.first->size(); --burst)
            if (link.push_back((*h.first)[h.second++]), h.second == h.first->size())
                --alive;
    }
    Receiver rec;
    for (auto& p : carry(s, link))
        rec.feed(p);
    require_same(rec.got, sent);
    if (big && lanes.size() > 1)
        s.nontrivial();
}

//! dumps and long runs of controllers over a MIDI 1 cable, in large blocks
void bulk_cable(Src& s)
{
    Out        o;
    const auto group = unsigned(s.draw(15));
    bool       big   = false;
    auto       put   = [&](const Up& p, bool skip_status) {
        uint8_t    b[8];
        const auto k = midi::to_midi1_byte_stream(p, b);
        REQUIRE_MSG(k >= 1 && k <= 8, "packet " << show_packet(p) << " converted to " << k << " bytes");
        o.bytes.insert(o.bytes.end(), b + skip_status, b + k);
    };
    for (unsigned part = 0, parts = unsigned(1 + s.draw(2)); part < parts; ++part)
    {
        const size_t n = giant_len(s) / 8;
        const auto   d = giant_data(s, n + 2, 7);
        if (s.chance(1, 2))
        {
            Event e;
            e.sysex = true;
            e.man   = gen_manufacturer(s);
            e.data  = d;
            for (auto& p : packets7(s, e.man, e.data, group))
                put(p, false);
            o.events.push_back(e);
            s.note([&](auto& t) { t << " SysEx with " << d.size() << " bytes\n"; });
        }
        else
        {
            const auto st    = uint8_t(0x80 + s.draw(0x6F));
            const auto every = s.chance(1, 2) ? 0 : 1 + s.draw(1000); // a clock after every so many messages
            const auto args  = ParserModel::num_args(st);
            for (size_t i = 0; i < n; ++i)
            {
                Event e;
                e.w[0] = 0x20000000u | group << 24 | uint32_t(st) << 16 | uint32_t(d[i]) << 8 | (args > 1 ? d[i + 1] : 0u);
                put(Up(e.w[0]), i > 0);
                o.events.push_back(e);
                if (every && i % every == 0)
                {
                    Event c;
                    c.w[0] = 0x10F80000u | group << 24;
                    put(Up(c.w[0]), false);
                    o.events.push_back(c);
                }
            }
            s.note([&](auto& t) { t << " " << n << " messages with running status " << unsigned(st) << "\n"; });
        }
        big |= n > 300;
    }
    CableEnd     end(group, s.chance(1, 2));
    const size_t block = s.chance(1, 2) ? o.bytes.size() : giant_len(s) / 4;
    for (size_t pos = 0; pos < o.bytes.size(); pos += block)
        end.feed(s, o.bytes, pos, std::min(block, o.bytes.size() - pos));
    compare(end.got, o.events);
    if (big)
        s.nontrivial();
}

//! MIDI 1 device -> gateway -> MIDI 2 link -> gateway -> MIDI 1 device
void gateway(Src& s)
{
    bool       mixed = false;
    const auto group = unsigned(s.draw(15));
    const auto out   = midi1_sender(s, group, 8, mixed);
    s.note([&](auto& o) { o << " group " << group << ": " << hexv(out.bytes) << "\n"; });
    CableEnd in(group, false);
    for (size_t i = 0; i < out.bytes.size();)
    {
        const auto n = std::min<size_t>(out.bytes.size() - i, 1 + s.draw(60));
        in.feed(s, out.bytes, i, n);
        i += n;
    }
    std::vector<Up> link;
    size_t          translated = 0;
    for (auto& p : in.packets)
    {
        if (auto v = midi::as_midi1_channel_voice_message_view(p))
            if (auto m = midi::as_midi2_channel_voice_message(*v))
            {
                link.push_back(*m);
                ++translated;
                continue;
            }
        link.push_back(p);
    }
    CableEnd                  far(group, s.chance(1, 2));
    std::vector<uint8_t>      bytes;
    for (auto& p : carry(s, link))
    {
        Up q = p;
        if (auto v = midi::as_midi2_channel_voice_message_view(p))
        {
            auto m = midi::as_midi1_channel_voice_message(*v);
            REQUIRE_MSG(m.has_value(), "a translated message can not be translated back: " << show_packet(p));
            q = *m;
        }
        uint8_t    b[8];
        const auto n = midi::to_midi1_byte_stream(q, b);
        bytes.insert(bytes.end(), b, b + n);
    }
    for (size_t i = 0; i < bytes.size();)
    {
        const auto n = std::min<size_t>(bytes.size() - i, 1 + s.draw(60));
        far.feed(s, bytes, i, n);
        i += n;
    }
    // note on with velocity 0 is a note off
    auto want = out.events;
    for (auto& e : want)
        if (!e.sysex && (e.w[0] & 0xF0F0007Fu) == 0x20900000u)
            e.w[0] = (e.w[0] & ~0x00100000u) | 64;
    compare(far.got, want);
    if (translated)
        s.nontrivial();
}

// ---------------------------------------------------------------- MIDI-CI devices talking to each other

//! one direction of the connection between two devices; lives as long as the conversation
struct Pipe
{
    unsigned                                        mode; // 0: UMP, 1: MIDI 1 bytes to packets, 2: MIDI 1 bytes to messages
    unsigned                                        group;
    std::vector<midi::sysex7>                       got;
    std::unique_ptr<midi::sysex7_collector>         col;
    std::unique_ptr<midi::midi1_byte_stream_parser> par;

    Pipe(unsigned m, unsigned g, size_t limit)
      : mode(m)
      , group(g)
    {
        auto sx = [this](const midi::sysex7& x) { got.push_back(x); };
        col     = std::make_unique<midi::sysex7_collector>(sx);
        col->set_max_sysex_data_size(limit);
        if (mode == 1)
            par = std::make_unique<midi::midi1_byte_stream_parser>(midi::group_t(g), [this](Up p) { if (p.group() == group) col->feed(p); });
        if (mode == 2)
            par = std::make_unique<midi::midi1_byte_stream_parser>(midi::group_t(g), [](Up) {}, sx);
    }
    //! the message as the other side receives it
    midi::sysex7 send(Src& s, const ci::message& m)
    {
        s.note([&](auto& o) { o << "  " << show_sx(m.manufacturerID, sx_data(m)) << "\n"; });
        std::vector<Up> pk;
        for (auto& p : midi::as_sysex7_packets(m, midi::group_t(group)))
        {
            if (!pk.empty() && s.chance(1, 10))
                pk.push_back(mode ? Up(0x10F80000u | group << 24) : s.chance(1, 2) ? other_packet(s, unsigned(s.draw(15)))
                                                                                  : Up(0x30160000u | (group ^ 1) << 24, uint32_t(s.u32()) & 0x7F7F7F7Fu));
            pk.push_back(p);
        }
        got.clear();
        if (mode == 0)
        {
            for (auto& p : carry(s, pk))
                if (p.group() == group)
                    col->feed(p);
        }
        else
        {
            std::vector<uint8_t> bytes;
            for (auto& p : pk)
            {
                uint8_t    b[8];
                const auto n = midi::to_midi1_byte_stream(p, b);
                bytes.insert(bytes.end(), b, b + n);
            }
            const size_t step = 1 + s.draw(70);
            for (size_t i = 0; i < bytes.size(); i += step)
                par->feed(bytes.data() + i, std::min(step, bytes.size() - i));
        }
        REQUIRE_MSG(got.size() == 1, "a MIDI-CI message arrived " << got.size() << " times");
        REQUIRE_MSG(got[0].manufacturerID == m.manufacturerID && got[0].data == m.data,
                    "arrived as " << show_sx(got[0].manufacturerID, sx_data(got[0])));
        return std::move(got[0]);
    }
};

using Pid = std::array<uint8_t, 5>;
Pid  pid(const ci::profile_id& p) { return { p.byte1, p.byte2, p.byte3, p.byte4, p.byte5 }; }
ci::profile_id pid(const Pid& p) { return { p[0], p[1], p[2], p[3], p[4] }; }

struct Device
{
    uint32_t                     muid;
    midi::device_identity        id;
    uint8_t                      categories, function_block, features, requests;
    uint32_t                     max_message;
    Bytes                        product_id;
    std::map<Pid, bool>          profiles; // enabled?
    std::map<Pid, std::map<uint8_t, Bytes>> details;
    std::map<std::string, Bytes> properties;
    Pipe*                        out{ nullptr };
};

Device gen_device(Src& s, uint32_t muid)
{
    Device d{};
    d.muid           = muid;
    d.id             = gen_identity(s);
    d.categories     = uint8_t(s.bits(7));
    d.function_block = uint8_t(s.draw(31));
    d.features       = uint8_t(s.bits(7));
    d.requests       = uint8_t(s.bits(7));
    d.max_message    = s.chance(1, 3) ? uint32_t(512 + s.draw(3000)) : 0x10000;
    d.product_id     = s.byte_vec(s.draw(16), 7);
    size_t n         = 0;
    while (s.more(n, 3, 12))
    {
        Pid p;
        for (auto& b : p)
            b = uint8_t(s.bits(7));
        d.profiles[p] = s.chance(1, 2);
        size_t k      = 0;
        while (s.more(k, 1, 3))
        {
            const auto target        = uint8_t(s.bits(7));
            d.details[p][target]     = s.byte_vec(s.size(s.chance(1, 4) ? 400 : 40), 7);
        }
    }
    for (auto r : { pe::ResourceList, pe::DeviceInfo, pe::ProgramList, pe::State })
        if (s.chance(2, 3))
            d.properties[std::string(r)] = s.byte_vec(s.size(s.chance(1, 10) ? 3000 : 200), 7);
    return d;
}

void same_identity(const midi::device_identity& a, const midi::device_identity& b)
{
    REQUIRE_EQ(a.manufacturer, b.manufacturer);
    REQUIRE_EQ(a.family, b.family);
    REQUIRE_EQ(a.model, b.model);
    REQUIRE_EQ(a.revision, b.revision);
}

template<typename View>
View need(const midi::sysex7& x, uint8_t subtype, const Device& from, uint32_t to)
{
    auto any = midi::as_capability_inquiry_view(x);
    REQUIRE_MSG(any.has_value(), "not recognised as MIDI-CI: " << show_sx(x.manufacturerID, sx_data(x)));
    REQUIRE_EQ(any->subtype(), subtype);
    REQUIRE_EQ(any->source_muid(), from.muid);
    REQUIRE_EQ(any->destination_muid(), to);
    auto v = any->template as<View>();
    REQUIRE_MSG(v.has_value(), "message of subtype " << +subtype << " not recognised");
    return *v;
}

JObj header_of(const pe::property_data_message_view& v)
{
    JObj              o;
    const std::string t(v.header_begin(), v.header_end());
    REQUIRE_MSG(parse_object(t, o), "header is not JSON: " << t);
    return o;
}
std::string field(const JObj& o, const char* k)
{
    for (auto& x : o)
        if (x.first == k)
            return x.second.text;
    REQUIRE_MSG(false, "header lacks " << k);
    return {};
}

//! one exchange initiated by a; b answers from what it read in a's message
void exchange(Src& s, Device& a, Device& b)
{
    const auto dev = uint8_t(s.chance(1, 2) ? 0x7F : s.draw(15));
    const auto rid = uint8_t(s.bits(7));
    auto some_profile = [&](const Device& d) {
        auto it = d.profiles.begin();
        std::advance(it, long(s.draw(d.profiles.size() - 1)));
        return it->first;
    };
    auto some_resource = [&](const Device& d) {
        auto it = d.properties.begin();
        std::advance(it, long(s.draw(d.properties.size() - 1)));
        return it->first;
    };
    uint8_t none[5] = { 0, 0, 0, 0, 0 };
    auto    note    = [&](const char* t) { s.note([&](auto& o) { o << " " << t << "\n"; }); };
    switch (s.draw(16))
    {
    case 0: {
        note("discovery");
        const auto path = uint8_t(s.bits(7));
        const auto q    = a.out->send(s, ci::make_discovery_inquiry(a.muid, a.id, a.categories, a.max_message, path));
        const auto v    = need<ci::discovery_inquiry_view>(q, 0x70, a, ci::broadcast_muid);
        same_identity(v.identity(), a.id);
        REQUIRE_EQ(v.categories(), a.categories);
        REQUIRE_EQ(uint32_t(v.maximum_message_size()), a.max_message);
        const auto r = b.out->send(s, ci::make_discovery_reply(b.muid, v.source_muid(), b.id, b.categories, b.max_message, v.output_path_id(), b.function_block));
        const auto w = need<ci::discovery_reply_view>(r, 0x71, b, a.muid);
        same_identity(w.identity(), b.id);
        REQUIRE_EQ(w.categories(), b.categories);
        REQUIRE_EQ(uint32_t(w.maximum_message_size()), b.max_message);
        REQUIRE_EQ(w.output_path_id(), path);
        REQUIRE_EQ(w.function_block(), b.function_block);
        break;
    }
    case 1: {
        note("endpoint information");
        const auto q = a.out->send(s, ci::make_endpoint_information_inquiry(a.muid, b.muid, 0));
        const auto v = need<ci::endpoint_information_inquiry_view>(q, 0x72, a, b.muid);
        const auto r = b.out->send(s, ci::make_endpoint_information_reply(b.muid, v.source_muid(), v.status(), b.product_id.data(), b.product_id.size()));
        const auto w = need<ci::endpoint_information_reply_view>(r, 0x73, b, a.muid);
        REQUIRE_EQ(w.status(), 0);
        REQUIRE(span(w.information_data(), w.information_data_length()) == b.product_id);
        break;
    }
    case 2: {
        note("profile inquiry");
        const auto                  q = a.out->send(s, ci::make_profile_inquiry_message(a.muid, b.muid, dev));
        const auto                  v = need<ci::profile_inquiry_view>(q, 0x20, a, b.muid);
        std::vector<ci::profile_id> on, off;
        for (auto& p : b.profiles)
            (p.second ? on : off).push_back(pid(p.first));
        const auto r = b.out->send(s, s.chance(1, 2) ? ci::make_profile_inquiry_reply(b.muid, v.source_muid(), on, off, v.device_id())
                                                     : ci::make_profile_inquiry_reply(b.muid, v.source_muid(), on.data(), midi::uint14_t(on.size()), off.data(), midi::uint14_t(off.size()), v.device_id()));
        const auto w = need<ci::profile_inquiry_reply_view>(r, 0x21, b, a.muid);
        REQUIRE_EQ(w.device_id(), dev);
        std::map<Pid, bool> seen;
        for (auto& p : w.enabled_profiles())
            seen[pid(p)] = true;
        for (auto& p : w.disabled_profiles())
            seen[pid(p)] = false;
        REQUIRE_MSG(seen == b.profiles && w.enabled_profiles().size() + w.disabled_profiles().size() == b.profiles.size(), "the profile lists differ");
        break;
    }
    case 3: {
        if (b.profiles.empty())
            return;
        note("profile on / off");
        const auto p    = some_profile(b);
        const bool on   = s.chance(1, 2);
        const auto dest = s.chance(1, 3) ? ci::group_profile : s.chance(1, 2) ? ci::function_block_profile : ci::channel_profile(uint8_t(s.draw(15)), midi::uint14_t(1 + s.draw(255)));
        const auto q    = a.out->send(s, on ? ci::make_profile_on_request(a.muid, b.muid, pid(p), dest) : ci::make_profile_off_request(a.muid, b.muid, pid(p), dest));
        const auto v    = need<ci::profile_destination_view>(q, on ? 0x22 : 0x23, a, b.muid);
        b.profiles.at(pid(v.profile())) = on;
        // a request to switch off names no number of channels; the device knows on how many the profile was active
        const ci::profile_destination where = on ? v.params() : ci::profile_destination{ v.params().scope, dest.num_channels };
        const auto r = b.out->send(s, on ? ci::make_profile_enabled_notification(b.muid, ci::broadcast_muid, v.profile(), where)
                                         : ci::make_profile_disabled_notification(b.muid, ci::broadcast_muid, v.profile(), where));
        const auto w = need<ci::profile_destination_view>(r, on ? 0x24 : 0x25, b, ci::broadcast_muid);
        REQUIRE(pid(w.profile()) == p);
        REQUIRE(w.params() == dest);
        break;
    }
    case 4: {
        note("profile added / removed");
        Pid p;
        for (auto& x : p)
            x = uint8_t(s.bits(7));
        const bool add = s.chance(2, 3);
        const auto r   = b.out->send(s, add ? ci::make_profile_added_notification(b.muid, ci::broadcast_muid, pid(p), dev)
                                            : ci::make_profile_removed_notification(b.muid, ci::broadcast_muid, pid(p), dev));
        const auto w   = need<ci::profile_id_view>(r, add ? 0x26 : 0x27, b, ci::broadcast_muid);
        REQUIRE_EQ(w.device_id(), dev);
        REQUIRE(pid(w.profile()) == p);
        break;
    }
    case 5: {
        if (b.profiles.empty())
            return;
        note("profile details");
        const auto p      = some_profile(b);
        const auto target = b.details[p].empty() ? uint8_t(s.bits(7)) : b.details[p].begin()->first;
        const auto q      = a.out->send(s, ci::make_profile_details_inquiry(a.muid, b.muid, pid(p), target, dev));
        const auto v      = need<ci::profile_details_inquiry_view>(q, 0x28, a, b.muid);
        const auto& have  = b.details.at(pid(v.profile()));
        const auto it     = have.find(v.target());
        if (it == have.end())
        {
            const std::string text = gen_text(s, s.size(s.chance(1, 4) ? 300 : 30));
            const auto        r    = b.out->send(s, ci::make_nak_message(v, 0x01, v.target(), none, text));
            const auto        w    = need<ci::nak_view>(r, 0x7F, b, a.muid);
            REQUIRE_EQ(w.transaction(), 0x28);
            REQUIRE_EQ(w.status_data(), target);
            REQUIRE_EQ(w.device_id(), dev);
            REQUIRE_MSG(w.message() == text, "text arrived as '" << w.message() << "'");
            return;
        }
        const auto r = b.out->send(s, ci::make_profile_details_reply(b.muid, v.source_muid(), v.profile(), v.target(), it->second.data(), it->second.size(), v.device_id()));
        const auto w = need<ci::profile_details_reply_view>(r, 0x29, b, a.muid);
        REQUIRE_EQ(w.device_id(), dev);
        REQUIRE(pid(w.profile()) == p);
        REQUIRE_EQ(w.target(), target);
        REQUIRE(span(w.target_data(), w.target_data_length()) == b.details[p][target]);
        break;
    }
    case 6: {
        if (b.profiles.empty())
            return;
        note("profile specific data");
        const auto p = some_profile(b);
        const auto d = s.byte_vec(s.size(s.chance(1, 4) ? 400 : 60), 7);
        const auto q = a.out->send(s, s.chance(1, 2) ? ci::make_profile_specific_data_message(a.muid, b.muid, pid(p), d, dev)
                                                     : ci::make_profile_specific_data_message(a.muid, b.muid, pid(p), d.data(), d.size(), dev));
        const auto v = need<ci::profile_specific_data_view>(q, 0x2F, a, b.muid);
        REQUIRE(pid(v.profile()) == p);
        REQUIRE(Bytes(v.data_begin(), v.data_end()) == d);
        break;
    }
    case 7: {
        note("property exchange capabilities");
        const auto q = a.out->send(s, ci::make_property_exchange_capabilities_inquiry(a.muid, b.muid, a.requests, dev));
        const auto v = need<ci::property_exchange_capabilities_view>(q, 0x30, a, b.muid);
        REQUIRE_EQ(v.maximum_number_of_requests(), a.requests);
        const auto r = b.out->send(s, ci::make_property_exchange_capabilities_reply(b.muid, v.source_muid(), b.requests, v.device_id()));
        const auto w = need<ci::property_exchange_capabilities_view>(r, 0x31, b, a.muid);
        REQUIRE_EQ(w.maximum_number_of_requests(), b.requests);
        REQUIRE_EQ(w.device_id(), dev);
        break;
    }
    case 8:
    case 9: {
        if (b.properties.empty())
            return;
        note("get property");
        const auto res = s.chance(1, 5) ? std::string("X-unknown") : some_resource(b);
        const auto q   = a.out->send(s, ci::make_get_property_data_inquiry(a.muid, b.muid, res, rid, dev));
        const auto v   = need<ci::get_property_data_view>(q, 0x34, a, b.muid);
        const auto it  = b.properties.find(field(header_of(v), "resource"));
        if (it == b.properties.end())
        {
            const auto r = b.out->send(s, ci::make_get_property_data_reply(b.muid, v.source_muid(), 404, "no such resource", 1, 1, {}, v.request_id(), v.device_id()));
            const auto w = need<ci::get_property_data_view>(r, 0x35, b, a.muid);
            REQUIRE_EQ(w.request_id(), rid);
            REQUIRE(field(header_of(w), "status") == "404" && field(header_of(w), "message") == "no such resource");
            REQUIRE_EQ(w.chunk_size(), size_t(0));
            REQUIRE_MSG(!b.properties.count(res), "the resource was misread");
            return;
        }
        const size_t max = a.max_message - 100, chunk = 1 + s.draw(s.chance(1, 3) ? 40 : max - 1);
        const size_t parts = std::max<size_t>(1, (it->second.size() + chunk - 1) / chunk);
        if (parts > 100)
            return;
        Bytes body;
        for (size_t i = 0; i < parts; ++i)
        {
            const auto      from = i * chunk;
            const pe::chunk c    = it->second.empty() ? pe::chunk{} : pe::chunk{ it->second.data() + from, std::min(chunk, it->second.size() - from) };
            const auto      r    = b.out->send(s, i ? ci::make_get_property_data_reply(b.muid, v.source_muid(), midi::uint14_t(parts), midi::uint14_t(i + 1), c, v.request_id(), v.device_id())
                                                    : ci::make_get_property_data_reply(b.muid, v.source_muid(), 200, midi::uint14_t(parts), midi::uint14_t(i + 1), c, v.request_id(), v.device_id()));
            const auto      w    = need<ci::get_property_data_view>(r, 0x35, b, a.muid);
            REQUIRE_EQ(w.request_id(), rid);
            REQUIRE_EQ(w.device_id(), dev);
            REQUIRE_EQ(size_t(w.number_of_chunks()), parts);
            REQUIRE_EQ(size_t(w.number_of_this_chunk()), i + 1);
            if (i == 0)
                REQUIRE(field(header_of(w), "status") == "200");
            else
                REQUIRE_EQ(w.header_size(), size_t(0));
            body.insert(body.end(), w.chunk_begin(), w.chunk_end());
        }
        REQUIRE_MSG(body == b.properties.at(res), "property " << res << " arrived changed");
        if (parts > 1)
            s.label("chunked get");
        break;
    }
    case 10: {
        note("set property");
        const auto res  = s.pick<std::string>({ "ProgramList", "State", "X-Value", "CurrentMode" });
        const auto body = s.byte_vec(s.size(s.chance(1, 10) ? 3000 : 200), 7);
        const size_t chunk = 1 + s.draw(s.chance(1, 3) ? 40 : b.max_message - 101);
        const size_t parts = std::max<size_t>(1, (body.size() + chunk - 1) / chunk);
        if (parts > 100)
            return;
        std::string target;
        Bytes       received;
        uint8_t     last_rid = 0, last_dev = 0;
        uint32_t    asker = 0;
        for (size_t i = 0; i < parts; ++i)
        {
            const auto      from = i * chunk;
            const pe::chunk c    = body.empty() ? pe::chunk{} : pe::chunk{ body.data() + from, std::min(chunk, body.size() - from) };
            const auto      q    = a.out->send(s, i ? ci::make_set_property_data_inquiry(a.muid, b.muid, midi::uint14_t(parts), midi::uint14_t(i + 1), c, rid, dev)
                                                    : ci::make_set_property_data_inquiry(a.muid, b.muid, res, midi::uint14_t(parts), midi::uint14_t(i + 1), c, rid, dev));
            const auto      v    = need<ci::set_property_data_view>(q, 0x36, a, b.muid);
            if (v.header_size())
                target = field(header_of(v), "resource");
            REQUIRE_EQ(size_t(v.number_of_this_chunk()), i + 1);
            REQUIRE_EQ(size_t(v.number_of_chunks()), parts);
            received.insert(received.end(), v.chunk_begin(), v.chunk_end());
            last_rid = v.request_id();
            last_dev = v.device_id();
            asker    = v.source_muid();
        }
        b.properties[target] = received;
        REQUIRE_MSG(b.properties.count(res) && b.properties[res] == body, "property " << res << " was set to something else");
        const auto r = b.out->send(s, s.chance(1, 2) ? ci::make_set_property_data_reply(b.muid, asker, 200, last_rid, last_dev)
                                                     : ci::make_set_property_data_reply(b.muid, asker, 200, "stored", last_rid, last_dev));
        const auto w = need<ci::set_property_data_view>(r, 0x37, b, a.muid);
        REQUIRE_EQ(w.request_id(), rid);
        REQUIRE_EQ(w.device_id(), dev);
        REQUIRE(field(header_of(w), "status") == "200");
        if (parts > 1)
            s.label("chunked set");
        break;
    }
    case 11: {
        note("subscription");
        const auto cmd = s.pick<std::string>({ "start", "end", "partial", "full", "notify" });
        const auto sub = "sub" + std::to_string(s.draw(9999));
        const auto q   = a.out->send(s, ci::make_subscription_inquiry(a.muid, b.muid, pe::State, cmd, sub, rid, dev));
        const auto v   = need<ci::subscription_view>(q, 0x38, a, b.muid);
        const auto o   = header_of(v);
        REQUIRE(field(o, "resource") == "State" && field(o, "command") == cmd && field(o, "subscribeId") == sub);
        const auto r = b.out->send(s, ci::make_subscription_reply(b.muid, v.source_muid(), 200, v.request_id(), v.device_id()));
        const auto w = need<ci::subscription_view>(r, 0x39, b, a.muid);
        REQUIRE_EQ(w.request_id(), rid);
        REQUIRE(field(header_of(w), "status") == "200");
        const auto x = b.out->send(s, ci::make_notify_message(b.muid, v.source_muid(), 100, "busy", v.request_id(), v.device_id()));
        const auto y = need<ci::notify_view>(x, 0x3F, b, a.muid);
        REQUIRE_EQ(y.request_id(), rid);
        REQUIRE_EQ(y.device_id(), dev);
        REQUIRE(field(header_of(y), "status") == "100" && field(header_of(y), "message") == "busy");
        break;
    }
    case 12: {
        note("process inquiry");
        const auto q = a.out->send(s, ci::make_process_inquiry_capabilities_inquiry(a.muid, b.muid, dev));
        const auto v = need<midi::capability_inquiry_view>(q, 0x40, a, b.muid);
        const auto r = b.out->send(s, ci::make_process_inquiry_capabilities_reply(b.muid, v.source_muid(), b.features, v.device_id()));
        const auto w = need<ci::process_inquiry_capabilities_reply_view>(r, 0x41, b, a.muid);
        REQUIRE_EQ(w.supported_features(), b.features);
        REQUIRE_EQ(w.device_id(), dev);
        const auto ctl = uint8_t(s.bits(7)), sys = uint8_t(s.bits(7)), ch = uint8_t(s.bits(7)), nt = uint8_t(s.bits(7));
        const auto x = a.out->send(s, ci::make_midi_message_report_inquiry(a.muid, b.muid, ctl, sys, ch, nt, dev));
        const auto y = need<ci::midi_message_report_inquiry_view>(x, 0x42, a, b.muid);
        REQUIRE_EQ(y.message_data_control(), ctl);
        REQUIRE_EQ(y.system_message_types(), sys);
        REQUIRE_EQ(y.channel_controller_message_types(), ch);
        REQUIRE_EQ(y.note_data_message_types(), nt);
        break;
    }
    case 13: {
        note("ack");
        uint8_t    details[5];
        for (auto& x : details)
            x = uint8_t(s.bits(7));
        const auto text = gen_text(s, s.size(s.chance(1, 4) ? 300 : 40));
        const auto code = uint8_t(s.bits(7)), data = uint8_t(s.bits(7)), tr = uint8_t(s.bits(7));
        const auto q    = a.out->send(s, ci::make_ack_message(a.muid, b.muid, dev, tr, code, data, details, text));
        const auto v    = need<ci::ack_view>(q, 0x7D, a, b.muid);
        REQUIRE_EQ(v.transaction(), tr);
        REQUIRE_EQ(v.status_code(), code);
        REQUIRE_EQ(v.status_data(), data);
        REQUIRE_EQ(v.device_id(), dev);
        REQUIRE(!memcmp(v.details(), details, 5));
        REQUIRE_MSG(v.message() == text, "text arrived as '" << v.message() << "'");
        break;
    }
    case 14: {
        note("refused inquiry");
        auto any = [&]() -> ci::message {
            switch (s.draw(7))
            {
            case 0: return ci::make_endpoint_information_inquiry(a.muid, b.muid, uint8_t(s.bits(7)));
            case 1: return ci::make_profile_inquiry_message(a.muid, b.muid, dev);
            case 2: return ci::make_property_exchange_capabilities_inquiry(a.muid, b.muid, a.requests, dev);
            case 3: return ci::make_get_property_data_inquiry(a.muid, b.muid, pe::DeviceInfo, rid, dev);
            case 4: return ci::make_process_inquiry_capabilities_inquiry(a.muid, b.muid, dev);
            case 5: return ci::make_midi_message_report_inquiry(a.muid, b.muid, 1, 2, 3, 4, dev);
            case 6: return ci::make_subscription_inquiry(a.muid, b.muid, pe::State, "start", "x", rid, dev);
            default: return ci::message(uint8_t(s.bits(7)), a.muid, b.muid, dev);
            }
        };
        const auto m = any();
        const auto q = a.out->send(s, m);
        const auto v = midi::as_capability_inquiry_view(q);
        REQUIRE(v.has_value());
        if (s.chance(1, 4))
        {
            const auto r = b.out->send(s, ci::make_nak_message_v1(*v));
            const auto w = midi::as_capability_inquiry_view(r);
            REQUIRE(w.has_value());
            REQUIRE_EQ(w->subtype(), 0x7F);
            REQUIRE_EQ(w->message_version(), 1);
            REQUIRE_EQ(w->source_muid(), b.muid);
            REQUIRE_EQ(w->destination_muid(), a.muid);
            return;
        }
        uint8_t details[5];
        for (auto& x : details)
            x = uint8_t(s.bits(7));
        const auto text = gen_text(s, s.size(s.chance(1, 10) ? 300 : 30));
        const auto code = uint8_t(s.bits(7)), data = uint8_t(s.bits(7));
        const auto r    = b.out->send(s, ci::make_nak_message(*v, code, data, details, text));
        const auto w    = need<ci::nak_view>(r, 0x7F, b, a.muid);
        REQUIRE_EQ(w.transaction(), m.data[2]);
        REQUIRE_EQ(w.device_id(), m.data[0]);
        REQUIRE_EQ(w.status_code(), code);
        REQUIRE_EQ(w.status_data(), data);
        REQUIRE(!memcmp(w.details(), details, 5));
        REQUIRE_MSG(w.message() == text, "text arrived as '" << w.message() << "'");
        break;
    }
    case 15: {
        note("readdressed message");
        // a message prepared for other devices is addressed anew, once or twice, before it is sent
        const auto x = uint32_t(s.bits(28)), y = uint32_t(s.bits(28));
        const auto d = s.byte_vec(s.size(60), 7);
        Pid        p;
        for (auto& c : p)
            c = uint8_t(s.bits(7));
        auto m = ci::make_profile_specific_data_message(x, y, pid(p), d, dev);
        if (s.chance(1, 3))
        {
            m.set_destination_muid(uint32_t(s.bits(28)));
            m.set_source_muid(uint32_t(s.bits(28)));
        }
        const bool first = s.chance(1, 2);
        if (first)
            m.set_source_muid(a.muid);
        m.set_destination_muid(b.muid);
        if (!first)
            m.set_source_muid(a.muid);
        REQUIRE_EQ(uint32_t(m.source_muid()), a.muid);
        REQUIRE_EQ(uint32_t(m.destination_muid()), b.muid);
        const auto q = a.out->send(s, m);
        const auto v = need<ci::profile_specific_data_view>(q, 0x2F, a, b.muid);
        REQUIRE_EQ(v.device_id(), dev);
        REQUIRE(pid(v.profile()) == p);
        REQUIRE(Bytes(v.data_begin(), v.data_end()) == d);
        break;
    }
    default: {
        note("invalidate MUID");
        const auto q = a.out->send(s, ci::make_invalidate_muid_message(a.muid, b.muid));
        const auto v = need<ci::invalidate_muid_view>(q, 0x7E, a, ci::broadcast_muid);
        REQUIRE_EQ(v.target_muid(), b.muid);
        // b takes a new MUID
        b.muid = uint32_t(s.bits(28));
        break;
    }
    }
}

void conversation(Src& s)
{
    auto a = gen_device(s, uint32_t(s.bits(28)));
    auto b = gen_device(s, uint32_t(s.bits(28)));
    const auto group = unsigned(s.draw(15));
    Pipe to_b(unsigned(s.draw(2)), group, s.chance(1, 2) ? b.max_message : 0);
    Pipe to_a(unsigned(s.draw(2)), group, s.chance(1, 2) ? a.max_message : 0);
    a.out = &to_b;
    b.out = &to_a;
    size_t n = 0;
    while (s.more(n, 5, 25))
        if (s.chance(1, 3))
            exchange(s, b, a);
        else
            exchange(s, a, b);
    if (n > 2)
        s.nontrivial();
}

// ---------------------------------------------------------------- UMP endpoints discovering each other

struct Block
{
    midi::function_block_options o;
    unsigned                     first, span;
    std::string                  name;
};
struct Endpoint
{
    unsigned              major, minor, protocols, extensions, protocol, extension;
    bool                  fixed;
    midi::device_identity id;
    std::string           name, product;
    std::vector<Block>    blocks;
};

//! a host asks, the endpoint answers as asked, possibly with other traffic in between; the host knows the endpoint then
void endpoint(Src& s)
{
    Endpoint e;
    e.major      = unsigned(s.bits(8));
    e.minor      = unsigned(s.bits(8));
    e.protocols  = unsigned(s.range(1, 3));
    e.extensions = unsigned(s.draw(3));
    e.protocol   = unsigned(s.range(1, 2));
    e.extension  = unsigned(s.draw(3));
    e.fixed      = s.chance(1, 2);
    e.id         = gen_identity(s);
    e.name       = gen_text(s, s.size(s.chance(1, 10) ? 98 : 30));
    e.product    = gen_text(s, s.size(16));
    for (size_t n = s.chance(1, 8) ? 32 : s.draw(5); n; --n)
    {
        Block b;
        b.o.active    = s.chance(3, 4);
        b.o.direction = uint8_t(s.range(1, 3));
        b.o.midi1     = uint8_t(s.draw(2));
        b.o.ui_hint   = uint8_t(s.draw(3));
        if (!(b.o.ui_hint & b.o.direction))
            b.o.ui_hint = b.o.direction;
        b.o.ci_message_version     = uint8_t(s.bits(7));
        b.o.max_num_sysex8_streams = uint8_t(s.bits(8));
        b.first                    = unsigned(s.draw(15));
        b.span                     = unsigned(s.range(1, 16 - b.first));
        b.name                     = gen_text(s, s.size(s.chance(1, 10) ? 91 : 30));
        e.blocks.push_back(b);
    }

    // requests of the host, one lane each for the endpoint's answers
    const auto                     filter = uint8_t(s.chance(1, 2) ? 31 : s.draw(31));
    const auto                     fb_filter = uint8_t(s.chance(1, 2) ? 3 : s.draw(3));
    const auto                     which  = s.chance(1, 2) || e.blocks.empty() ? 0xFFu : unsigned(s.draw(e.blocks.size() - 1));
    const auto                     want_protocol = unsigned(s.range(1, 2)), want_ext = unsigned(s.draw(3));
    std::vector<Up>                ask{ midi::make_endpoint_discovery_message(filter, 1, 1), midi::make_stream_configuration_request(midi::protocol_t(want_protocol), midi::extensions_t(want_ext)),
                                        midi::make_function_block_discovery_message(uint8_t(which), fb_filter) };
    if (s.chance(1, 2))
        ask.insert(ask.begin() + long(s.draw(ask.size())), other_packet(s, unsigned(s.draw(15))));
    s.note([&](auto& o) {
        for (auto& p : ask)
            o << " host     " << show_packet(p) << "\n";
    });
    std::vector<std::vector<Up>> answers;
    for (auto& p : carry(s, ask))
    {
        std::vector<Up> a;
        auto            put = [&](const Up& q) { a.push_back(q); };
        if (auto v = midi::as_endpoint_discovery_view(p))
        {
            REQUIRE_EQ(unsigned(v->ump_version()), 0x0101u);
            if (v->requests_info())
                put(midi::make_endpoint_info_message(uint8_t(e.blocks.size()), e.fixed, uint8_t(e.protocols), uint8_t(e.extensions), uint8_t(e.major), uint8_t(e.minor)));
            if (v->requests_device_identity())
                put(midi::make_device_identity_message(e.id));
            if (v->requests_name())
                midi::send_endpoint_name(e.name, put);
            if (v->requests_product_instance_id())
                midi::send_product_instance_id(e.product, put);
            if (v->requests_stream_configuration())
                put(midi::make_stream_configuration_notification(midi::protocol_t(e.protocol), midi::extensions_t(e.extension)));
        }
        else if (auto c = midi::as_stream_configuration_view(p))
        {
            e.protocol  = c->protocol();
            e.extension = c->extensions();
            put(midi::make_stream_configuration_notification(c->protocol(), c->extensions()));
        }
        else if (auto f = midi::as_function_block_discovery_view(p))
        {
            for (size_t i = 0; i < e.blocks.size(); ++i)
            {
                if (!f->requests_function_block(uint8_t(i)))
                    continue;
                const auto& b = e.blocks[i];
                if (f->requests_info())
                    put(midi::make_function_block_info_message(midi::uint7_t(i), b.o, midi::group_t(b.first), midi::uint4_t(b.span)));
                if (f->requests_name())
                    midi::send_function_block_name(midi::uint7_t(i), b.name, put);
            }
        }
        answers.push_back(a);
    }
    // other traffic between the packets of the answers; configuration notifications stay in order
    std::vector<Up> link;
    for (auto& a : answers)
        for (auto& p : a)
        {
            if (s.chance(1, 10))
                link.push_back(other_packet(s, unsigned(s.draw(15))));
            link.push_back(p);
        }
    s.note([&](auto& o) {
        for (auto& p : link)
            o << " endpoint " << show_packet(p) << "\n";
    });
    Endpoint                     known{};
    std::map<unsigned, Block>    blocks;
    std::map<unsigned, unsigned> infos;
    bool                         got_info = false, got_id = false;
    Receiver                     names;
    for (auto& p : carry(s, link))
    {
        if (auto v = midi::as_endpoint_info_view(p))
        {
            got_info = true;
            REQUIRE_EQ(unsigned(v->ump_version_major()), e.major);
            REQUIRE_EQ(unsigned(v->ump_version_minor()), e.minor);
            REQUIRE_EQ(size_t(v->num_function_blocks()), e.blocks.size());
            REQUIRE_EQ(v->static_function_blocks(), e.fixed);
            REQUIRE_EQ(unsigned(v->protocols()), e.protocols);
            REQUIRE_EQ(unsigned(v->extensions()), e.extensions);
        }
        else if (auto d = midi::as_device_identity_view(p))
        {
            got_id = true;
            same_identity(d->identity(), e.id);
        }
        else if (auto c = midi::as_stream_configuration_view(p))
        {
            known.protocol  = c->protocol();
            known.extension = c->extensions();
        }
        else if (auto f = midi::as_function_block_info_view(p))
        {
            const unsigned i = f->function_block();
            ++infos[i];
            REQUIRE_MSG(i < e.blocks.size(), "information about function block " << i << " of " << e.blocks.size());
            const auto& b = e.blocks[i];
            REQUIRE_EQ(f->active(), b.o.active);
            REQUIRE_EQ(f->direction(), b.o.direction);
            REQUIRE_EQ(f->midi1(), b.o.midi1);
            REQUIRE_EQ(f->ui_hint(), b.o.ui_hint);
            REQUIRE_EQ(unsigned(f->first_group()), b.first);
            REQUIRE_EQ(unsigned(f->num_groups_spanned()), b.span);
            REQUIRE_EQ(f->ci_message_version(), b.o.ci_message_version);
            REQUIRE_EQ(f->max_num_sysex8_streams(), b.o.max_num_sysex8_streams);
        }
        else if (midi::is_stream_message(p))
            names.feed(p);
    }
    REQUIRE_EQ(got_info, (filter & 1) != 0);
    REQUIRE_EQ(got_id, (filter & 2) != 0);
    REQUIRE_EQ(known.protocol, want_protocol);
    REQUIRE_EQ(known.extension, want_ext);
    std::map<Key, std::vector<Item>> expected;
    if (filter & 4)
        expected[{ l_endpoint_name, 0, 0 }] = { e.name };
    if (filter & 8)
        expected[{ l_product_id, 0, 0 }] = { e.product };
    for (size_t i = 0; i < e.blocks.size(); ++i)
    {
        const bool asked = which == 0xFF || which == i;
        REQUIRE_EQ(infos.count(unsigned(i)), size_t(asked && (fb_filter & 1)));
        if (asked && (fb_filter & 2))
            expected[{ l_block_name, 0, unsigned(i) }] = { e.blocks[i].name };
    }
    require_same(names.got, expected);
    if (filter & 4 && !e.blocks.empty())
        s.nontrivial();
}

} // namespace

const char* pbt::g_property = "C24";
std::vector<Facet> pbt::facets()
{
    return {
        { "ump_link", "at least two lanes, one with a multi-packet message", ump_link, 40000, 800000 },
        { "midi1_cables", "a real-time message cuts into another message", midi1_cables, 40000, 800000 },
        { "gateway", "at least one message translated to MIDI 2 and back", gateway, 40000, 800000 },
        { "bulk_link", "two lanes, one with a message of more than 65 535 bytes", bulk_link, 120, 4000 },
        { "bulk_cable", "a message or run under one status byte of more than 300 bytes", bulk_cable, 200, 6000 },
        { "endpoint", "the name is asked for and there is a function block", endpoint, 20000, 400000 },
        { "conversation", "at least three exchanges", conversation, 20000, 400000 },
    };
}
