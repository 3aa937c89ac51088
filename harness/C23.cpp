// Independent objects and calls do not influence each other: interleaved, nested, copied, in threads.
#include "ci.h"
#include "collector.h"
#include "parser.h"

#include <midi/channel_voice_message.h>
#include <midi/flex_data_message.h>
#include <midi/jitter_reduction_timestamps.h>
#include <midi/stream_message.h>

#include <atomic>
#include <memory>
#include <thread>

using namespace h;
using midi::universal_packet;

namespace pbt {
std::vector<Facet> facets_C01();
std::vector<Facet> facets_C02();
std::vector<Facet> facets_C03();
std::vector<Facet> facets_C04();
std::vector<Facet> facets_C05();
std::vector<Facet> facets_C06();
std::vector<Facet> facets_C07();
std::vector<Facet> facets_C08();
std::vector<Facet> facets_C09();
std::vector<Facet> facets_C10();
std::vector<Facet> facets_C11();
std::vector<Facet> facets_C12();
std::vector<Facet> facets_C13();
std::vector<Facet> facets_C14();
std::vector<Facet> facets_C15();
std::vector<Facet> facets_C16();
std::vector<Facet> facets_C17();
std::vector<Facet> facets_C18();
std::vector<Facet> facets_C19();
std::vector<Facet> facets_C20();
std::vector<Facet> facets_C21();
} // namespace pbt

namespace {

using F  = midi::jr_clock_follower;
using tp = F::time_point;
using std::chrono::nanoseconds;

struct Machine;

//! lets another object work while one is inside a callback
struct Nesting
{
    virtual void emitted(Machine&) = 0;
    virtual ~Nesting() {}
};

enum ObjKind { collector7, collector8, parser_packets, parser_sysex, follower, calls, num_kinds };
const char* kind_names[] = { "sysex7 collector", "sysex8 collector", "parser (packets)", "parser (SysEx callback)", "clock follower", "calls" };

using Emit = std::function<void(const universal_packet&)>;

//! one operation on an object; what it does is fixed before any object runs
struct Op
{
    std::string                             what;
    std::function<void(Machine&)>           on;   // objects
    std::function<std::string(const Emit&)> call; // free functions
};

struct Machine
{
    const ObjKind               kind;
    Nesting*                 nesting{ nullptr };
    bool                     busy{ false };
    std::vector<std::string> log; // one entry per operation
    tp                       base;

    // the callbacks of an object report to whichever copy of it is working
    std::shared_ptr<Machine*>                       owner{ std::make_shared<Machine*>(nullptr) };
    std::unique_ptr<midi::sysex7_collector>         c7;
    std::unique_ptr<midi::sysex8_collector>         c8;
    std::unique_ptr<midi::midi1_byte_stream_parser> p;
    std::unique_ptr<F>                              f;

    Machine(ObjKind k, tp b)
      : kind(k)
      , base(b)
    {
        auto o = owner;
        switch (k)
        {
        case collector7: c7 = std::make_unique<midi::sysex7_collector>([o](const midi::sysex7& m) { (*o)->out(show_sx(m.manufacturerID, sx_data(m))); }); break;
        case collector8: c8 = std::make_unique<midi::sysex8_collector>([o](const midi::sysex8& m, uint8_t id) { (*o)->out(std::to_string(id) + show_sx(m.manufacturerID, sx_data(m))); }); break;
        case parser_packets: p = std::make_unique<midi::midi1_byte_stream_parser>([o](universal_packet u) { (*o)->out(show_packet(u)); }); break;
        case parser_sysex:
            p = std::make_unique<midi::midi1_byte_stream_parser>([o](universal_packet u) { (*o)->out(show_packet(u)); },
                                                                 [o](const midi::sysex7& m) { (*o)->out(show_sx(m.manufacturerID, sx_data(m))); });
            break;
        case follower: f = std::make_unique<F>(); break;
        default: break;
        }
    }
    //! copy; how: 0 copy construction, 1 assignment to an object in use, 2 move construction from a copy
    Machine(const Machine& m, unsigned how)
      : kind(m.kind)
      , base(m.base)
      , owner(m.owner)
    {
        copy(c7, m.c7, how, [&] { return midi::sysex7_collector([](const midi::sysex7&) {}); },
             [](auto& x) { x.feed(pkt7(0, 1, reinterpret_cast<const uint8_t*>("\x11\x22\x33"), 3)); });
        copy(c8, m.c8, how, [&] { return midi::sysex8_collector([](const midi::sysex8&, uint8_t) {}); },
             [](auto& x) { x.feed(pkt8(0, 9, 1, reinterpret_cast<const uint8_t*>("\x11\x22\x33"), 3)); });
        copy(p, m.p, how, [&] { return midi::midi1_byte_stream_parser([](universal_packet) {}); },
             [](auto& x) { x.feed(reinterpret_cast<const uint8_t*>("\xF0\x12\x13"), size_t(3)); });
        if (m.f) // not assignable
            f = how == 2 ? std::make_unique<F>(F(*m.f)) : std::make_unique<F>(*m.f);
    }
    static universal_packet up(const Packet& p) { return universal_packet(p.w[0], p.w[1], p.w[2], p.w[3]); }
    template<typename T>
    struct Fed
    {
        T& t;
        void feed(const Packet& p) { t.feed(up(p)); }
        void feed(const uint8_t* b, size_t n)
        {
            if constexpr (std::is_same_v<T, midi::midi1_byte_stream_parser>)
                t.feed(b, n);
        }
    };
    template<typename T, typename Make, typename Use>
    static void copy(std::unique_ptr<T>& to, const std::unique_ptr<T>& from, unsigned how, Make make, Use use)
    {
        if (!from)
            return;
        switch (how)
        {
        case 0: to = std::make_unique<T>(*from); break;
        case 1: {
            to = std::make_unique<T>(make());
            if constexpr (std::is_same_v<T, midi::midi1_byte_stream_parser>)
                use(*to);
            else
            {
                Fed<T> fed{ *to };
                use(fed);
            }
            *to = *from;
            break;
        }
        default: {
            T tmp(*from);
            to = std::make_unique<T>(std::move(tmp));
        }
        }
    }

    void out(const std::string& s)
    {
        log.back() += s;
        log.back() += ' ';
        if (nesting)
            nesting->emitted(*this);
    }
    void step(const Op& op)
    {
        Machine* const before = *owner;
        *owner                = this;
        busy                  = true;
        log.emplace_back();
        if (op.on)
            op.on(*this);
        else
        {
            const auto r = op.call([this](const universal_packet& u) { out(show_packet(u)); });
            log.back() += r;
        }
        busy   = false;
        *owner = before;
    }
};

template<typename T>
std::string text(const T& v)
{
    std::ostringstream os;
    os << std::setprecision(17) << v;
    return os.str();
}
template<typename M>
std::string optional_packet(const M& m)
{
    return m ? show_packet(*m) : std::string("none");
}
std::string sx_text(const midi::sysex7& m) { return show_sx(m.manufacturerID, sx_data(m)); }

//! any of the library's free functions
Op gen_call(Src& s)
{
    Op   op;
    auto set = [&](const char* w, auto fn) {
        op.what = w;
        op.call = fn;
    };
    switch (s.draw(17))
    {
    case 0: {
        auto sx = std::make_shared<midi::sysex7>(make_sx<midi::sysex7>(gen_manufacturer(s), s.byte_vec(s.size(60), 7)));
        const auto g = midi::group_t(s.draw(15));
        set("send_sysex7", [=](const Emit& e) { midi::send_sysex7(*sx, g, [&](const auto& p) { e(p); }); return std::string(); });
        break;
    }
    case 1: {
        auto sx = std::make_shared<midi::sysex8>(make_sx<midi::sysex8>(gen_manufacturer(s), s.byte_vec(s.size(100), 8)));
        const auto g = midi::group_t(s.draw(15));
        const auto id = uint8_t(s.bits(8));
        set("send_sysex8", [=](const Emit& e) { midi::send_sysex8(*sx, id, g, [&](const auto& p) { e(p); }); return std::string(); });
        break;
    }
    case 2: {
        const auto t = gen_text(s, s.size(98));
        set("send_endpoint_name", [=](const Emit& e) { midi::send_endpoint_name(t, [&](const auto& p) { e(p); }); return std::string(); });
        break;
    }
    case 3: {
        const auto t = gen_text(s, s.draw(16));
        set("send_product_instance_id", [=](const Emit& e) { midi::send_product_instance_id(t, [&](const auto& p) { e(p); }); return std::string(); });
        break;
    }
    case 4: {
        const auto t = gen_text(s, s.size(91));
        const auto fb = uint8_t(s.draw(31));
        set("send_function_block_name", [=](const Emit& e) { midi::send_function_block_name(fb, t, [&](const auto& p) { e(p); }); return std::string(); });
        break;
    }
    case 5: {
        auto sx = std::make_shared<midi::sysex7>(make_sx<midi::sysex7>(gen_manufacturer(s), s.byte_vec(s.size(60), 7)));
        const auto g = midi::group_t(s.draw(15));
        set("as_sysex7_packets", [=](const Emit&) {
            std::string r;
            for (auto& p : midi::as_sysex7_packets(*sx, g))
                r += show_packet(p);
            return r;
        });
        break;
    }
    case 6: {
        const uint32_t w0 = 0x20800000u | (uint32_t(s.draw(0x6F)) << 16) | (uint32_t(s.draw(15)) << 24) | (uint32_t(s.bits(7)) << 8) | uint32_t(s.bits(7));
        set("as_midi2_channel_voice_message", [=](const Emit&) {
            const universal_packet p(w0);
            const auto             v = midi::as_midi1_channel_voice_message_view(p);
            return v ? optional_packet(midi::as_midi2_channel_voice_message(*v)) : std::string("no view");
        });
        break;
    }
    case 7: {
        const uint32_t w0 = 0x40000000u | (uint32_t(s.bits(8)) << 16) | (uint32_t(s.draw(15)) << 24) | (uint32_t(s.bits(7)) << 8) | uint32_t(s.draw(3)), w1 = uint32_t(s.u32());
        set("as_midi1_channel_voice_message", [=](const Emit&) {
            const universal_packet p(w0, w1);
            const auto             v = midi::as_midi2_channel_voice_message_view(p);
            return v ? optional_packet(midi::as_midi1_channel_voice_message(*v)) : std::string("no view");
        });
        break;
    }
    case 8: {
        const universal_packet p(uint32_t(s.u32()), uint32_t(s.u32()), uint32_t(s.u32()), uint32_t(s.u32()));
        set("text form", [=](const Emit&) {
            std::ostringstream os;
            os << p;
            universal_packet   q;
            std::istringstream is(os.str());
            is >> q;
            return os.str() + show_packet(q);
        });
        break;
    }
    case 9: {
        universal_packet p(uint32_t(s.pick<uint32_t>({ 1, 2, 3 })) << 28 | uint32_t(s.bits(28)), uint32_t(s.u32()));
        set("to_midi1_byte_stream", [=](const Emit&) {
            uint8_t    b[8]{};
            const auto n = midi::to_midi1_byte_stream(p, b);
            return std::to_string(n) + ": " + hex(b, n <= 8 ? n : 8);
        });
        break;
    }
    case 10: {
        const auto p = universal_packet(0xD0000000u | uint32_t(s.bits(28)), uint32_t(s.u32()), uint32_t(s.u32()), uint32_t(s.u32()));
        set("flex text", [=](const Emit&) { return midi::flex_data_message::payload_as_string(p); });
        break;
    }
    case 11: {
        const auto src = uint32_t(s.bits(28)), dst = uint32_t(s.bits(28)), max = uint32_t(s.bits(28));
        const auto id = gen_identity(s);
        const auto cat = uint8_t(s.bits(7));
        set("discovery inquiry and reply", [=](const Emit&) {
            return sx_text(midi::ci::make_discovery_inquiry(src, id, cat, max)) + sx_text(midi::ci::make_discovery_reply(src, dst, id, cat, max, 0));
        });
        break;
    }
    case 12: {
        const auto src = uint32_t(s.bits(28)), dst = uint32_t(s.bits(28));
        const auto text = gen_text(s, s.size(60));
        const auto st = uint8_t(s.bits(7));
        set("NAK", [=](const Emit&) { uint8_t det[5]{ 1, 2, 3, 4, st }; return sx_text(midi::ci::make_nak_message(src, dst, 0x7F, 0x10, st, 0, det, text)); });
        break;
    }
    case 13: {
        const auto src = uint32_t(s.bits(28)), dst = uint32_t(s.bits(28));
        const auto res = gen_text(s, s.size(40)), key = gen_text(s, s.draw(8)), val = s.chance(1, 2) ? gen_text(s, s.size(20)) : std::to_string(s.draw(99999));
        const auto rid = uint8_t(s.bits(7));
        set("get property data", [=](const Emit&) {
            return sx_text(midi::ci::make_get_property_data_inquiry(src, dst, res, { { key, val } }, rid)) + sx_text(midi::ci::make_get_property_data_inquiry(src, dst, res, rid));
        });
        break;
    }
    case 14: {
        const auto d = s.byte_vec(s.size(60), 7);
        const auto man = s.chance(1, 2) ? 0x7E0000u : 0x7F0000u;
        const auto sub = uint8_t(s.bits(7)), dev = uint8_t(s.bits(7));
        set("inspect universal SysEx", [=](const Emit&) {
            midi::sysex7 m(man);
            m.data.push_back(dev);
            m.data.push_back(0x0D);
            m.data.push_back(sub);
            m.data.insert(m.data.end(), d.begin(), d.end());
            std::string r;
            for (unsigned k = 0; k < k_count; ++k)
                try
                {
                    r += ask(k, m) ? '1' : '0';
                }
                catch (const Violated&)
                {
                    r += 'x'; // the same alone and next to others
                }
            return r;
        });
        break;
    }
    case 15: {
        const auto a = uint32_t(s.u32()), b = uint32_t(s.u32());
        const auto x = double(s.bits(53)) / double(1ull << 53) * 130;
        set("pitch arithmetic", [=](const Emit&) {
            const midi::pitch_7_25      p(x);
            const midi::pitch_increment i{ midi::pitch_bend(a) * midi::pitch_bend_sensitivity(double(b & 31)) };
            return text((p + i).value) + " " + text(p.as_double()) + " " + text(i.value) + " " + text((midi::controller_value(a) + midi::controller_increment(int32_t(b))).value);
        });
        break;
    }
    case 16: {
        const auto a = uint32_t(s.u32());
        set("scaling", [=](const Emit&) {
            return text(midi::upsample_7_to_16bit(a & 0x7F)) + " " + text(midi::upsample_7_to_32bit(a & 0x7F)) + " " + text(midi::upsample_14_to_32bit(a & 0x3FFF)) + " " +
                   text(unsigned(midi::downsample_32_to_7bit(a))) + " " + text(midi::downsample_32_to_14bit(a)) + " " + text(midi::upsample_x_to_ybit(a & 0x1FF, 9, 20));
        });
        break;
    }
    default: {
        const auto a = uint32_t(s.u32()), v7 = uint32_t(s.bits(7));
        const auto u = uint16_t(s.bits(16));
        set("value types", [=](const Emit&) {
            (void) midi::jr_clock::now();
            return text(midi::velocity(midi::uint7_t(v7)).value) + " " + text(midi::velocity(u).as_double()) + " " + text(midi::pitch_bend(a).as_float()) + " " +
                   text(midi::controller_value(a).as_double());
        });
        break;
    }
    }
    return op;
}

//! a history of operations for one object of the given kind
std::vector<Op> gen_ops(Src& s, ObjKind kind, size_t cap)
{
    std::vector<Op> r;
    auto            add = [&](std::string w, std::function<void(Machine&)> f) { r.push_back({ std::move(w), std::move(f), {} }); };
    int64_t         at  = 0;
    uint16_t        ts  = 0;
    size_t          n   = 0;
    while (s.more(n, 5, 40) && r.size() < cap)
    {
        const bool control = s.chance(1, 10);
        switch (kind)
        {
        case collector7:
        case collector8: {
            const bool eight = kind == collector8;
            if (control)
            {
                if (s.chance(1, 2))
                    add("reset", [=](Machine& m) { eight ? m.c8->reset() : m.c7->reset(); });
                else
                {
                    const auto lim = s.draw(30);
                    add("limit " + std::to_string(lim), [=](Machine& m) { eight ? m.c8->set_max_sysex_data_size(lim) : m.c7->set_max_sysex_data_size(lim); });
                }
                break;
            }
            const auto sid  = uint8_t(s.draw(3));
            const auto grp  = unsigned(s.draw(15));
            const auto man  = gen_manufacturer(s);
            const auto data = s.byte_vec(s.size(40), eight ? 8 : 7);
            const bool full = s.chance(1, 2);
            auto       ps   = eight ? split(s, wire8(man, data), 13, full, [&](unsigned st, const uint8_t* d, size_t k) { return pkt8(grp, sid, st, d, k); })
                                    : split(s, wire7(man, data), 6, full, [&](unsigned st, const uint8_t* d, size_t k) { return pkt7(grp, st, d, k); });
            inject_faults(s, ps, eight ? 5 : 3);
            for (auto& p : ps)
            {
                const auto u = Machine::up(p);
                add("feed " + show_packet(u), [=](Machine& m) {
                    eight ? m.c8->feed(u) : m.c7->feed(u);
                    if (eight)
                        m.log.back() += " id " + std::to_string(m.c8->stream_id());
                });
            }
            break;
        }
        case parser_packets:
        case parser_sysex: {
            if (control)
            {
                switch (s.draw(2))
                {
                case 0: add("reset", [](Machine& m) { m.p->reset(); }); break;
                case 1: {
                    const auto g = midi::group_t(s.draw(15));
                    add("group " + std::to_string(g), [=](Machine& m) { m.p->set_group(g); m.log.back() += std::to_string(m.p->group()); });
                    break;
                }
                default: {
                    const bool on = s.draw(1);
                    add(on ? "enable" : "disable", [=](Machine& m) { m.p->enable_callbacks(on); });
                }
                }
                break;
            }
            const auto e = gen_element(s);
            const auto c = 1 + s.draw(8); // fed in pieces
            for (size_t i = 0; i < e.size(); i += c)
            {
                const std::vector<uint8_t> part(e.begin() + long(i), e.begin() + long(std::min(e.size(), i + c)));
                add("feed " + hexv(part), [=](Machine& m) { m.p->feed(part.data(), part.size()); });
            }
            break;
        }
        case follower: {
            if (control)
            {
                if (s.chance(1, 3))
                    add("reset", [](Machine& m) { m.f->reset(); });
                else
                {
                    const auto o = int64_t(s.draw(30000000));
                    add("offset", [=](Machine& m) { m.f->set_security_offset(nanoseconds(o)); });
                }
                break;
            }
            const auto gap = int64_t(s.chance(1, 2) ? s.draw(2000000) : s.draw(2500) * 1000000);
            at += gap;
            ts = s.chance(3, 4) ? uint16_t(ts + gap / 32000 + s.draw(100)) : uint16_t(s.bits(16));
            const bool clock = s.chance(1, 2);
            const auto t     = at;
            const auto stamp = midi::jr_timestamp_t(ts);
            add((clock ? "clock " : "message ") + std::to_string(ts) + " at " + std::to_string(t), [=](Machine& m) {
                if (clock)
                    m.f->process_clock(m.base + nanoseconds(t), stamp);
                else
                    m.log.back() += std::to_string((m.f->schedule_message(m.base + nanoseconds(t), stamp) - m.base).count());
                m.log.back() += " " + std::to_string(m.f->jitter().count()) + " " + std::to_string(m.f->security_offset().count());
            });
            break;
        }
        default: r.push_back(gen_call(s)); break;
        }
    }
    return r;
}

struct Actor
{
    ObjKind                     kind;
    std::vector<Op>          ops;
    std::vector<std::string> solo;
};

std::vector<std::string> run_alone(ObjKind k, tp base, const std::vector<Op>& ops)
{
    Machine m(k, base);
    for (auto& o : ops)
        m.step(o);
    return m.log;
}

void same_log(const Actor& a, const std::vector<std::string>& got, const char* how)
{
    for (size_t i = 0; i < a.solo.size(); ++i)
    {
        REQUIRE_MSG(i < got.size(), kind_names[a.kind] << " " << how << ": missing operation " << i);
        REQUIRE_MSG(got[i] == a.solo[i], kind_names[a.kind] << " " << how << ": operation " << i << " (" << a.ops[i].what << ") gives '" << got[i] << "', alone '" << a.solo[i] << "'");
    }
}

std::vector<Actor> gen_actors(Src& s, size_t max, size_t cap, tp base)
{
    std::vector<Actor> r(2 + s.draw(max - 2));
    for (auto& a : r)
    {
        a.kind = ObjKind(s.draw(num_kinds - 1));
        a.ops  = gen_ops(s, a.kind, cap);
    }
    if (r.size() > 1 && s.chance(1, 3))
        r[1] = r[0]; // the very same work twice
    for (auto& a : r)
        a.solo = run_alone(a.kind, base, a.ops);
    s.note([&](auto& o) {
        for (size_t i = 0; i < r.size(); ++i)
            o << " object " << i << ": " << kind_names[r[i].kind] << ", " << r[i].ops.size() << " operations\n";
    });
    return r;
}

tp far_base(Src& s) { return F::system_clock::now() + std::chrono::hours(1 + s.draw(2000)); }

//! many objects used alternately, also from inside each other's callbacks
void side_by_side(Src& s)
{
    const tp base   = far_base(s);
    auto     actors = gen_actors(s, 6, 200, base);

    struct Scheduler : Nesting
    {
        Src&                                  s;
        std::vector<Actor>&                   actors;
        std::vector<std::unique_ptr<Machine>> ms;
        bool                                  nest;
        size_t                                depth{ 0 }, nested{ 0 }, switches{ 0 }, last{ 0 };
        Scheduler(Src& src, std::vector<Actor>& a, tp base)
          : s(src)
          , actors(a)
          , nest(src.chance(1, 2))
        {
            for (auto& x : a)
            {
                ms.push_back(std::make_unique<Machine>(x.kind, base));
                ms.back()->nesting = this;
            }
        }
        bool one()
        {
            std::vector<size_t> ready;
            for (size_t i = 0; i < ms.size(); ++i)
                if (!ms[i]->busy && ms[i]->log.size() < actors[i].ops.size())
                    ready.push_back(i);
            if (ready.empty())
                return false;
            const auto i  = ready[s.draw(ready.size() - 1)];
            const auto& o = actors[i].ops[ms[i]->log.size()];
            s.note([&](auto& os) { os << std::string(depth * 2 + 1, ' ') << i << ": " << o.what << "\n"; });
            switches += i != last;
            last = i;
            ms[i]->step(o);
            return true;
        }
        void emitted(Machine&) override
        {
            if (!nest || depth >= 3 || !s.chance(1, 3))
                return;
            ++depth;
            nested += one();
            --depth;
        }
    } sch(s, actors, base);

    while (sch.one())
        ;
    bool outputs = false;
    for (size_t i = 0; i < actors.size(); ++i)
    {
        same_log(actors[i], sch.ms[i]->log, "used next to others");
        for (auto& l : sch.ms[i]->log)
            outputs |= !l.empty();
    }
    if (sch.nested)
        s.label("nested");
    if (sch.switches > 3 && outputs)
        s.nontrivial();
}

//! a copy continues like the original, and neither knows of the other
//! many objects at once, created and destroyed all the time
void crowd(Src& s)
{
    const tp   base = far_base(s);
    Src        sub; // a case stays a short list of choices
    sub.mode        = Src::random;
    sub.rng.s       = mix(s.draw(0xFFFFFFFFu));
    const auto at_once = s.range<size_t>(1, s.chance(1, 4) ? 300 : 40), total = at_once + s.draw(60);
    const bool same_kind = s.chance(1, 2), round_robin = s.chance(1, 2);
    const auto kind0 = ObjKind(s.draw(num_kinds - 1));
    s.note([&](auto& o) { o << " " << total << " objects, " << at_once << " at a time, " << (same_kind ? kind_names[kind0] : "mixed") << (round_robin ? ", in turns" : ", in any order") << "\n"; });
    struct Live
    {
        Actor                    a;
        std::unique_ptr<Machine> m;
    };
    std::vector<Live> live;
    size_t            made = 0, next = 0;
    bool              outputs = false;
    std::vector<Actor> plan(total);
    for (auto& a : plan)
    {
        sub.recorded.clear();
        a.kind = same_kind ? kind0 : ObjKind(sub.draw(num_kinds - 1));
        a.ops  = gen_ops(sub, a.kind, 1 + sub.draw(12));
        a.solo = run_alone(a.kind, base, a.ops);
    }
    auto make = [&] {
        live.push_back({ plan[made], std::make_unique<Machine>(plan[made].kind, base) });
        ++made;
    };
    while (live.size() < at_once)
        make();
    while (!live.empty())
    {
        sub.recorded.clear();
        const size_t i = round_robin ? next++ % live.size() : sub.draw(live.size() - 1);
        auto&        l = live[i];
        if (l.m->log.size() < l.a.ops.size())
            l.m->step(l.a.ops[l.m->log.size()]);
        if (l.m->log.size() < l.a.ops.size())
            continue;
        same_log(l.a, l.m->log, "used in a crowd");
        for (auto& o : l.m->log)
            outputs |= !o.empty();
        live.erase(live.begin() + long(i));
        if (made < total)
            make();
    }
    if (at_once > 8 && outputs)
        s.nontrivial();
}

void copies(Src& s)
{
    const tp   base  = far_base(s);
    const auto kind  = ObjKind(s.draw(num_kinds - 2));
    const auto ops   = gen_ops(s, kind, 120);
    const auto ops2  = gen_ops(s, kind, 60);
    const auto cut   = s.draw(ops.size());
    const auto how   = unsigned(s.draw(2));
    const bool gone  = s.chance(1, 3); // the original is destroyed
    Actor      a{ kind, ops, run_alone(kind, base, ops) };
    Actor      b{ kind, {}, {} };
    b.ops.assign(ops.begin(), ops.begin() + long(cut));
    b.ops.insert(b.ops.end(), ops2.begin(), ops2.end());
    // the copy does something else; time goes on in a follower
    if (kind == follower)
        b.ops = ops;
    b.solo = run_alone(kind, base, b.ops);
    s.note([&](auto& o) { o << " " << kind_names[kind] << ", copied (" << how << ") after operation " << cut << " of " << ops.size() << "\n"; });
    auto m = std::make_unique<Machine>(kind, base);
    for (size_t i = 0; i < cut; ++i)
        m->step(ops[i]);
    Machine c(*m, how);
    c.log = m->log;
    if (gone)
        m.reset();
    size_t i = cut, k = cut;
    while (k < b.ops.size() || (m && i < ops.size()))
    {
        const bool first = m && i < ops.size() && (k >= b.ops.size() || s.draw(1));
        if (first)
            m->step(ops[i++]);
        else
            c.step(b.ops[k++]);
    }
    if (m)
        same_log(a, m->log, "copied from");
    same_log(b, c.log, "copy");
    if (cut && k > cut)
        s.nontrivial();
}

struct Pool
{
    std::vector<Facet>       fs;
    std::vector<std::string> names;
    void add(const char* id, std::vector<Facet> v)
    {
        for (auto& f : v)
            if (f.quick >= 10000) // leaves out the long sessions and real time
            {
                names.push_back(std::string(id) + "." + f.name);
                fs.push_back(f);
            }
    }
};
const Pool& pool()
{
    static const Pool* p = [] {
        auto* r = new Pool;
        r->add("C01", facets_C01());
        r->add("C02", facets_C02());
        r->add("C03", facets_C03());
        r->add("C04", facets_C04());
        r->add("C05", facets_C05());
        r->add("C06", facets_C06());
        r->add("C07", facets_C07());
        r->add("C08", facets_C08());
        r->add("C09", facets_C09());
        r->add("C10", facets_C10());
        r->add("C11", facets_C11());
        r->add("C12", facets_C12());
        r->add("C13", facets_C13());
        r->add("C14", facets_C14());
        r->add("C15", facets_C15());
        r->add("C16", facets_C16());
        r->add("C17", facets_C17());
        r->add("C18", facets_C18());
        r->add("C19", facets_C19());
        r->add("C20", facets_C20());
        r->add("C21", facets_C21());
        return r;
    }();
    return *p;
}

//! run all bodies at the same time, each in a thread of its own
void concurrently(std::vector<std::function<void()>> bodies)
{
    std::atomic<size_t>      waiting{ bodies.size() };
    std::vector<std::thread> ts;
    for (auto& b : bodies)
        ts.emplace_back([&waiting, b] {
            --waiting;
            while (waiting.load() != 0)
                std::this_thread::yield();
            b();
        });
    for (auto& t : ts)
        t.join();
}

constexpr unsigned repeats = 3;

//! objects in threads of their own
void threads(Src& s)
{
    const tp base   = far_base(s);
    auto     actors = gen_actors(s, 4, 120, base);
    for (unsigned rep = 0; rep < repeats; ++rep)
    {
        std::vector<std::unique_ptr<Machine>> ms;
        std::vector<std::function<void()>>    bodies;
        for (auto& a : actors)
        {
            ms.push_back(std::make_unique<Machine>(a.kind, base));
            Machine* m = ms.back().get();
            bodies.push_back([m, &a] {
                for (auto& o : a.ops)
                    m->step(o);
            });
        }
        concurrently(bodies);
        for (size_t i = 0; i < actors.size(); ++i)
            same_log(actors[i], ms[i]->log, "in a thread next to others");
    }
    size_t working = 0;
    for (auto& a : actors)
        working += a.ops.size() > 2;
    if (working > 1)
        s.nontrivial();
}

//! checks of the other properties in threads of their own: what holds alone holds at the same time
void concurrent_checks(Src& s)
{
    struct Job
    {
        size_t      facet;
        u64         seed;
        std::string failed;
        static void run(Job& j)
        {
            const auto& f = pool().fs[j.facet];
            for (u64 i = 0; i < 4; ++i)
            {
                Src q;
                q.mode  = Src::random;
                q.rng.s = mix(j.seed + i);
                if (f.enumerate)
                    q.choices.push_back(q.rng.upto(f.enumerate - 1));
                try
                {
                    f.fn(q);
                }
                catch (const Violated& v)
                {
                    j.failed = v.msg;
                }
                catch (const std::exception& e)
                {
                    j.failed = e.what();
                }
            }
        }
    };
    std::vector<Job> jobs(2 + s.draw(2));
    for (auto& j : jobs)
    {
        j.facet = s.draw(pool().fs.size() - 1);
        j.seed  = s.draw(0xFFFFFFFFu);
    }
    if (s.chance(1, 2))
        jobs[1].facet = jobs[0].facet;
    bool alone = true;
    for (auto& j : jobs)
    {
        s.note([&](auto& o) { o << " " << pool().names[j.facet] << " seed " << j.seed << "\n"; });
        Job::run(j);
        alone &= j.failed.empty();
        j.failed.clear();
    }
    if (!alone) // broken by itself: not this property's business
    {
        s.label("broken_alone");
        return;
    }
    for (unsigned rep = 0; rep < repeats; ++rep)
    {
        std::vector<std::function<void()>> bodies;
        for (auto& j : jobs)
            bodies.push_back([&j] { Job::run(j); });
        concurrently(bodies);
        for (auto& j : jobs)
            REQUIRE_MSG(j.failed.empty(), pool().names[j.facet] << " holds alone but not next to other threads: " << j.failed);
    }
    s.nontrivial();
}

} // namespace

const char* pbt::g_property = "C23";

std::vector<Facet> pbt::facets()
{
    std::vector<Facet> r{
        { "side_by_side", "the working object changes more than three times and something is produced", side_by_side, 60000, 1500000 },
        { "crowd", "more than eight objects at a time and something is produced", crowd, 1500, 40000 },
        { "copies", "copied after at least one operation and used afterwards", copies, 60000, 1500000 },
        { "threads", "at least two threads with three or more operations", threads, 2500, 60000 },
        { "concurrent_checks", "every case that holds in one thread", concurrent_checks, 2500, 60000 },
    };
    for (auto& f : r)
        f.fuzz = f.quick > 10000; // not the threads and the crowd
    return r;
}
