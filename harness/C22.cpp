// Storage configurations.  Built once per configuration (default, pmr, custom allocator); besides the allocation
// facets below it runs the SysEx-related facets of other properties, whose oracles do not depend on the configuration.
#include "ci.h"

#include <map>
#include <midi/midi1_byte_stream.h>

#if NIMIDI2_PMR_SYSEX_DATA
#include <memory_resource>
#endif

using namespace h;

namespace pbt {
std::vector<Facet> facets_C01();
std::vector<Facet> facets_C02();
std::vector<Facet> facets_C03();
std::vector<Facet> facets_C04();
std::vector<Facet> facets_C05();
std::vector<Facet> facets_C17();
std::vector<Facet> facets_C18();
std::vector<Facet> facets_C19();
std::vector<Facet> facets_C20();
} // namespace pbt

namespace {

//! where allocations come from and go to
struct Ledger
{
    std::map<void*, size_t> live;
    size_t                  allocations{ 0 };
    std::string             error;
    long                    fail_after{ -1 }; // injected allocation failure

    void* get(size_t n)
    {
        if (fail_after == 0)
            throw std::bad_alloc();
        if (fail_after > 0)
            --fail_after;
        ++allocations;
        void* p = std::malloc(n ? n : 1);
        memset(p, 0xA5, n);
        live[p] = n;
        return p;
    }
    void put(void* p, size_t n)
    {
        auto i = live.find(p);
        if (i == live.end())
        {
            error = "memory returned to a place it did not come from";
            return;
        }
        if (i->second != n)
            error = "memory of size " + std::to_string(i->second) + " returned with size " + std::to_string(n);
        live.erase(i);
        std::free(p);
    }
    bool owns(const void* p, size_t n) const
    {
        for (auto& [b, s] : live)
            if (p >= b && static_cast<const char*>(p) + n <= static_cast<const char*>(b) + s)
                return true;
        return false;
    }
    void require_clean() const
    {
        REQUIRE_MSG(error.empty(), error);
    }
    void require_empty() const
    {
        require_clean();
        REQUIRE_MSG(live.empty(), live.size() << " blocks were never returned");
    }
};

#if NIMIDI2_PMR_SYSEX_DATA
struct Resource : std::pmr::memory_resource
{
    Ledger l;
    void*  do_allocate(size_t n, size_t) override { return l.get(n); }
    void   do_deallocate(void* p, size_t n, size_t) override { l.put(p, n); }
    bool   do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
struct Env
{
    Resource                   def, a, b;
    std::pmr::memory_resource* old;
    Env() { old = std::pmr::set_default_resource(&def); }
    ~Env() { std::pmr::set_default_resource(old); }
    Ledger& dflt() { return def.l; }
};
#elif NIMIDI2_CUSTOM_SYSEX_DATA_ALLOCATOR
Ledger* g_ledger;
struct Env
{
    Ledger  l;
    Ledger* old;
    Env() : old(g_ledger) { g_ledger = &l; }
    ~Env() { g_ledger = old; }
    Ledger& dflt() { return l; }
};
#else
struct Env
{
    Ledger  l;
    Ledger& dflt() { return l; }
};
#endif

#if NIMIDI2_PMR_SYSEX_DATA || NIMIDI2_CUSTOM_SYSEX_DATA_ALLOCATOR
constexpr bool tracked = true;
#else
constexpr bool tracked = false;
#endif

template<typename SX>
void stored_in(const SX& sx, const Ledger& l, const char* what)
{
    if (tracked && !sx.data.empty())
        REQUIRE_MSG(l.owns(sx.data.data(), sx.data.capacity()), what << ": data is not stored in the memory it should be in");
}

//! a value-semantics history over several SysEx objects, each with its own memory
void objects(Src& s)
{
    Env env;
    {
        struct Obj
        {
            std::unique_ptr<midi::sysex7> sx;
            uint32_t                      man;
            Bytes                         d;
            Ledger*                       home;
        };
        std::vector<Obj> o;
        auto             check = [&] {
            for (auto& x : o)
            {
                REQUIRE_MSG(sx_is(*x.sx, x.man, x.d), "an object changed: " << show_sx(x.sx->manufacturerID, sx_data(*x.sx)) << ", expected " << show_sx(x.man, x.d));
                stored_in(*x.sx, *x.home, "object");
            }
#if NIMIDI2_PMR_SYSEX_DATA
            env.a.l.require_clean();
            env.b.l.require_clean();
#endif
            env.dflt().require_clean();
        };
        size_t n = 0;
        while (s.more(n, 10, 50))
        {
            const auto op = s.draw(11);
            s.note([&](auto& os) { os << " op " << op << "\n"; });
            if (o.empty() || op <= 2)
            {
                Obj x;
                x.man  = gen_manufacturer(s);
                x.d    = s.byte_vec(s.size(s.chance(1, 10) ? 20000 : 40), 7);
                x.home = &env.dflt();
#if NIMIDI2_PMR_SYSEX_DATA
                const auto which = s.draw(2);
                auto*      mr = which == 0 ? static_cast<Resource*>(&env.def) : which == 1 ? &env.a : &env.b;
                x.home        = &mr->l;
                switch (s.draw(6))
                {
                case 0: x.sx = std::make_unique<midi::sysex7>(x.man, x.d.data(), x.d.size(), mr); break;
                case 1: x.sx = std::make_unique<midi::sysex7>(x.man, x.d, mr); break;
                case 2: x.sx = std::make_unique<midi::sysex7>(x.man, std::pmr::vector<uint8_t>(x.d.begin(), x.d.end(), s.chance(1, 2) ? mr : &env.b), mr); break;
                case 3: x.sx = std::make_unique<midi::sysex7>(x.man, mr); if (!x.d.empty()) x.sx->add_data(x.d.data(), x.d.size()); break;
                case 4: {
                    x.sx = std::make_unique<midi::sysex7>(x.man, x.d.size(), mr);
                    const auto before = mr->l.allocations;
                    for (auto b : x.d)
                        x.sx->add_uint7(b);
                    REQUIRE_MSG(mr->l.allocations == before, "reserved capacity was not used");
                    break;
                }
                case 5: x.d = { 1, 2, 3 }; x.sx = std::make_unique<midi::sysex7>(x.man, std::initializer_list<uint8_t>{ 1, 2, 3 }, mr); break;
                default: x.man = 0; x.d.clear(); x.home = &env.dflt(); x.sx = std::make_unique<midi::sysex7>(); break;
                }
#else
                switch (s.draw(5))
                {
                case 0: x.sx = std::make_unique<midi::sysex7>(x.man, x.d.data(), x.d.size()); break;
                case 1: x.sx = std::make_unique<midi::sysex7>(x.man, midi::sysex::data_type(x.d.begin(), x.d.end())); break;
                case 2: x.sx = std::make_unique<midi::sysex7>(x.man); if (!x.d.empty()) x.sx->add_data(x.d.data(), x.d.size()); break;
                case 3: {
                    x.sx = std::make_unique<midi::sysex7>(x.man, x.d.size());
                    const auto before = env.dflt().allocations;
                    for (auto b : x.d)
                        x.sx->add_uint7(b);
                    REQUIRE_MSG(env.dflt().allocations == before, "reserved capacity was not used");
                    break;
                }
                case 4: x.d = { 1, 2, 3 }; x.sx = std::make_unique<midi::sysex7>(x.man, std::initializer_list<uint8_t>{ 1, 2, 3 }); break;
                default: x.man = 0; x.d.clear(); x.sx = std::make_unique<midi::sysex7>(); break;
                }
#endif
                o.push_back(std::move(x));
                check();
                if (o.size() > 6)
                    o.erase(o.begin());
                continue;
            }
            auto& x = o[s.draw(o.size() - 1)];
            auto& y = o[s.draw(o.size() - 1)];
            switch (op)
            {
            case 3: { // copies live in the default memory
                Obj c{ std::make_unique<midi::sysex7>(*x.sx), x.man, x.d, &env.dflt() };
                o.push_back(std::move(c));
                break;
            }
            case 4: { // moving takes the storage along
                const auto* p = x.sx->data.data();
                Obj         c{ std::make_unique<midi::sysex7>(std::move(*x.sx)), x.man, x.d, x.home };
                if (!c.d.empty())
                    REQUIRE(c.sx->data.data() == p);
                x.d.clear();
                x.man = x.sx->manufacturerID;
                REQUIRE(x.sx->data.empty());
                o.push_back(std::move(c));
                break;
            }
            case 5: *x.sx = *y.sx; x.man = y.man; x.d = y.d; break; // storage stays where it was
            case 6:
                if (&x != &y)
                {
                    *x.sx = std::move(*y.sx);
                    x.man = y.man;
                    x.d   = y.d;
                    y.sx->clear();
                    y.man = 0;
                    y.d.clear();
                }
                break;
            case 7: x.sx->clear(); x.man = 0; x.d.clear(); break;
            case 8: {
                const auto v = uint32_t(s.bits(28));
                x.sx->add_uint28(v);
                put28(x.d, v);
                break;
            }
            case 9: {
                const auto b = s.byte_vec(s.range<size_t>(1, 300), 7);
                x.sx->add_data(b.data(), b.size());
                x.d.insert(x.d.end(), b.begin(), b.end());
                break;
            }
            case 10: REQUIRE_EQ(*x.sx == *y.sx, x.man == y.man && x.d == y.d); break;
            default: o.erase(o.begin() + long(s.draw(o.size() - 1))); break;
            }
            check();
        }
        if (n > 4)
            s.nontrivial();
    }
    env.dflt().require_empty();
#if NIMIDI2_PMR_SYSEX_DATA
    env.a.l.require_empty();
    env.b.l.require_empty();
#endif
}

//! packets, collectors, parser and MIDI-CI: results as specified, memory in the configured place, all of it returned
void pipeline(Src& s)
{
    Env env;
    {
        const auto man   = gen_manufacturer(s);
        const auto d7    = s.byte_vec(s.size(s.chance(1, 10) ? 20000 : 60), 7);
        const auto d8    = s.byte_vec(s.size(s.chance(1, 10) ? 20000 : 60), 8);
        const auto limit = s.chance(1, 2) ? 0 : std::max<size_t>(1, s.size(300));
        const auto times = 1 + s.draw(2);
        unsigned   calls = 0;

        midi::sysex7           kept;
        midi::sysex7_collector c7{ [&](const midi::sysex7& x) {
            ++calls;
            stored_in(x, env.dflt(), "collected SysEx7");
            REQUIRE_MSG(sx_is(x, man, d7), "collected " << show_sx(x.manufacturerID, sx_data(x)) << ", sent " << show_sx(man, d7));
            kept = x;
        } };
        midi::sysex8_collector c8{ [&](const midi::sysex8& x, uint8_t id) {
            ++calls;
            stored_in(x, env.dflt(), "collected SysEx8");
            REQUIRE_EQ(id, 5);
            REQUIRE_MSG(sx_is(x, man, d8), "collected " << show_sx(x.manufacturerID, sx_data(x)) << ", sent " << show_sx(man, d8));
        } };
        c7.set_max_sysex_data_size(limit);
        c8.set_max_sysex_data_size(limit);
        const bool pass7 = !limit || d7.size() <= limit, pass8 = !limit || d8.size() <= limit;
        midi::midi1_byte_stream_parser parser{ [](midi::universal_packet) {}, [&](const midi::sysex7& x) {
            ++calls;
            stored_in(x, env.dflt(), "parsed SysEx");
            REQUIRE_MSG(sx_is(x, man, d7), "parsed " << show_sx(x.manufacturerID, sx_data(x)) << ", sent " << show_sx(man, d7));
        } };
        for (u64 t = 0; t < times; ++t)
        {
            calls = 0;
            for (auto& p : midi::as_sysex7_packets(make_sx<midi::sysex7>(man, d7), 2))
                c7.feed(p);
            REQUIRE_EQ(calls, pass7 ? 1u : 0u);
            calls = 0;
            for (auto& p : midi::as_sysex8_packets(make_sx<midi::sysex8>(man, d8), 5, 2))
                c8.feed(p);
            REQUIRE_EQ(calls, pass8 ? 1u : 0u);
            calls = 0;
            parser.feed(0xF0);
            for (auto b : wire7(man, d7))
                parser.feed(b);
            parser.feed(0xF7);
            REQUIRE_EQ(calls, 1u);
            if (s.chance(1, 3))
            {
                c7.reset();
                c8.reset();
                parser.reset();
            }
        }
        stored_in(kept, env.dflt(), "copy of a collected SysEx7");
        const auto m = midi::ci::make_profile_specific_data_message(1, 2, midi::ci::profile_id{}, d7.data(), d7.size());
        stored_in(m, env.dflt(), "MIDI-CI message");
        inspect(m, true);
        const auto m2 = midi::ci::make_discovery_reply(1, 2, gen_identity(s), 0, 0, 0);
        stored_in(m2, env.dflt(), "MIDI-CI message");
        inspect(m2, true);
        env.dflt().require_clean();
        if (pass7 && d7.size() > 6)
            s.nontrivial();
    }
    env.dflt().require_empty();
#if NIMIDI2_PMR_SYSEX_DATA
    env.a.l.require_empty();
#endif
}

//! memory runs out at any allocation: the failure is reported, nothing leaks, nothing is freed twice, whatever is made of
//! the message's remaining pieces (`one(i)` feeds piece i of `n`) is not a third thing but that message, possibly without
//! the piece that failed, or nothing, and the next message is received as if nothing had happened
template<typename One, typename Reset>
void starve(Src& s, Env& env, unsigned& calls, long& lost, size_t n, One one, Reset reset)
{
    env.dflt().fail_after = long(s.draw(8));
    bool   failed = false;
    size_t i      = 0;
    try
    {
        for (; i < n; ++i)
            one(i);
        s.label("survived");
    }
    catch (const std::bad_alloc&)
    {
        s.label("out of memory");
        s.nontrivial();
        failed = true;
    }
    env.dflt().fail_after = -1;
    env.dflt().require_clean();
    REQUIRE_EQ(calls, failed ? 0u : 1u);
    if (failed && s.chance(1, 2))
    {
        s.label("went on");
        lost = long(i);
        for (++i; i < n; ++i)
            one(i);
        REQUIRE(calls <= 1);
        lost = -1;
        env.dflt().require_clean();
    }
    if (s.chance(1, 2))
        reset();
    calls = 0;
    for (i = 0; i < n; ++i)
        one(i);
    REQUIRE_EQ(calls, 1u);
    env.dflt().require_clean();
}

void exhaustion(Src& s)
{
    Env env;
    if (tracked)
    {
        const auto man   = gen_manufacturer(s);
        const auto kind  = s.draw(3);
        const auto d     = s.byte_vec(s.size(s.chance(1, 4) ? 5000 : 600), kind == 1 ? 8 : 7);
        unsigned   calls = 0;
        long       lost  = -1; // the piece that could not be stored
        s.note([&](auto& o) { o << show_sx(man, d) << " through " << (kind == 0 ? "sysex7_collector" : kind == 1 ? "sysex8_collector" : kind == 2 ? "parser" : "MIDI-CI factories") << "\n"; });
        // `per` bytes in a piece, `head` of them in front of the data
        auto accept = [&](const midi::sysex& x, size_t per, size_t head) {
            ++calls;
            if (sx_is(x, man, d))
                return;
            auto         h    = d;
            const size_t from = lost > 0 ? size_t(lost) * per : 0;
            REQUIRE_MSG(lost > 0 && from >= head, "delivered " << show_sx(x.manufacturerID, sx_data(x)) << (lost < 0 ? "" : " after the start of the message could not be stored"));
            const auto at = std::min(from - head, h.size());
            h.erase(h.begin() + long(at), h.begin() + long(std::min(at + per, h.size())));
            REQUIRE_MSG(sx_is(x, man, h), "delivered " << show_sx(x.manufacturerID, sx_data(x)) << " after piece " << lost << " could not be stored");
        };
        const size_t id = (man & 0xFF0000) ? 1 : 3;
        if (kind == 0)
        {
            const auto wire = midi::as_sysex7_packets(make_sx<midi::sysex7>(man, d), 2);
            env.dflt().require_empty();
            midi::sysex7_collector c{ [&](const midi::sysex7& x) { accept(x, 6, id); } };
            starve(s, env, calls, lost, wire.size(), [&](size_t i) { c.feed(wire[i]); }, [&] { c.reset(); });
        }
        else if (kind == 1)
        {
            const auto wire = midi::as_sysex8_packets(make_sx<midi::sysex8>(man, d), 9, 2);
            env.dflt().require_empty();
            midi::sysex8_collector c{ [&](const midi::sysex8& x, uint8_t sid) { accept(x, 13, 2); REQUIRE_EQ(+sid, 9); } };
            starve(s, env, calls, lost, wire.size(), [&](size_t i) { c.feed(wire[i]); }, [&] { c.reset(); });
        }
        else if (kind == 2)
        {
            std::vector<uint8_t> wire = wire7(man, d);
            wire.insert(wire.begin(), 0xF0);
            wire.push_back(0xF7);
            midi::midi1_byte_stream_parser c{ [](midi::universal_packet) { REQUIRE_MSG(false, "packet instead of SysEx"); },
                                              [&](const midi::sysex7& x) { accept(x, 1, 1 + id); } };
            starve(s, env, calls, lost, wire.size(), [&](size_t i) { c.feed(wire[i]); }, [&] { c.reset(); });
        }
        else
        {
            starve(s, env, calls, lost, 1, [&](size_t) {
                const auto m = midi::ci::make_profile_specific_data_message(1, 2, midi::ci::profile_id{}, d.data(), d.size());
                REQUIRE(midi::ci::profile_specific_data_view::validate(m));
                auto copy = m;
                REQUIRE(copy == m);
                ++calls;
            }, [] {});
        }
    }
    env.dflt().require_empty();
}

} // namespace

#if NIMIDI2_CUSTOM_SYSEX_DATA_ALLOCATOR
midi::sysex::data_allocator::value_type* midi::sysex::data_allocator::allocate(std::size_t n)
{
    if (g_ledger)
        return static_cast<value_type*>(g_ledger->get(n));
    return static_cast<value_type*>(std::malloc(n ? n : 1));
}
void midi::sysex::data_allocator::deallocate(value_type* p, std::size_t n) noexcept
{
    if (g_ledger)
        g_ledger->put(p, n);
    else
        std::free(p);
}
#endif

const char* pbt::g_property = "C22";

std::vector<Facet> pbt::facets()
{
    std::vector<Facet> r{
        { "objects", "at least five operations on SysEx objects", objects, 15000, 300000 },
        { "pipeline", "a message of several packets is collected", pipeline, 15000, 300000 },
        { "exhaustion", "an allocation failed", exhaustion, 15000, 300000 },
    };
    auto add = [&](const char* id, std::vector<Facet> fs) {
        for (auto& f : fs)
        {
            static std::vector<std::string>* names = new std::vector<std::string>; // names live for the program's life
            names->reserve(200);
            names->push_back(std::string(id) + "." + f.name);
            f.name     = names->back().c_str();
            f.quick    = std::min<u64>(f.quick / 10 + 100, 12000);
            f.thorough = f.thorough / 4 + 100;
            if (f.enumerate > f.quick)
                f.enumerate = 0;
            r.push_back(f);
        }
    };
    add("C01", facets_C01());
    add("C02", facets_C02());
    add("C03", facets_C03());
    add("C04", facets_C04());
    add("C05", facets_C05());
    add("C17", facets_C17());
    add("C18", facets_C18());
    add("C19", facets_C19());
    add("C20", facets_C20());
    return r;
}
