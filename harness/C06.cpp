#include "parser.h"

using namespace h;

namespace {

using Bytes = std::vector<uint8_t>;

Bytes gen_stream(Src& s, size_t avg)
{
    Bytes  r;
    size_t n = 0;
    while (s.more(n, unsigned(avg), 60))
    {
        const auto e = gen_element(s);
        r.insert(r.end(), e.begin(), e.end());
    }
    return r;
}

std::vector<Event> decode(const Bytes& b, bool cb, int group)
{
    ParserSut p(0xA5, cb, true, group);
    for (auto x : b)
        p.p->feed(x);
    return p.out;
}

void require_same(const std::vector<Event>& got, const std::vector<Event>& want)
{
    compare(got, want);
}

void chunking(Src& s)
{
    const bool cb    = s.chance(1, 2);
    const int  group = int(s.draw(15));
    const auto b     = gen_stream(s, 10);
    const auto want  = decode(b, cb, group);
    ParserSut  p(uint8_t(s.bits(8)), cb, true, group);
    size_t     pos = 0, chunks = 0;
    s.note([&](auto& o) { o << hexv(b) << "\n chunks:"; });
    while (pos < b.size())
    {
        const size_t n = 1 + s.draw(std::min<size_t>(b.size() - pos, 20) - 1);
        std::unique_ptr<uint8_t[]> buf(new uint8_t[n]);
        std::copy(b.begin() + long(pos), b.begin() + long(pos + n), buf.get());
        s.note([&](auto& o) { o << " " << n; });
        if (s.chance(1, 2))
            p.p->feed(buf.get(), n);
        else
            p.p->feed(buf.get(), buf.get() + n);
        if (s.chance(1, 10))
            p.p->feed(buf.get(), size_t(0)); // empty chunk
        pos += n;
        ++chunks;
    }
    require_same(p.out, want);
    if (chunks > 2 && want.size() > 2)
        s.nontrivial();
}

//! blocks of any size, up to far beyond 64 KiB, with SysEx of that size in them
void big_blocks(Src& s)
{
    const bool   cb    = s.chance(1, 2);
    const int    group = int(s.draw(15));
    const size_t target =
      s.chance(1, 2) ? s.pick<size_t>({ 65535, 65536, 65537, 131072, 200000 }) : 1000 + s.draw(199000);
    // a generated unit, repeated, so that a few choices give a long stream
    Bytes b;
    if (s.chance(1, 2))
    {
        b.push_back(0xF0);
        const auto   mul = uint8_t(1 + s.bits(7));
        const size_t len = s.draw(target);
        for (size_t i = 0; i < len; ++i)
            b.push_back(uint8_t((i * mul + (i >> 7)) & 0x7F));
        b.push_back(0xF7);
    }
    auto unit = gen_stream(s, 8);
    if (unit.empty())
        unit.push_back(0x90);
    while (b.size() < target)
        b.insert(b.end(), unit.begin(), unit.begin() + long(std::min(unit.size(), target - b.size())));
    const auto want = decode(b, cb, group);
    ParserSut  p(uint8_t(s.bits(8)), cb, true, group);
    size_t     pos = 0;
    s.note([&](auto& o) { o << b.size() << " bytes, unit " << hexv(unit) << "\n chunks:"; });
    while (pos < b.size())
    {
        const size_t left = b.size() - pos;
        size_t       n    = s.chance(1, 2)   ? left
                            : s.chance(1, 2) ? s.pick<size_t>({ 1, 255, 256, 4096, 32768, 65535, 65536, 65537 })
                                             : 1 + s.draw(left - 1);
        n = std::min(n, left);
        std::unique_ptr<uint8_t[]> buf(new uint8_t[n]);
        std::copy(b.begin() + long(pos), b.begin() + long(pos + n), buf.get());
        s.note([&](auto& o) { o << " " << n; });
        if (s.chance(1, 2))
            p.p->feed(buf.get(), n);
        else
            p.p->feed(buf.get(), buf.get() + n);
        pos += n;
    }
    REQUIRE_EQ(p.out.size(), want.size());
    require_same(p.out, want);
    if (want.size() > 2)
        s.nontrivial();
}

void realtime(Src& s)
{
    const bool cb    = s.chance(1, 2);
    const int  group = int(s.draw(15));
    const auto b     = gen_stream(s, 6);
    Bytes      base, with; // base: no real time bytes at all
    std::vector<uint8_t> inserted;
    for (auto x : b)
        if (x < 0xF8)
            base.push_back(x);
    for (size_t i = 0; i <= base.size(); ++i)
    {
        if (s.chance(1, 4))
        {
            const uint8_t rt = uint8_t(0xF8 + s.draw(7));
            with.push_back(rt);
            if (rt != 0xF9 && rt != 0xFD)
                inserted.push_back(rt);
        }
        if (i < base.size())
            with.push_back(base[i]);
    }
    s.note([&](auto& o) { o << hexv(with) << (cb ? " callback" : " packets") << "\n"; });
    const auto want = decode(base, cb, group);
    const auto all  = decode(with, cb, group);
    std::vector<Event> rest;
    std::vector<Event> rt;
    for (auto& e : all)
        ((!e.sysex && (e.w[0] >> 28) == 1 && ((e.w[0] >> 16) & 0xFF) >= 0xF8) ? rt : rest).push_back(e);
    require_same(rest, want);
    REQUIRE_EQ(rt.size(), inserted.size());
    for (size_t i = 0; i < rt.size(); ++i)
    {
        REQUIRE_EQ(rt[i].w[0], 0x10000000u | (uint32_t(group) << 24) | (uint32_t(inserted[i]) << 16));
        REQUIRE_EQ(rt[i].w[1], 0u);
    }
    // immediacy: a real time byte is delivered by the very call that feeds it
    ParserSut p(0x5A, cb, true, group);
    for (auto x : with)
    {
        p.out.clear();
        p.p->feed(x);
        if (x >= 0xF8)
            REQUIRE_EQ(p.out.size(), size_t(x != 0xF9 && x != 0xFD));
    }
    if (inserted.size() > 1 && want.size() > 1)
        s.nontrivial();
}

void garbage_prefix(Src& s)
{
    const bool cb    = s.chance(1, 2);
    const int  group = int(s.draw(15));
    Bytes      g;
    if (s.chance(1, 2))
        g = gen_stream(s, 3);
    else
        for (size_t n = s.draw(40); n; --n)
            g.push_back(uint8_t(s.bits(8)));
    Bytes t;
    t.push_back(s.chance(1, 3) ? 0xF0 : uint8_t(0x80 + s.draw(0x76)));
    if (t[0] == 0xF7)
        t[0] = 0xF6;
    const auto rest = gen_stream(s, 5);
    for (size_t n = s.draw(12); n; --n)
        t.push_back(uint8_t(s.bits(7)));
    t.insert(t.end(), rest.begin(), rest.end());
    s.note([&](auto& o) { o << hexv(g) << " | " << hexv(t) << (cb ? " callback" : " packets") << "\n"; });
    const auto want = decode(t, cb, group);
    ParserSut  p(uint8_t(s.bits(8)), cb, true, group);
    for (auto x : g)
        p.p->feed(x);
    if (s.chance(1, 4)) // a reset is as good as a fresh parser, even without a leading status byte
    {
        p.p->reset();
        t.erase(t.begin());
        const auto w2 = decode(t, cb, group);
        p.out.clear();
        p.p->feed(t.data(), t.size());
        require_same(p.out, w2);
        s.label("reset");
    }
    else
    {
        p.out.clear();
        p.p->feed(t.data(), t.size());
        require_same(p.out, want);
    }
    if (!g.empty() && want.size() > 1)
        s.nontrivial();
}

void running_status(Src& s)
{
    const int group = int(s.draw(15));
    Bytes     full, run;
    size_t    n = 0, saved = 0;
    uint8_t   last = 0;
    while (s.more(n, 12, 60))
    {
        uint8_t st = last && s.chance(2, 3) ? last : uint8_t(0x80 + s.draw(0x6F));
        if (s.chance(1, 12))
        {
            const uint8_t rt = s.pick<uint8_t>({ 0xF8, 0xFA, 0xFB, 0xFC, 0xFE, 0xFF });
            full.push_back(rt);
            run.push_back(rt);
        }
        full.push_back(st);
        if (st != last)
            run.push_back(st);
        else
            ++saved;
        for (unsigned i = 0; i < ParserModel::num_args(st); ++i)
        {
            const auto d = uint8_t(s.bits(7));
            full.push_back(d);
            run.push_back(d);
        }
        last = st;
    }
    s.note([&](auto& o) { o << hexv(run) << "  ==  " << hexv(full) << "\n"; });
    require_same(decode(run, false, group), decode(full, false, group));
    size_t count = 0;
    for (auto& e : decode(run, true, group))
        count += (e.w[0] >> 28) == 2;
    REQUIRE_EQ(count, n);
    if (saved)
        s.nontrivial();
}

constexpr unsigned num_long = 24;
//! a parser that has seen a very long history decodes like a fresh one
void aged(Src& s)
{
    const auto k     = s.draw(num_long - 1);
    const bool cb    = k & 1;
    const int  group = int(s.draw(15));
    ParserSut  p(uint8_t(s.bits(8)), cb, true, group);
    long_run(s, 10000, [&](Src& r, size_t i) {
        Bytes g;
        for (size_t n = r.draw(20); n; --n)
            g.push_back(uint8_t(r.bits(8)));
        Bytes t;
        t.push_back(r.chance(1, 3) ? 0xF0 : uint8_t(0x80 + r.draw(0x6F)));
        for (size_t n = r.draw(12); n; --n)
            t.push_back(uint8_t(r.bits(7)));
        if (t[0] == 0xF0)
            t.push_back(0xF7);
        r.note([&](auto& o) { o << hexv(g) << " | " << hexv(t) << "\n"; });
        for (auto x : g)
            p.p->feed(x);
        p.out.clear();
        p.p->feed(t.data(), t.size());
        require_same(p.out, decode(t, cb, group));
        if (i > 300)
            r.nontrivial();
    });
}

//! very many messages under one running status, with real-time bytes anywhere
void long_running(Src& s)
{
    s.draw(num_long - 1);
    const bool cb = s.chance(1, 2);
    const auto st = uint8_t(0x80 + s.draw(0x6F));
    ParserSut  run(0xA5, cb, true, 3), full(0x5A, cb, true, 3);
    run.p->feed(st);
    long_run(s, 80000, [&](Src& r, size_t i) {
        full.p->feed(st);
        for (unsigned a = 0; a < ParserModel::num_args(st); ++a)
        {
            const auto d = uint8_t(r.bits(7));
            if (r.chance(1, 20))
            {
                run.p->feed(0xF8);
                full.p->feed(0xF8);
            }
            run.p->feed(d);
            full.p->feed(d);
        }
        REQUIRE_MSG(!full.out.empty(), "message " << i << " missing");
        require_same(run.out, full.out);
        run.out.clear();
        full.out.clear();
        if (i > 300)
            r.nontrivial();
    });
}

} // namespace

const char* pbt::g_property = "C06";
std::vector<Facet> pbt::facets()
{
    return {
        { "chunking", "more than two chunks and messages", chunking, 80000, 1500000 },
        { "big_blocks", "more than two messages in streams of 1 000 to 200 000 bytes", big_blocks, 400, 8000 },
        { "aged", "more than 300 rounds of garbage and messages through one parser", aged, num_long, num_long * 8, num_long },
        { "long_running", "more than 300 messages under one running status", long_running, num_long, num_long * 8, num_long },
        { "realtime", "more than one real-time byte inserted into a stream with messages", realtime, 80000, 1500000 },
        { "garbage_prefix", "non-empty garbage followed by a stream with messages", garbage_prefix, 80000, 1500000 },
        { "running_status", "at least one status byte saved", running_status, 80000, 1500000 },
    };
}
