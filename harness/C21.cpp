#include "common.h"
#include <midi/jitter_reduction_timestamps.h>
#include <midi/utility_message.h>

#include <thread>

using namespace h;
using F  = midi::jr_clock_follower;
using tp = F::time_point;
using du = F::duration;
using std::chrono::nanoseconds;

namespace {

constexpr int64_t TICK = 32000; // ns

int64_t ns(du d) { return std::chrono::duration_cast<nanoseconds>(d).count(); }

//! durations from "immediately" to beyond several wraps of the timestamp
int64_t gen_gap(Src& s)
{
    switch (s.draw(5))
    {
    case 0: return 0;
    case 1: return int64_t(s.draw(5)) * TICK;
    case 2: return int64_t(s.draw(2000000));          // < 2 ms
    case 3: return int64_t(s.draw(200000000));        // < 200 ms
    case 4: return int64_t(s.draw(2500)) * 1000000;   // < 2.5 s: around the wrap
    default: return int64_t(s.draw(20)) * 1000000000;
    }
}

//! any history of clocks and messages: order is preserved
void any_history(Src& s)
{
    Dirty<F> f(uint8_t(s.draw(1) ? 0xA5 : 0x5A));
    const tp base = F::system_clock::now() + std::chrono::hours(1 + s.draw(2000));
    tp       now  = base;
    if (s.chance(1, 4))
        f->set_security_offset(nanoseconds(s.draw(30000000)));
    bool     have = false;
    tp       last{};
    size_t   n = 0, msgs = 0, clocks = 0;
    uint16_t ts    = uint16_t(s.bits(16));
    du       off   = f->security_offset();
    while (s.more(n, 14, 120))
    {
        const auto gap = gen_gap(s);
        now += nanoseconds(gap);
        switch (s.draw(3))
        {
        case 0: ts = uint16_t(ts + gap / TICK); break;                                // ideal
        case 1: ts = uint16_t(ts + (gap / TICK) * (900 + s.draw(200)) / 1000); break; // drift
        case 2: ts = uint16_t(ts + s.draw(400) - 200); break;                         // reordered / jittered
        default: ts = uint16_t(s.bits(16));
        }
        if (s.chance(1, 2))
        {
            s.note([&](auto& o) { o << "+" << gap << "ns clock " << ts << "\n"; });
            f->process_clock(now, midi::jr_timestamp_t(ts));
            ++clocks;
        }
        else
        {
            const tp r = f->schedule_message(now, midi::jr_timestamp_t(ts));
            s.note([&](auto& o) { o << "+" << gap << "ns message " << ts << " -> " << ns(r - base) << "\n"; });
            REQUIRE_MSG(!have || r >= last, "message " << msgs << " scheduled " << ns(last - r) << " ns before the previous one");
            REQUIRE_MSG(r >= now - std::chrono::hours(24) && r <= now + std::chrono::hours(24), "scheduled far away: " << ns(r - now) << " ns from its arrival");
            last = r;
            have = true;
            ++msgs;
        }
        REQUIRE_MSG(f->security_offset() >= off, "security offset shrinks");
        off = f->security_offset();
        REQUIRE(f->jitter() >= du(0));
        REQUIRE_MSG(ns(off) + 1 >= ns(f->jitter()) * 12 / 10, "security offset does not cover the jitter");
        if (s.chance(1, 60))
        { // a reset ends the history
            f->reset();
            have = false;
            off  = f->security_offset();
            s.note([&](auto& o) { o << "reset\n"; });
        }
    }
    if (msgs > 1 && clocks > 1)
        s.nontrivial();
}

//! realistic transport: FIFO, jitter, well-behaved sender
struct Jittery
{
    F        f;
    const tp base = F::system_clock::now() + std::chrono::hours(1);
    int64_t  send = 0;                               // sender time, ns, on the tick grid
    int64_t  arrive = 0;
    uint16_t start_ts;
    int64_t  max_jitter;
    int64_t  minlat = -1, maxlat = -1, since_clock = 0, last_clock_arrival = 0;
    bool     have = false;
    int64_t  last = 0, last_off = 0;
    size_t   msgs = 0;

    explicit Jittery(Src& s)
      : start_ts(uint16_t(s.bits(16)))
      , max_jitter(int64_t(s.pick<uint64_t>({ 0, 100000, 5000000, 300000000 })))
    {
    }
    void step(Src& s)
    {
        int64_t step = int64_t(s.chance(1, 8) ? s.draw(60000) : s.draw(3000)) * TICK;
        const bool clock = minlat < 0 ? !s.chance(1, 3) : s.chance(1, 2);
        if (since_clock + step > 65535 * TICK)
            step = 65535 * TICK - since_clock; // the protocol requires clocks at least every wrap
        send += step;
        since_clock += step;
        arrive = std::max(arrive, send + 1000000 + (max_jitter ? int64_t(s.draw(uint64_t(max_jitter))) : 0));
        const auto ts = midi::jr_timestamp_t(uint16_t(start_ts + send / TICK));
        const tp   at = base + nanoseconds(arrive);
        if (clock)
        {
            s.note([&](auto& o) { o << "clock sent " << send << " received " << arrive << "\n"; });
            f.process_clock(at, ts);
            minlat      = minlat < 0 ? arrive - send : std::min(minlat, arrive - send);
            maxlat      = std::max(maxlat, arrive - send);
            since_clock = 0;
            last_clock_arrival = arrive;
            REQUIRE_EQ(ns(f.jitter()), maxlat - minlat); // the spread of the clock delays
            REQUIRE_MSG(ns(f.security_offset()) >= std::max(int64_t(2000000), (maxlat - minlat) * 12 / 10), "security offset " << ns(f.security_offset()) << " ns does not cover the jitter");
        }
        else
        {
            const int64_t r   = ns(f.schedule_message(at, ts) - base);
            const int64_t off = ns(f.security_offset());
            s.note([&](auto& o) { o << "message sent " << send << " received " << arrive << " scheduled " << r << "\n"; });
            REQUIRE_MSG(!have || r >= last, "scheduled " << last - r << " ns before the previous message");
            if (minlat >= 0)
            {
                const int64_t ideal = send + minlat;
                REQUIRE_MSG(r >= ideal + off, "scheduled " << ideal + off - r << " ns too early");
                const int64_t latest = std::max({ ideal, last_clock_arrival, have ? last - last_off : ideal });
                REQUIRE_MSG(r <= latest + off, "scheduled " << r - latest - off << " ns too late");
            }
            else
                REQUIRE_EQ(r, arrive + off); // no reference yet
            last     = r;
            last_off = off;
            have     = true;
            ++msgs;
        }
    }
};

void jittery(Src& s)
{
    Jittery j(s);
    size_t  n = 0;
    while (s.more(n, 14, 120))
        j.step(s);
    if (j.msgs > 1 && j.minlat >= 0)
        s.nontrivial();
}

constexpr unsigned num_long = 24;
//! the same over thousands of clocks and messages
void jittery_session(Src& s)
{
    s.draw(num_long - 1);
    Jittery j(s);
    long_run(s, 60000, [&](Src& r, size_t i) {
        j.step(r);
        if (i > 1000)
            r.nontrivial();
    });
}

//! steady sender, constant delay: exact
void steady(Src& s)
{
    Dirty<F>      f(uint8_t(0xA5));
    const tp      base  = F::system_clock::now() + std::chrono::hours(1);
    const int64_t delay = int64_t(s.chance(1, 2) ? s.draw(50000000) : s.draw(50) * 1000000);
    int64_t       off   = 2000000;
    if (s.chance(1, 2))
    {
        off = int64_t(s.draw(50000000));
        f->set_security_offset(nanoseconds(off));
    }
    const auto start_ts = uint16_t(s.bits(16));
    int64_t    t = 0, since = 0;
    size_t     n = 0, msgs = 0;
    s.note([&](auto& o) { o << "delay " << delay << " offset " << off << " first timestamp " << start_ts << "\n"; });
    f->process_clock(base + nanoseconds(delay), midi::jr_timestamp_t(start_ts));
    while (s.more(n, 14, 150))
    {
        int64_t step = int64_t(s.chance(1, 4) ? s.draw(65535) : s.draw(3000));
        if (since + step > 65535)
            step = 65535 - since;
        t += step;
        since += step;
        const auto ts = midi::jr_timestamp_t(uint16_t(start_ts + t));
        const tp   at = base + nanoseconds(t * TICK + delay);
        if (since == 65535 || s.chance(1, 2))
        {
            s.note([&](auto& o) { o << "clock at tick " << t << "\n"; });
            f->process_clock(at, ts);
            since = 0;
        }
        else
        {
            s.note([&](auto& o) { o << "message at tick " << t << "\n"; });
            const tp r = f->schedule_message(at, ts);
            REQUIRE_EQ(ns(r - base), t * TICK + delay + off);
            ++msgs;
        }
        REQUIRE_EQ(ns(f->security_offset()), off);
        REQUIRE_EQ(ns(f->jitter()), int64_t(0));
    }
    if (msgs && t > 65535)
        s.label("wrapped");
    if (msgs)
        s.nontrivial();
}

//! a steady sender over hours: no error may accumulate
void session(Src& s)
{
    const auto    k     = s.draw(num_long - 1);
    Dirty<F>      f(uint8_t(0x5A));
    const tp      base  = F::system_clock::now() + std::chrono::hours(1);
    const int64_t delay = int64_t(s.draw(50000000)), off = 2000000;
    const auto    start_ts = uint16_t(s.bits(16));
    int64_t       t = 0, since = 0;
    f->process_clock(base + nanoseconds(delay), midi::jr_timestamp_t(start_ts));
    long_run(s, 120000, [&](Src& r, size_t i) {
        int64_t step = int64_t((k & 1) ? 6250 : (k & 2) ? r.draw(200) : r.draw(20000));
        step         = std::min(step, 65535 - since);
        t += step;
        since += step;
        const auto ts = midi::jr_timestamp_t(uint16_t(start_ts + t));
        const tp   at = base + nanoseconds(t * TICK + delay);
        r.note([&](auto& o) { o << "tick " << t << "\n"; });
        if (since == 65535 || r.chance(1, 2))
        {
            f->process_clock(at, ts);
            since = 0;
        }
        else
            REQUIRE_EQ(ns(f->schedule_message(at, ts) - base), t * TICK + delay + off);
        REQUIRE_EQ(ns(f->security_offset()), off);
        REQUIRE_EQ(ns(f->jitter()), int64_t(0));
        if (i > 1000)
            r.nontrivial();
    });
}

//! a reset follower behaves like a new one
void after_reset(Src& s)
{
    F        used, fresh;
    const tp base = F::system_clock::now() + std::chrono::hours(1);
    tp       now  = base;
    size_t   n = 0;
    while (s.more(n, 6, 40))
    {
        now += nanoseconds(gen_gap(s));
        if (s.chance(1, 2))
            used.process_clock(now, midi::jr_timestamp_t(uint16_t(s.bits(16))));
        else
            used.schedule_message(now, midi::jr_timestamp_t(uint16_t(s.bits(16))));
    }
    if (s.chance(1, 4))
        used.set_security_offset(nanoseconds(s.draw(30000000)));
    used.reset();
    REQUIRE_EQ(ns(used.security_offset()), ns(fresh.security_offset()));
    REQUIRE_EQ(ns(used.jitter()), ns(fresh.jitter()));
    size_t k = 0, msgs = 0;
    while (s.more(k, 8, 40))
    {
        now += nanoseconds(gen_gap(s));
        const midi::jr_timestamp_t ts(uint16_t(s.bits(16)));
        if (s.chance(1, 2))
        {
            used.process_clock(now, ts);
            fresh.process_clock(now, ts);
        }
        else
        {
            REQUIRE_EQ(ns(used.schedule_message(now, ts) - base), ns(fresh.schedule_message(now, ts) - base));
            ++msgs;
        }
        REQUIRE_EQ(ns(used.security_offset()), ns(fresh.security_offset()));
        REQUIRE_EQ(ns(used.jitter()), ns(fresh.jitter()));
    }
    if (n && msgs)
        s.nontrivial();
}

void timestamps(Src& s)
{
    const auto a = uint16_t(s.bits(16)), b = uint16_t(s.chance(1, 2) ? s.bits(16) : a + s.draw(4) - 2);
    s.note([&](auto& o) { o << a << " - " << b << "\n"; });
    const midi::jr_timestamp_t A(a), B(b);
    REQUIRE_EQ(A.value, a);
    REQUIRE_EQ((long long)((A - B).count()), (long long)(uint16_t(a - b)));
    REQUIRE_EQ(ns(std::chrono::duration_cast<nanoseconds>(A - B)), int64_t(uint16_t(a - b)) * TICK);
    REQUIRE_EQ(A == B, a == b);
    REQUIRE_EQ(A != B, a != b);
    midi::jr_clock_message     c(A);
    midi::jr_timestamp_message t(A);
    REQUIRE_EQ(c.data[0], 0x00100000u | a);
    REQUIRE_EQ(t.data[0], 0x00200000u | a);
    REQUIRE_EQ(c.timestamp().value, a);
    REQUIRE_EQ(t.timestamp().value, a);
    c.set_timestamp(B);
    t.set_timestamp(B);
    REQUIRE_EQ(c.data[0], 0x00100000u | b);
    REQUIRE_EQ(t.data[0], 0x00200000u | b);
    REQUIRE_EQ(c.data[1] | c.data[2] | c.data[3] | t.data[1] | t.data[2] | t.data[3], 0u);
    REQUIRE_EQ(c.timestamp().value, b);
    REQUIRE_EQ(midi::utility_message_view{ t }.payload(), b);
    REQUIRE_EQ(midi::jr_clock_message().data[0], 0x00100000u);
    REQUIRE_EQ(midi::jr_timestamp_message().data[0], 0x00200000u);
    REQUIRE_EQ(midi::jr_timestamp_t().value, uint16_t(0));
    s.nontrivial();
}

//! the local clock runs at 31250 Hz, modulo 2^16
void local_clock(Src& s)
{
    using clk = F::system_clock;
    const auto wait = std::chrono::microseconds(s.draw(499) * 20);
    s.note([&](auto& o) { o << "two readings " << wait.count() << " us apart\n"; });
    const auto m0 = std::chrono::steady_clock::now();
    const auto t0 = clk::now();
    const auto a  = midi::jr_clock::now();
    const auto t1 = clk::now();
    std::this_thread::sleep_for(wait);
    const auto t2 = clk::now();
    const auto b  = midi::jr_clock::now();
    const auto t3 = clk::now();
    const auto m3 = std::chrono::steady_clock::now();
    if (ns(t3 - t0) > 1000000000 || t3 < t0 || std::abs(ns(t3 - t0) - (m3 - m0).count()) > 1000000)
        return; // suspended or the system clock was set meanwhile
    const int64_t d = (b - a).count();
    REQUIRE_MSG(d >= ns(t2 - t1) / TICK && d <= ns(t3 - t0) / TICK + 1, "the clock advanced " << d << " ticks in " << ns(t2 - t1) << " to " << ns(t3 - t0) << " ns");
    s.nontrivial();
}

} // namespace

const char* pbt::g_property = "C21";
std::vector<Facet> pbt::facets()
{
    return {
        { "any_history", "at least two clocks and two messages", any_history, 100000, 2500000 },
        { "jittery", "at least two messages after a clock", jittery, 100000, 2500000 },
        { "steady", "at least one message", steady, 100000, 2500000 },
        { "session", "more than 1000 clocks and messages", session, num_long, num_long * 8, num_long },
        { "jittery_session", "more than 1000 clocks and messages", jittery_session, num_long, num_long * 8, num_long },
        { "after_reset", "non-empty history before and messages after the reset", after_reset, 60000, 1500000 },
        { "local_clock", "readings less than a second apart", local_clock, 500, 2000, 500 },
        { "timestamps", "every case", timestamps, 100000, 2000000 },
    };
}
