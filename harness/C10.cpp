#include "floats.h"
#include <midi/types.h>

using namespace h;
using i128 = __int128;

namespace {

i128 clampi(i128 v, i128 lo, i128 hi) { return v < lo ? lo : v > hi ? hi : v; }
constexpr int64_t I32MIN = -2147483648ll, I32MAX = 2147483647ll, U32MAX = 4294967295ll;

uint32_t near_value(Src& s, i128 target, i128 lo, i128 hi)
{
    return uint32_t(int64_t(clampi(target + int(s.draw(8)) - 4, lo, hi)));
}

//! second operand: independent, or such that the sum lands next to a limit
uint32_t second(Src& s, i128 first, i128 lo, i128 hi)
{
    if (s.chance(1, 2))
        return uint32_t(s.u32());
    return near_value(s, (s.chance(1, 2) ? lo : hi) - first, I32MIN, I32MAX);
}

void pitch_plus_increment(Src& s)
{
    const auto p = uint32_t(s.u32());
    const auto i = int32_t(second(s, p, 0, U32MAX));
    s.note([&](auto& o) { o << "pitch_7_25 " << p << " + " << i << "\n"; });
    const auto want = uint32_t(clampi(i128(p) + i, 0, U32MAX));
    const midi::pitch_7_25 a(p);
    REQUIRE_EQ((a + midi::pitch_increment(i)).value, want);
    REQUIRE_EQ(a.value, p);
    midi::pitch_7_25 b(p);
    b += midi::pitch_increment(i);
    REQUIRE_EQ(b.value, want);
    midi::pitch_bend_sensitivity c(p);
    c += midi::pitch_increment(i);
    REQUIRE_EQ(c.value, want);
    if (i && p)
        s.nontrivial();
    if (i128(want) != i128(p) + i)
        s.label("saturated");
}

void increment_plus_increment(Src& s)
{
    const auto p = int32_t(uint32_t(s.u32()));
    const auto i = int32_t(second(s, p, I32MIN, I32MAX));
    s.note([&](auto& o) { o << "pitch_increment " << p << " + " << i << "\n"; });
    const auto want = int32_t(clampi(i128(p) + i, I32MIN, I32MAX));
    midi::pitch_increment a(p);
    REQUIRE_EQ((a + midi::pitch_increment(i)).value, want);
    REQUIRE_EQ(a.value, p);
    a += midi::pitch_increment(i);
    REQUIRE_EQ(a.value, want);
    midi::pitch_increment d(p);
    d += d;
    REQUIRE_EQ(d.value, int32_t(clampi(i128(p) + p, I32MIN, I32MAX)));
    if (i && p)
        s.nontrivial();
    if (i128(want) != i128(p) + i)
        s.label("saturated");
}

void controller_plus_increment(Src& s)
{
    const auto p = uint32_t(s.u32());
    const auto i = int32_t(second(s, p, 0, U32MAX));
    s.note([&](auto& o) { o << "controller_value " << p << " + " << i << "\n"; });
    const auto want = uint32_t(clampi(i128(p) + i, 0, U32MAX));
    midi::controller_value a(p);
    REQUIRE_EQ((a + midi::controller_increment(i)).value, want);
    REQUIRE_EQ(a.value, p);
    a += midi::controller_increment(i);
    REQUIRE_EQ(a.value, want);
    if (i && p)
        s.nontrivial();
    if (i128(want) != i128(p) + i)
        s.label("saturated");
}

template<typename F>
void pitch_plus_detune(Src& s)
{
    const auto p = uint32_t(s.u32());
    F          d;
    bool       grid = s.chance(1, 2);
    if (grid)
    {
        // multiple of the step (2^-25), so the sum is exactly defined
        int64_t k = int64_t(s.bits(sizeof(F) == 4 ? 24 : 33));
        if (s.chance(1, 4))
            k = s.chance(1, 2) ? U32MAX - p + int64_t(s.draw(4)) - 2 : int64_t(p) + int64_t(s.draw(4)) - 2;
        if (s.chance(1, 2))
            k = -k;
        d = F(std::ldexp(double(k), -25));
    }
    else
        d = gen_float<F>(s, -128, 128, 33);
    s.note([&](auto& o) { o << "pitch_7_25 " << p << " + " << std::setprecision(17) << d << " semitones\n"; });
    const midi::pitch_7_25 a(p);
    const auto             r = (a + d).value;
    REQUIRE_EQ(a.value, p);
    const long double exact = (long double)(p) + (long double)(d) * 33554432.0L;
    const long double want  = exact < 0 ? 0 : exact > U32MAX ? U32MAX : exact;
    const long double tol   = std::floor(exact) == exact ? 0 : 1;
    REQUIRE_MSG(std::fabs((long double)(r) - want) <= tol, p << " + " << std::setprecision(17) << d << " = " << r << ", expected " << (double)want);
    if (d != 0)
        s.nontrivial();
}

void bend_times_sensitivity(Src& s)
{
    uint32_t b = uint32_t(s.u32()), v = uint32_t(s.u32());
    if (s.chance(1, 4))
        b = near_value(s, 0x80000000ll, 0, U32MAX);
    if (s.chance(1, 4))
        v = uint32_t(s.draw(127)) << 25;
    if (s.chance(1, 4) && b != 0x80000000u)
    { // product next to the limit
        const int64_t diff = std::llabs(int64_t(b) - 0x80000000ll);
        const i128    q    = (i128(1) << 62) / diff;
        v = near_value(s, q, 0, U32MAX);
    }
    s.note([&](auto& o) { o << "bend " << b << " * sensitivity " << v << "\n"; });
    const i128 prod = (i128(b) - (i128(1) << 31)) * i128(v);
    const i128 quot = prod / (i128(1) << 31); // towards zero
    const auto want = int32_t(clampi(quot, I32MIN, I32MAX));
    const midi::pitch_bend             pb(b);
    const midi::pitch_bend_sensitivity se(v);
    REQUIRE_EQ((pb * se).value, want);
    REQUIRE_EQ((se * pb).value, want);
    if (quot != want)
        s.label("saturated");
    if (prod)
        s.nontrivial();
}

//! history of in-place operations on one object against an exact model
void history(Src& s)
{
    int64_t                p = int64_t(s.u32()), c = int64_t(s.u32()), i = int32_t(uint32_t(s.u32()));
    midi::pitch_7_25       P{ uint32_t(p) };
    midi::controller_value C{ uint32_t(c) };
    midi::pitch_increment  I{ int32_t(i) };
    size_t                 n = 0;
    while (s.more(n, 8, 40))
    {
        const auto x = int32_t(uint32_t(s.u32()));
        s.note([&](auto& o) { o << x << " "; });
        switch (s.draw(3))
        {
        case 0: P += midi::pitch_increment(x); p = int64_t(clampi(i128(p) + x, 0, U32MAX)); break;
        case 1: C += midi::controller_increment(x); c = int64_t(clampi(i128(c) + x, 0, U32MAX)); break;
        case 2: I += midi::pitch_increment(x); i = int64_t(clampi(i128(i) + x, I32MIN, I32MAX)); break;
        default: {
            const midi::pitch_bend             pb{ uint32_t(x) };
            const midi::pitch_bend_sensitivity se{ uint32_t(p) };
            P += pb * se;
            const i128 q = clampi((i128(uint32_t(x)) - (i128(1) << 31)) * p / (i128(1) << 31), I32MIN, I32MAX);
            p            = int64_t(clampi(p + q, 0, U32MAX));
        }
        }
        REQUIRE_EQ(int64_t(P.value), p);
        REQUIRE_EQ(int64_t(C.value), c);
        REQUIRE_EQ(int64_t(I.value), i);
    }
    if (n > 1)
        s.nontrivial();
}

} // namespace

const char* pbt::g_property = "C10";
std::vector<Facet> pbt::facets()
{
    return {
        { "pitch_plus_increment", "both operands non-zero", pitch_plus_increment, 300000, 10000000 },
        { "increment_plus_increment", "both operands non-zero", increment_plus_increment, 300000, 10000000 },
        { "controller_plus_increment", "both operands non-zero", controller_plus_increment, 300000, 10000000 },
        { "pitch_plus_float", "detune non-zero", pitch_plus_detune<float>, 300000, 10000000 },
        { "pitch_plus_double", "detune non-zero", pitch_plus_detune<double>, 300000, 10000000 },
        { "bend_times_sensitivity", "non-zero product", bend_times_sensitivity, 400000, 10000000 },
        { "history", "at least two operations", history, 100000, 3000000 },
    };
}
