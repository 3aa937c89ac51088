#include "floats.h"
#include <midi/types.h>

using namespace h;
using ld = long double;

namespace {

//! ideal (real valued) result on the min-center-max line, unit scale g in [0,1] -> [0,max]
ld ideal01(ld g, unsigned bits)
{
    const ld mid = std::ldexp(ld(1), int(bits) - 1), max = std::ldexp(ld(1), int(bits)) - 1;
    if (g <= 0) return 0;
    if (g >= 1) return max;
    return g <= 0.5L ? g * 2 * mid : mid + (g - 0.5L) * 2 * (max - mid);
}
ld ideal_fixed(ld f, unsigned frac, ld lo, ld hi)
{
    const ld v = f * std::ldexp(ld(1), int(frac));
    return v < lo ? lo : v > hi ? hi : v;
}

template<typename F>
void near(const char* what, F arg, ld got, ld want, ld tol)
{
    REQUIRE_MSG(std::fabs(got - want) <= tol, what << "(" << std::setprecision(17) << arg << ") = " << (double)got << ", expected "
                                                   << (double)want << " +- " << (double)tol);
}

template<typename F>
void unit_types(Src& s)
{
    const F a = gen_float<F>(s, 0, 1, s.chance(1, 2) ? 16 : 32);
    s.note([&](auto& o) { o << std::setprecision(17) << a << "\n"; });
    const midi::velocity         v(a);
    const midi::controller_value c(a);
    near("velocity", a, v.value, ideal01(a, 16), 1);
    near("controller_value", a, c.value, ideal01(a, 32), 1.0001L);
    if (a <= 0)
        REQUIRE(v.value == 0 && c.value == 0);
    if (a >= 1)
        REQUIRE(v.value == 0xFFFF && c.value == 0xFFFFFFFF);
    if (a == F(0.5))
        REQUIRE(v.value == 0x8000 && c.value == 0x80000000);
    const F b = s.chance(1, 2) ? nudge(a, int(s.draw(20)) - 10) : gen_float<F>(s, 0, 1, 32);
    const F lo = std::min(a, b), hi = std::max(a, b);
    REQUIRE_MSG(midi::velocity(lo).value <= midi::velocity(hi).value, "velocity not monotonic: " << std::setprecision(17) << lo << ", " << hi);
    REQUIRE_MSG(midi::controller_value(lo).value <= midi::controller_value(hi).value, "controller_value not monotonic: " << std::setprecision(17) << lo << ", " << hi);
    if (a > 0 && a < 1)
        s.nontrivial();
}

template<typename F>
void bend_type(Src& s)
{
    const F a = gen_float<F>(s, -1, 1, 32);
    s.note([&](auto& o) { o << std::setprecision(17) << a << "\n"; });
    const midi::pitch_bend p(a);
    const ld tol = sizeof(F) == 4 ? 1.0001L + std::ldexp(ld(1), 32 - 24) : 1.0001L;
    near("pitch_bend", a, p.value, ideal01((ld(a) + 1) / 2, 32), tol);
    if (a <= -1)
        REQUIRE_EQ(p.value, 0u);
    if (a >= 1)
        REQUIRE_EQ(p.value, 0xFFFFFFFFu);
    if (a == 0)
        REQUIRE_EQ(p.value, 0x80000000u);
    const F b  = s.chance(1, 2) ? nudge(a, int(s.draw(20)) - 10) : gen_float<F>(s, -1, 1, 32);
    const F lo = std::min(a, b), hi = std::max(a, b);
    REQUIRE_MSG(midi::pitch_bend(lo).value <= midi::pitch_bend(hi).value, "pitch_bend not monotonic: " << std::setprecision(17) << lo << ", " << hi);
    if (a > -1 && a < 1)
        s.nontrivial();
}

template<typename F>
void pitch_types(Src& s)
{
    const F a = gen_float<F>(s, 0, 128, s.chance(1, 2) ? 16 : 32);
    s.note([&](auto& o) { o << std::setprecision(17) << a << "\n"; });
    near("pitch_7_9", a, midi::pitch_7_9(a).value, ideal_fixed(a, 9, 0, 0xFFFF), 1);
    near("pitch_7_25", a, midi::pitch_7_25(a).value, ideal_fixed(a, 25, 0, 0xFFFFFFFF), 1);
    near("pitch_bend_sensitivity", a, midi::pitch_bend_sensitivity(a).value, ideal_fixed(a, 25, 0, 0xFFFFFFFF), 1);
    if (a <= 0)
        REQUIRE(midi::pitch_7_9(a).value == 0 && midi::pitch_7_25(a).value == 0);
    if (a >= 128)
        REQUIRE(midi::pitch_7_9(a).value == 0xFFFF && midi::pitch_7_25(a).value == 0xFFFFFFFF);
    const F b  = s.chance(1, 2) ? nudge(a, int(s.draw(20)) - 10) : gen_float<F>(s, 0, 128, 32);
    const F lo = std::min(a, b), hi = std::max(a, b);
    REQUIRE_MSG(midi::pitch_7_9(lo).value <= midi::pitch_7_9(hi).value, "pitch_7_9 not monotonic: " << std::setprecision(17) << lo << ", " << hi);
    REQUIRE_MSG(midi::pitch_7_25(lo).value <= midi::pitch_7_25(hi).value, "pitch_7_25 not monotonic: " << std::setprecision(17) << lo << ", " << hi);
    if (a > 0 && a < 128)
        s.nontrivial();
}

template<typename F>
void increment_type(Src& s)
{
    const F a = gen_float<F>(s, -64, 64, 32);
    s.note([&](auto& o) { o << std::setprecision(17) << a << "\n"; });
    const auto v = midi::pitch_increment(a).value;
    near("pitch_increment", a, v, ideal_fixed(a, 25, std::numeric_limits<int32_t>::min(), std::numeric_limits<int32_t>::max()), 1);
    if (a == 0)
        REQUIRE_EQ(v, 0);
    if (a >= 64)
        REQUIRE_EQ(v, std::numeric_limits<int32_t>::max());
    if (a <= -64)
        REQUIRE_EQ(v, std::numeric_limits<int32_t>::min());
    const F b  = s.chance(1, 2) ? nudge(a, int(s.draw(20)) - 10) : gen_float<F>(s, -64, 64, 32);
    const F lo = std::min(a, b), hi = std::max(a, b);
    REQUIRE_MSG(midi::pitch_increment(lo).value <= midi::pitch_increment(hi).value, "pitch_increment not monotonic: " << std::setprecision(17) << lo << ", " << hi);
    if (a > -64 && a < 64)
        s.nontrivial();
}

void near_float(const char* what, double f, double d, double hi)
{
    REQUIRE_MSG(std::fabs(f - d) <= hi * std::ldexp(1.0, -23), what << ": as_float " << std::setprecision(17) << f << " but as_double " << d);
}

//! 16 bit values, exhaustively
void back16(Src& s)
{
    const auto k = uint16_t(s.draw(65535));
    s.note([&](auto& o) { o << k << "\n"; });
    const midi::velocity v(k);
    const double         d = v.as_double();
    REQUIRE_EQ(v.value, k);
    near("velocity::as_double", k, ideal01(d, 16), k, 0.51L);
    REQUIRE_EQ(midi::velocity(d).value, k);
    near_float("velocity", v.as_float(), d, 1);
    REQUIRE(d >= 0 && d <= 1 && v.as_float() >= 0 && v.as_float() <= 1);
    if (k == 0) REQUIRE_EQ(d, 0.0);
    if (k == 0x8000) REQUIRE_EQ(d, 0.5);
    if (k == 0xFFFF) REQUIRE_EQ(d, 1.0);
    if (k < 0xFFFF)
        REQUIRE(midi::velocity(uint16_t(k + 1)).as_double() > d);
    REQUIRE_EQ(unsigned(v.as_uint7()), unsigned(k >> 9));
    REQUIRE_EQ(v == midi::velocity(uint16_t(k ^ 1)), false);
    REQUIRE_EQ(v != midi::velocity(uint16_t(k ^ 1)), true);
    REQUIRE_EQ(v == midi::velocity(k), true);
    REQUIRE_EQ(v != midi::velocity(k), false);

    const midi::pitch_7_9 p(k);
    REQUIRE_EQ(p.value, k);
    REQUIRE_EQ(p.as_double(), k / 512.0);
    REQUIRE_EQ(p.as_float(), float(k / 512.0));
    REQUIRE_EQ(midi::pitch_7_9(p.as_double()).value, k);
    REQUIRE_EQ(midi::pitch_7_9(p.as_float()).value, k);
    REQUIRE_EQ(unsigned(p.note_nr()), unsigned(k >> 9));
    REQUIRE_EQ(midi::pitch_7_25(p).value, uint32_t(k) << 16);
    midi::pitch_7_25 q(uint32_t(0x12345678));
    q = p;
    REQUIRE_EQ(q.value, uint32_t(k) << 16);
    REQUIRE_EQ(p == midi::pitch_7_9(uint16_t(k ^ 0x8000)), false);
    REQUIRE_EQ(p != midi::pitch_7_9(uint16_t(k ^ 0x8000)), true);
    REQUIRE_EQ(p == midi::pitch_7_9(k), true);
    if (k < 16384)
    {
        REQUIRE_EQ(midi::pitch_bend(k).value, midi::upsample_x_to_ybit(k, 14, 32));
        REQUIRE_EQ(midi::controller_value(k).value, midi::upsample_x_to_ybit(k, 14, 32));
        REQUIRE_EQ(midi::pitch_bend(k).as_uint14(), k);
        REQUIRE_EQ(midi::controller_value(k).as_uint14(), k);
    }
    if (k < 128)
    {
        const auto n = uint8_t(k);
        REQUIRE_EQ(uint32_t(midi::velocity(n).value), midi::upsample_x_to_ybit(n, 7, 16));
        REQUIRE_EQ(midi::controller_value(n).value, midi::upsample_x_to_ybit(n, 7, 32));
        REQUIRE_EQ(midi::velocity(n).as_uint7(), n);
        REQUIRE_EQ(midi::controller_value(n).as_uint7(), n);
        REQUIRE_EQ(unsigned(midi::pitch_7_9(n).value), unsigned(n) << 9);
        REQUIRE_EQ(midi::pitch_7_25(n).value, uint32_t(n) << 25);
        REQUIRE_EQ(midi::pitch_7_9(n).note_nr(), n);
        REQUIRE_EQ(midi::pitch_7_25(n).note_nr(), n);
        REQUIRE_EQ(midi::pitch_7_9(float(n)).note_nr(), n);
        REQUIRE_EQ(midi::pitch_7_25(double(n)).note_nr(), n);
        REQUIRE_EQ(midi::pitch_7_25(midi::pitch_7_9(n)).note_nr(), n);
    }
    s.nontrivial();
}

void back32(Src& s)
{
    const auto k = uint32_t(s.u32());
    s.note([&](auto& o) { o << k << "\n"; });
    const midi::controller_value c(k);
    const double                 d = c.as_double();
    REQUIRE_EQ(c.value, k);
    near("controller_value::as_double", k, ideal01(d, 32), k, 0.51L);
    REQUIRE_EQ(midi::controller_value(d).value, k);
    near_float("controller_value", c.as_float(), d, 1);
    REQUIRE(d >= 0 && d <= 1 && c.as_float() >= 0 && c.as_float() <= 1);
    if (k < 0xFFFFFFFF)
        REQUIRE(midi::controller_value(k + 1).as_double() > d);
    REQUIRE_EQ(uint32_t(c.as_uint14()), k >> 18);
    REQUIRE_EQ(uint32_t(c.as_uint7()), k >> 25);

    midi::pitch_bend b(k);
    const double     e = b.as_double();
    REQUIRE_EQ(b.value, k);
    near("pitch_bend::as_double", k, ideal01((ld(e) + 1) / 2, 32), k, 0.51L);
    near("pitch_bend round trip", k, midi::pitch_bend(e).value, k, 1);
    near_float("pitch_bend", b.as_float(), e, 1);
    REQUIRE(e >= -1 && e <= 1 && b.as_float() >= -1 && b.as_float() <= 1);
    REQUIRE_EQ(e < 0, k < 0x80000000);
    if (k == 0) REQUIRE_EQ(e, -1.0);
    if (k == 0x80000000) REQUIRE_EQ(e, 0.0);
    if (k == 0xFFFFFFFF) REQUIRE(e == 1.0 && d == 1.0);
    if (k < 0xFFFFFFFF)
        REQUIRE(midi::pitch_bend(k + 1).as_double() > e);
    REQUIRE_EQ(uint32_t(b.as_uint14()), k >> 18);

    const midi::pitch_7_25 p(k);
    REQUIRE_EQ(p.value, k);
    REQUIRE_EQ(p.as_double(), std::ldexp(double(k), -25));
    near_float("pitch_7_25", p.as_float(), p.as_double(), 128);
    REQUIRE_EQ(midi::pitch_7_25(p.as_double()).value, k);
    REQUIRE_EQ(uint32_t(p.note_nr()), k >> 25);
    REQUIRE_EQ(midi::controller_value(p).value, k);
    REQUIRE_EQ(midi::pitch_7_25(c).value, k);
    REQUIRE_EQ(midi::pitch_bend_sensitivity(k).value, k);
    REQUIRE_EQ(midi::pitch_increment(int32_t(k)).value, int32_t(k));
    REQUIRE_EQ(midi::controller_increment(int32_t(k)).value, int32_t(k));
    // equality
    const uint32_t o = s.chance(1, 2) ? k ^ (1u << s.draw(31)) : uint32_t(s.u32());
    REQUIRE_EQ(c == midi::controller_value(o), k == o);
    REQUIRE_EQ(c != midi::controller_value(o), k != o);
    REQUIRE_EQ(b == midi::pitch_bend(o), k == o);
    REQUIRE_EQ(b != midi::pitch_bend(o), k != o);
    REQUIRE_EQ(p == midi::pitch_7_25(o), k == o);
    REQUIRE_EQ(p != midi::pitch_7_25(o), k != o);
    REQUIRE_EQ(midi::pitch_increment(int32_t(k)) == midi::pitch_increment(int32_t(o)), k == o);
    REQUIRE_EQ(midi::pitch_increment(int32_t(k)) != midi::pitch_increment(int32_t(o)), k != o);
    REQUIRE_EQ(midi::controller_increment(int32_t(k)) == midi::controller_increment(int32_t(o)), k == o);
    REQUIRE_EQ(midi::controller_increment(int32_t(k)) != midi::controller_increment(int32_t(o)), k != o);
    b.reset();
    REQUIRE_EQ(b.value, 0x80000000u);
    REQUIRE_EQ(midi::pitch_bend().value, 0x80000000u);
    REQUIRE_EQ(midi::velocity().value, uint16_t(0x8000));
    REQUIRE_EQ(midi::pitch_bend_sensitivity().value, 2u << 25);
    s.nontrivial();
}

} // namespace

const char* pbt::g_property = "C09";
std::vector<Facet> pbt::facets()
{
    return {
        { "unit_float", "argument strictly inside the range", unit_types<float>, 300000, 8000000 },
        { "unit_double", "argument strictly inside the range", unit_types<double>, 300000, 8000000 },
        { "bend_float", "argument strictly inside the range", bend_type<float>, 200000, 8000000 },
        { "bend_double", "argument strictly inside the range", bend_type<double>, 200000, 8000000 },
        { "pitch_float", "argument strictly inside the range", pitch_types<float>, 200000, 8000000 },
        { "pitch_double", "argument strictly inside the range", pitch_types<double>, 200000, 8000000 },
        { "increment_float", "argument strictly inside the range", increment_type<float>, 200000, 8000000 },
        { "increment_double", "argument strictly inside the range", increment_type<double>, 200000, 8000000 },
        { "back16", "every 16 bit value (and all 7 and 14 bit values)", back16, 66000, 66000, 65536 },
        { "back32", "every case", back32, 400000, 10000000 },
    };
}
