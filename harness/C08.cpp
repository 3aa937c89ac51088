#include "common.h"
#include <midi/types.h>

using namespace h;

namespace {

//! MIDI 2.0 "min-center-max" upscaling, written bit by bit
uint32_t model(uint32_t v, unsigned x, unsigned y)
{
    const unsigned n      = y - x;
    const uint64_t center = uint64_t(1) << (x - 1);
    uint64_t       r      = uint64_t(v) << n;
    if (v > center)
    {
        // the n new bits repeat the x-1 low bits of v, most significant first
        unsigned src = 0;
        for (unsigned i = 0; i < n; ++i)
        {
            const unsigned bit = (x - 2) - src;
            if ((v >> bit) & 1)
                r |= uint64_t(1) << (n - 1 - i);
            src = src + 1 == x - 1 ? 0 : src + 1;
        }
    }
    return uint32_t(r);
}

uint32_t max_of(unsigned x) { return x >= 32 ? 0xFFFFFFFFu : (1u << x) - 1; }

void check_one(uint32_t v, unsigned x, unsigned y)
{
    const auto u = midi::upsample_x_to_ybit(v, uint8_t(x), uint8_t(y));
    REQUIRE_MSG(u == model(v, x, y), "upsample " << v << " from " << x << " to " << y << " bits: got " << u << ", expected " << model(v, x, y));
    REQUIRE_MSG((u >> (y - x)) == v, "does not scale back: " << v << " " << x << "->" << y);
    if (v < max_of(x))
        REQUIRE_MSG(midi::upsample_x_to_ybit(v + 1, uint8_t(x), uint8_t(y)) > u, "not strictly monotonic at " << v << " " << x << "->" << y);
}

void pairs(Src& s)
{
    auto     k = s.draw(464);
    unsigned x = 2, y = 3;
    for (; k; --k)
        if (++y > 32)
            y = ++x + 1;
    s.note([&](auto& o) { o << x << " bit -> " << y << " bit\n"; });
    REQUIRE_EQ(midi::upsample_x_to_ybit(0, uint8_t(x), uint8_t(y)), 0u);
    REQUIRE_EQ(midi::upsample_x_to_ybit(1u << (x - 1), uint8_t(x), uint8_t(y)), 1u << (y - 1));
    REQUIRE_EQ(midi::upsample_x_to_ybit(max_of(x), uint8_t(x), uint8_t(y)), max_of(y));
    if (x <= 14)
        for (uint32_t v = 0; v <= max_of(x); ++v)
            check_one(v, x, y);
    else
        for (unsigned i = 0; i < 32; ++i)
            check_one(uint32_t(s.bits(x)), x, y);
    s.nontrivial();
}

void general(Src& s)
{
    const unsigned x = s.range<unsigned>(2, 31), y = s.range<unsigned>(x + 1, 32);
    uint32_t       v = uint32_t(s.bits(x));
    if (s.chance(1, 4))
        v = (1u << (x - 1)) + uint32_t(s.draw(4)) - 2;
    v &= max_of(x);
    s.note([&](auto& o) { o << v << ": " << x << " bit -> " << y << " bit\n"; });
    check_one(v, x, y);
    const uint32_t w = uint32_t(s.bits(x)) & max_of(x);
    if (v != w)
        REQUIRE_EQ(midi::upsample_x_to_ybit(v, uint8_t(x), uint8_t(y)) < midi::upsample_x_to_ybit(w, uint8_t(x), uint8_t(y)), v < w);
    if (v > (1u << (x - 1)))
        s.nontrivial();
}

void seven(Src& s)
{
    const auto v = uint8_t(s.draw(127));
    s.note([&](auto& o) { o << +v << "\n"; });
    REQUIRE_EQ(midi::upsample_7_to_16bit(v), model(v, 7, 16));
    REQUIRE_EQ(midi::upsample_7_to_32bit(v), model(v, 7, 32));
    REQUIRE_EQ(uint32_t(midi::upsample_7_to_16bit(v)), midi::upsample_x_to_ybit(v, 7, 16));
    REQUIRE_EQ(midi::upsample_7_to_32bit(v), midi::upsample_x_to_ybit(v, 7, 32));
    REQUIRE_EQ(midi::downsample_16_to_7bit(midi::upsample_7_to_16bit(v)), v);
    REQUIRE_EQ(midi::downsample_32_to_7bit(midi::upsample_7_to_32bit(v)), v);
    s.nontrivial();
}

void fourteen(Src& s)
{
    const auto v = uint16_t(s.draw(16383));
    s.note([&](auto& o) { o << v << "\n"; });
    REQUIRE_EQ(midi::upsample_14_to_32bit(v), model(v, 14, 32));
    REQUIRE_EQ(midi::upsample_14_to_32bit(v), midi::upsample_x_to_ybit(v, 14, 32));
    REQUIRE_EQ(midi::downsample_32_to_14bit(midi::upsample_14_to_32bit(v)), v);
    s.nontrivial();
}

void down16(Src& s)
{
    const auto v = uint16_t(s.draw(65535));
    REQUIRE_EQ(uint32_t(midi::downsample_16_to_7bit(v)), uint32_t(v) >> 9);
    s.nontrivial();
}

void down32(Src& s)
{
    const auto v = uint32_t(s.u32());
    s.note([&](auto& o) { o << v << "\n"; });
    REQUIRE_EQ(uint32_t(midi::downsample_32_to_7bit(v)), v >> 25);
    REQUIRE_EQ(uint32_t(midi::downsample_32_to_14bit(v)), v >> 18);
    s.nontrivial();
}

} // namespace

const char* pbt::g_property = "C08";
std::vector<Facet> pbt::facets()
{
    return {
        { "pairs", "every pair of bit widths, all values up to 14 bits, sampled above", pairs, 5000, 100000, 465 },
        { "general", "value above the center (bit repeat applies)", general, 800000, 20000000 },
        { "seven", "every 7 bit value", seven, 200, 200, 128 },
        { "fourteen", "every 14 bit value", fourteen, 17000, 17000, 16384 },
        { "down16", "every 16 bit value", down16, 66000, 66000, 65536 },
        { "down32", "every case", down32, 300000, 10000000 },
    };
}
