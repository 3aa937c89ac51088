#pragma once
#include "common.h"
#include <cmath>
#include <limits>

namespace h {

template<typename F>
F nudge(F f, int ulps)
{
    for (; ulps > 0; --ulps)
        f = std::nextafter(f, std::numeric_limits<F>::infinity());
    for (; ulps < 0; ++ulps)
        f = std::nextafter(f, -std::numeric_limits<F>::infinity());
    return f;
}

//! finite float/double: any bit pattern, in [lo,hi], on/near grid points of 2^-frac, near the ends
template<typename F>
F gen_float(Src& s, double lo, double hi, unsigned grid_bits)
{
    F f = 0;
    switch (s.draw(5))
    {
    case 0:
        f = F(lo + (hi - lo) * (double(s.draw((1ull << 53) - 1)) / 9007199254740992.0));
        break;
    case 1: { // grid of grid_bits steps over the range, slightly off
        const double step = (hi - lo) / std::ldexp(1.0, int(grid_bits));
        f = F(lo + step * double(s.bits(grid_bits)));
        if (s.chance(1, 3))
            f = F(f + step / 2);
        f = nudge(f, int(s.draw(6)) - 3);
        break;
    }
    case 2:
        f = s.pick<F>({ F(0), F(lo), F(hi), F((lo + hi) / 2), F(1), F(-1), F(0.5), F(-0.5), F(64), F(-64), F(128), F(2) });
        f = nudge(f, int(s.draw(8)) - 4);
        break;
    case 3:
        f = s.pick<F>({ std::numeric_limits<F>::max(), std::numeric_limits<F>::lowest(), std::numeric_limits<F>::min(),
                        std::numeric_limits<F>::denorm_min(), -std::numeric_limits<F>::denorm_min(), F(-0.0), F(1e10), F(-1e10) });
        break;
    case 4: { // max/2^n style: value close to a representable output on the unit scale
        const double m = std::ldexp(1.0, int(grid_bits)) - 1;
        f = nudge(F(lo + (hi - lo) * (double(s.bits(grid_bits)) / m)), int(s.draw(4)) - 2);
        break;
    }
    default:
        if constexpr (sizeof(F) == 4)
        {
            uint32_t b = uint32_t(s.u32());
            memcpy(&f, &b, 4);
        }
        else
        {
            uint64_t b = s.bits(64);
            memcpy(&f, &b, 8);
        }
        break;
    }
    if (!std::isfinite(f))
        f = F(hi);
    return f;
}

} // namespace h
