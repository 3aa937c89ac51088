#pragma once
#include "pbt.h"

#include <midi/sysex.h>
#include <midi/universal_packet.h>

#include <memory>
#include <new>
#include <utility>

#if NIMIDI2_CUSTOM_SYSEX_DATA_ALLOCATOR
// implementation provided by the harness using this configuration
#endif

namespace h {

using namespace pbt;

//! object constructed in memory that is not zero, so an uninitialised member is visible
template<typename T>
class Dirty
{
    void* mem;
    T*    obj;

  public:
    template<typename... A>
    explicit Dirty(uint8_t pattern, A&&... a)
      : mem(std::aligned_alloc(alignof(T) < 16 ? 16 : alignof(T), (sizeof(T) + 63) / 64 * 64))
    {
        memset(mem, pattern, (sizeof(T) + 63) / 64 * 64);
        obj = new (mem) T(std::forward<A>(a)...);
    }
    ~Dirty()
    {
        obj->~T();
        std::free(mem);
    }
    Dirty(const Dirty&)            = delete;
    Dirty& operator=(const Dirty&) = delete;
    T*       operator->() { return obj; }
    T&       operator*() { return *obj; }
};

//! a callback of the user that does not just return
struct Boom {};
enum class Act { none, fail, reset };

struct words
{
    uint32_t w[4];
    bool     operator==(const words& o) const { return !memcmp(w, o.w, sizeof w); }
};

inline std::string show_words(const uint32_t* w, size_t n)
{
    std::string s;
    char        b[16];
    for (size_t i = 0; i < n; ++i)
    {
        snprintf(b, sizeof b, "%s%08x", i ? " " : "", w[i]);
        s += b;
    }
    return s;
}
inline std::string show_packet(const midi::universal_packet& p)
{
    return "[" + show_words(p.data, 4) + "]";
}

inline uint8_t byte_of(const uint32_t* w, size_t b)
{
    return uint8_t(w[b / 4] >> (8 * (3 - b % 4)));
}
inline void put_byte(uint32_t* w, size_t b, uint8_t v)
{
    const unsigned sh = unsigned(8 * (3 - b % 4));
    w[b / 4]          = (w[b / 4] & ~(0xFFu << sh)) | (uint32_t(v) << sh);
}

//! number of 32 bit words per message type (UMP specification)
inline size_t ump_words(unsigned type)
{
    switch (type & 15)
    {
    case 0x0: case 0x1: case 0x2: case 0x6: case 0x7: return 1;
    case 0x3: case 0x4: case 0x8: case 0x9: case 0xA: return 2;
    case 0xB: case 0xC: return 3;
    default: return 4;
    }
}

//! valid manufacturer id: one byte (0x01..0x7F) or three byte (0x00 xx yy, xx yy != 0)
inline uint32_t gen_manufacturer(Src& s)
{
    switch (s.draw(3))
    {
    case 0: return uint32_t(s.range(1, 0x7F)) << 16;
    case 1: return s.pick<uint32_t>({ 0x7D0000, 0x7E0000, 0x7F0000, 0x010000, 0x000109, 0x000001, 0x000100, 0x007F7F, 0x002109, 0x007F00, 0x00007F });
    default: {
        uint32_t a = uint32_t(s.bits(7)), b = uint32_t(s.bits(7));
        if (!a && !b)
            b = 1;
        return (a << 8) | b;
    }
    }
}

template<typename SX>
SX make_sx(uint32_t man, const std::vector<uint8_t>& d)
{
    SX r(man);
    r.data.assign(d.begin(), d.end());
    return r;
}

inline std::string show_sx(uint32_t man, const std::vector<uint8_t>& d)
{
    char b[32];
    snprintf(b, sizeof b, "{id %06x, %zu: ", man, d.size());
    return b + hexv(d) + "}";
}

//! lengths around the powers of two up to 2^20
inline size_t giant_len(Src& s)
{
    const size_t base = size_t(1) << s.range(9, 20);
    switch (s.draw(3))
    {
    case 0: return base - 1 - s.draw(20);
    case 1: return base + s.draw(20);
    case 2: return base;
    default: return base / 2 + s.draw(base / 2);
    }
}
//! data of any length from two choices, so that a giant message stays a short list of choices and shrinks
inline std::vector<uint8_t> giant_data(Src& s, size_t n, unsigned bits)
{
    const uint64_t       seed = s.draw(0xFFFFFFFFu), mask = (1u << bits) - 1;
    std::vector<uint8_t> d(n);
    for (size_t i = 0; i < n; i += 8)
    {
        auto v = mix(seed + i);
        for (size_t k = i; k < n && k < i + 8; ++k, v >>= 8)
            d[k] = uint8_t(v & mask);
    }
    return d;
}

template<typename SX>
bool sx_is(const SX& sx, uint32_t man, const std::vector<uint8_t>& d)
{
    return sx.manufacturerID == man && sx.data.size() == d.size() && std::equal(d.begin(), d.end(), sx.data.begin());
}
template<typename SX>
std::vector<uint8_t> sx_data(const SX& sx)
{
    return std::vector<uint8_t>(sx.data.begin(), sx.data.end());
}

//! equality means: same ID and same data; every way to build the message gives the same one
template<typename SX>
void check_value(Src& s, const SX& sx, uint32_t man, const std::vector<uint8_t>& d)
{
    SX other(sx);
    REQUIRE_MSG(other == sx && !(other != sx), "a copy is not equal");
    REQUIRE_MSG(sx_is(other, man, d), "a copy differs");
    switch (s.draw(3))
    {
    case 0: other.manufacturerID ^= 1u << s.draw(22); break;
    case 1: other.data.push_back(uint8_t(s.bits(7))); break;
    default:
        if (d.empty())
            other.data.push_back(0);
        else if (s.chance(1, 3))
            other.data.pop_back();
        else
            other.data[s.chance(1, 2) ? d.size() - 1 : s.draw(d.size() - 1)] ^= uint8_t(1u << s.draw(6));
        break;
    }
    REQUIRE_MSG(other != sx && !(other == sx), "equal to the different message " << show_sx(other.manufacturerID, sx_data(other)));
    const SX from_buffer(man, d.data(), d.size());
    const SX from_vector(man, typename SX::data_type(sx.data));
    REQUIRE_MSG(from_vector == sx, "a message made from a data vector differs");
    SX       reserved(man, size_t(s.draw(40)));
    REQUIRE_MSG(reserved.data.empty() && reserved.manufacturerID == man, "capacity constructor");
    reserved.data.insert(reserved.data.end(), d.begin(), d.end());
    REQUIRE_MSG(from_buffer == sx && reserved == sx, "constructors differ");
    other = sx;
    REQUIRE_MSG(sx_is(other, man, d), "assignment differs");
    SX moved(std::move(other));
    REQUIRE_MSG(sx_is(moved, man, d), "moved message differs");
    REQUIRE_MSG(moved.empty() == false, "message with an ID called empty");
    moved.clear();
    REQUIRE_MSG(sx_is(moved, 0, {}) && moved.empty(), "clear leaves something behind");
    REQUIRE_MSG(SX{} == moved, "default message not empty");
}

//! raw bytes a sysex7 message puts on the wire (without F0 / F7)
inline std::vector<uint8_t> wire7(uint32_t man, const std::vector<uint8_t>& d)
{
    std::vector<uint8_t> r;
    r.push_back(uint8_t((man >> 16) & 0x7F));
    if (!((man >> 16) & 0x7F))
    {
        r.push_back(uint8_t((man >> 8) & 0x7F));
        r.push_back(uint8_t(man & 0x7F));
    }
    r.insert(r.end(), d.begin(), d.end());
    return r;
}
//! bytes a sysex8 message puts into its packets: two byte manufacturer field, then data
inline std::vector<uint8_t> wire8(uint32_t man, const std::vector<uint8_t>& d)
{
    std::vector<uint8_t> r;
    if ((man >> 16) & 0x7F)
    {
        r.push_back(0);
        r.push_back(uint8_t((man >> 16) & 0x7F));
    }
    else
    {
        r.push_back(uint8_t(0x80 | ((man >> 8) & 0x7F)));
        r.push_back(uint8_t(man & 0x7F));
    }
    r.insert(r.end(), d.begin(), d.end());
    return r;
}

} // namespace h
