// Minimal property-based-testing engine (choice-sequence generators, model of Hypothesis).
//
// A property is a function of a Src.  Every random decision goes through Src, which records
// the *value* chosen; a failing case is therefore a list of integers, which is what is shrunk,
// written to the replay file and replayed.  The same functions are driven by libFuzzer when
// compiled with -DPBT_FUZZ (bytes instead of a PRNG).
#pragma once

#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

namespace pbt {

using u64 = std::uint64_t;

inline u64 mix(u64 x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

struct Rng
{
    u64 s{ 0 };
    u64 next() { return mix(s++); }
    // uniform in [0,max]
    u64 upto(u64 max)
    {
        if (max == ~u64(0))
            return next();
        return static_cast<u64>((static_cast<unsigned __int128>(next()) * (max + 1)) >> 64);
    }
};

//! thrown when a property does not hold for the generated case
struct Violated
{
    std::string msg;
};

//! dictionary of integer literals found in the sources under test (all / not in the base tree)
struct Dictionary
{
    std::vector<u64> all, novel;
};
extern Dictionary g_dict;

struct Shared; // live recording of the running case, lives in shared memory (see pbt_main.cpp)

class Src
{
  public:
    enum Mode { random, replay, bytes };

    Mode              mode{ random };
    Rng               rng;
    std::vector<u64>  choices;          // replay input / recorded output
    std::vector<u64>  recorded;
    size_t            pos{ 0 };
    const uint8_t*    fz{ nullptr };
    size_t            fz_left{ 0 };
    Shared*           live{ nullptr };
    bool              tracing{ false };
    bool              nontrivial_{ false };
    std::string       trace;
    std::set<std::string> labels;

    // ---- primitive
    u64 draw(u64 max); // uniform [0,max]

    // ---- derived
    template<typename T = u64>
    T range(u64 lo, u64 hi) { return static_cast<T>(lo + draw(hi - lo)); }
    bool chance(unsigned num, unsigned den)
    {
        // 0 is the "simple" answer: false
        if (mode == random)
            return force(rng.upto(den - 1) < num ? 1 : 0, 1) != 0;
        return draw(1) != 0;
    }
    //! continue a list?  expected length avg, at most cap
    bool more(size_t& count, size_t avg, size_t cap)
    {
        if (count >= cap)
            return false;
        if (!chance(unsigned(avg), unsigned(avg + 1)))
            return false;
        ++count;
        return true;
    }
    //! k-bit value with bias to boundaries, sparse bit patterns and source literals
    u64 bits(unsigned k);
    u64 u32() { return bits(32); }
    //! biased to small numbers, boundaries and literals of the sources
    size_t size(size_t max);
    template<typename T>
    const T& pick(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
    template<typename T>
    T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size() - 1)); }
    std::vector<uint8_t> byte_vec(size_t n, unsigned k)
    {
        std::vector<uint8_t> r;
        r.reserve(n);
        // long vectors: a short random prefix, then a cheap derived pattern (keeps choice lists small)
        const size_t direct = n < 96 ? n : 48;
        const u64 stride = n > direct ? draw(255) : 0;
        const u64 base = n > direct ? draw(255) : 0;
        for (size_t i = 0; i < n; ++i)
        {
            if (i < direct / 2 || i >= n - (direct - direct / 2))
                r.push_back(uint8_t(bits(k)));
            else
                r.push_back(uint8_t((base + i * stride + (i >> 8)) & ((1u << k) - 1)));
        }
        return r;
    }

    u64 force(u64 v, u64 max); // record a value chosen by other means

    // ---- reporting
    void nontrivial() { nontrivial_ = true; }
    void label(const char* l) { labels.insert(l); }
    template<typename F>
    void note(F&& f)
    {
        if (tracing)
        {
            std::ostringstream os;
            f(os);
            trace += os.str();
        }
    }
};

//! many rounds of one history; the rounds draw from a generator of their own, so a case stays a short list of choices
//! and shrinks by its number of rounds
template<typename F>
void long_run(Src& s, size_t max_rounds, F&& f)
{
    Src sub;
    sub.mode            = Src::random;
    sub.rng.s           = mix(s.draw(0xFFFFFFFFu));
    const size_t rounds = s.draw(max_rounds);
    try
    {
        for (size_t i = 0; i < rounds; ++i)
        {
            sub.recorded.clear();
            sub.trace.clear();
            sub.tracing = s.tracing && rounds - i < 20;
            f(sub, i);
            if (sub.tracing)
                s.trace += sub.trace;
        }
    }
    catch (...)
    {
        s.trace += sub.trace;
        throw;
    }
    if (sub.nontrivial_)
        s.nontrivial();
    for (auto& l : sub.labels)
        s.label(l.c_str());
}

struct Facet
{
    const char*               name;
    const char*               rule; // what makes a case non-trivial
    std::function<void(Src&)> fn;
    u64                       quick{ 20000 };
    u64                       thorough{ 400000 };
    u64                       enumerate{ 0 }; // >0: first draw is enumerated over [0,enumerate)
    bool                      fuzz{ true };   // part of the coverage-guided search
};

//! each property's translation unit defines these
extern const char*        g_property;
std::vector<Facet>        facets();

template<typename T>
std::string show(const T& v)
{
    std::ostringstream os;
    if constexpr (std::is_same_v<T, bool>)
        os << (v ? "true" : "false");
    else if constexpr (std::is_enum_v<T>)
        os << static_cast<long long>(v);
    else if constexpr (std::is_floating_point_v<T>)
        os << std::setprecision(17) << v;
    else if constexpr (std::is_integral_v<T>)
    {
        os << std::dec << +v << " (0x" << std::hex << static_cast<u64>(v) << ")";
    }
    else
        os << v;
    return os.str();
}

inline std::string hex(const uint8_t* d, size_t n)
{
    static const char* h = "0123456789abcdef";
    std::string s;
    const size_t lim = n > 160 ? 160 : n;
    for (size_t i = 0; i < lim; ++i)
    {
        if (i)
            s += ' ';
        s += h[d[i] >> 4];
        s += h[d[i] & 15];
    }
    if (lim < n)
        s += " ...(" + std::to_string(n) + " bytes)";
    return s;
}
template<typename V>
std::string hexv(const V& v)
{
    return hex(v.data(), v.size());
}

} // namespace pbt

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)

#define REQUIRE_MSG(cond, stream_expr)                                                                       \
    do                                                                                                       \
    {                                                                                                        \
        if (!(cond))                                                                                         \
        {                                                                                                    \
            std::ostringstream pbt_os;                                                                       \
            pbt_os << stream_expr << "  [" #cond " @" __FILE__ ":" PBT_STR(__LINE__) "]";                    \
            throw pbt::Violated{ pbt_os.str() };                                                             \
        }                                                                                                    \
    } while (0)

#define REQUIRE(cond) REQUIRE_MSG(cond, "condition does not hold")

#define REQUIRE_EQ(a, b)                                                                                     \
    do                                                                                                       \
    {                                                                                                        \
        const auto pbt_a = (a);                                                                              \
        const auto pbt_b = (b);                                                                              \
        if (!(pbt_a == pbt_b))                                                                               \
        {                                                                                                    \
            throw pbt::Violated{ std::string(#a " == " #b ": got ") + pbt::show(pbt_a) + ", expected " +     \
                                 pbt::show(pbt_b) + "  [@" __FILE__ ":" PBT_STR(__LINE__) "]" };             \
        }                                                                                                    \
    } while (0)
