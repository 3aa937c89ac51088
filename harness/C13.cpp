#include <locale>
#include "common.h"
#include <iostream>
#include <sstream>

using namespace h;
using midi::universal_packet;

namespace {

void gen_words(Src& s, uint32_t* w)
{
    for (int i = 0; i < 4; ++i)
        w[i] = s.chance(1, 4) ? 0 : uint32_t(s.u32());
    if (s.chance(1, 2))
        w[0] = (w[0] & 0x0FFFFFFF) | uint32_t(s.draw(15)) << 28;
}

void same(const universal_packet& p, const uint32_t* w, const char* what)
{
    REQUIRE_MSG(!memcmp(p.data, w, 16), what << ": packet " << show_packet(p) << ", expected [" << show_words(w, 4) << "]");
}

//! history of field writes against a byte array model
void fields(Src& s)
{
    uint32_t w[4] = { 0, 0, 0, 0 };
    Dirty<universal_packet> P(uint8_t(s.draw(1) ? 0xA5 : 0x5A));
    universal_packet&       p = *P;
    same(p, w, "default constructed");
    gen_words(s, w);
    switch (s.draw(3))
    {
    case 0: p = universal_packet(w[0]); w[1] = w[2] = w[3] = 0; break;
    case 1: p = universal_packet(w[0], w[1]); w[2] = w[3] = 0; break;
    case 2: p = universal_packet(w[0], w[1], w[2]); w[3] = 0; break;
    default: p = universal_packet(w[0], w[1], w[2], w[3]); break;
    }
    same(p, w, "constructed");
    size_t n = 0;
    while (s.more(n, 10, 60))
    {
        switch (s.draw(5))
        {
        case 0: {
            const auto b = s.draw(15);
            const auto v = uint8_t(s.bits(8));
            s.note([&](auto& o) { o << "set_byte(" << b << "," << +v << ") "; });
            p.set_byte(b, v);
            put_byte(w, b, v);
            break;
        }
        case 1: {
            const auto b = s.draw(15);
            const auto v = uint8_t(s.bits(8));
            s.note([&](auto& o) { o << "set_byte_7bit(" << b << "," << +v << ") "; });
            p.set_byte_7bit(b, v);
            put_byte(w, b, v & 0x7F);
            break;
        }
        case 2: {
            const auto t = uint32_t(s.draw(15));
            s.note([&](auto& o) { o << "set_type(" << t << ") "; });
            p.set_type(midi::packet_type(t));
            w[0] = (w[0] & 0x0FFFFFFF) | t << 28;
            break;
        }
        case 3: {
            const auto g = uint32_t(s.draw(15));
            s.note([&](auto& o) { o << "set_group(" << g << ") "; });
            p.set_group(uint8_t(g));
            w[0] = (w[0] & 0xF0FFFFFF) | g << 24;
            break;
        }
        case 4: {
            if (s.chance(1, 6))
            {
                p.reset();
                memset(w, 0, sizeof w);
            }
            else
            {
                const auto i = s.draw(3);
                p.data[i] = w[i] = uint32_t(s.u32());
            }
            break;
        }
        default: {
            universal_packet q(p), r;
            r = q;
            same(q, w, "copy");
            REQUIRE(q == p && r == p && !(q != p));
            universal_packet m(std::move(q));
            same(m, w, "moved");
            p = r;
            break;
        }
        }
        same(p, w, "after write");
        for (size_t b = 0; b < 16; ++b)
        {
            REQUIRE_EQ(p.get_byte(b), byte_of(w, b));
            REQUIRE_EQ(p.get_byte_7bit(b), uint8_t(byte_of(w, b) & 0x7F));
        }
        REQUIRE_EQ(unsigned(p.type()), w[0] >> 28);
        REQUIRE_EQ(unsigned(p.group()), (w[0] >> 24) & 15);
        REQUIRE_EQ(p.status(), byte_of(w, 1));
        REQUIRE_EQ(p.byte2(), byte_of(w, 1));
        REQUIRE_EQ(p.byte3(), byte_of(w, 2));
        REQUIRE_EQ(p.byte4(), byte_of(w, 3));
        const unsigned t = w[0] >> 28;
        REQUIRE_EQ(p.size(), ump_words(t));
        REQUIRE_EQ(p.has_channel(), t == 2 || t == 4 || t == 13);
        if (p.has_channel())
            REQUIRE_EQ(unsigned(p.channel()), (w[0] >> 16) & 15);
    }
    if (n > 1)
        s.nontrivial();
}

void equality(Src& s)
{
    uint32_t a[4], b[4];
    gen_words(s, a);
    memcpy(b, a, sizeof a);
    const auto mode = s.draw(3);
    if (mode == 1)
        b[s.draw(3)] ^= 1u << s.draw(31);
    else if (mode == 2)
        for (size_t i = ump_words(a[0] >> 28); i < 4; ++i)
            b[i] = uint32_t(s.u32());
    else if (mode == 3)
        gen_words(s, b);
    s.note([&](auto& o) { o << show_words(a, 4) << " == " << show_words(b, 4) << "\n"; });
    const universal_packet p(a[0], a[1], a[2], a[3]), q(b[0], b[1], b[2], b[3]);
    const bool want = !memcmp(a, b, 4 * ump_words(a[0] >> 28));
    REQUIRE_EQ(p == q, want);
    REQUIRE_EQ(q == p, want);
    REQUIRE_EQ(p != q, !want);
    REQUIRE_EQ(q != p, !want);
    if (mode)
        s.nontrivial();
}

//! a locale that groups digits, as most named ones do
struct Grouping : std::numpunct<char>
{
    std::string grp;
    char        sep;
    Grouping(std::string g, char c)
      : grp(std::move(g))
      , sep(c)
    {
    }
    std::string do_grouping() const override { return grp; }
    char        do_thousands_sep() const override { return sep; }
};
std::locale gen_locale(Src& s)
{
    if (!s.chance(1, 3))
        return std::locale::classic();
    const auto grp = s.pick<const char*>({ "\3", "\4", "\1", "\3\2", "\2" });
    return std::locale(std::locale::classic(), new Grouping(grp, s.pick<char>({ ',', '.', '\'', ' ', '_' })));
}

//! sequences of packets through text
void text(Src& s)
{
    std::vector<words> in;
    size_t             n = 0;
    in.push_back({});
    gen_words(s, in.back().w);
    while (s.more(n, 2, 10))
    {
        in.push_back({});
        gen_words(s, in.back().w);
    }
    std::ostringstream out;
    const auto         locale = gen_locale(s);
    out.imbue(locale);
    if (!(locale == std::locale::classic()))
        s.label("digit_grouping_locale");
    if (s.chance(1, 3)) out << std::uppercase;
    if (s.chance(1, 3)) out << std::hex;
    else if (s.chance(1, 3)) out << std::oct;
    if (s.chance(1, 3)) out << std::showbase;
    if (s.chance(1, 3)) out << std::left;
    else if (s.chance(1, 3)) out << std::internal;
    if (s.chance(1, 3)) out << std::boolalpha << std::showpos << std::unitbuf;
    out << std::setprecision(int(s.draw(20))) << std::setfill(s.pick<char>({ ' ', '*', '0' }));
    if (s.chance(1, 6)) out << std::setw(int(s.draw(30)));
    const auto flags = out.flags();
    const auto fill  = out.fill();
    const auto prec  = out.precision();
    const char* sep  = s.pick<const char*>({ " ", "\n", "\t", "  " });
    for (size_t i = 0; i < in.size(); ++i)
    {
        if (i)
            out << sep;
        out << universal_packet(in[i].w[0], in[i].w[1], in[i].w[2], in[i].w[3]);
        REQUIRE_EQ(out.flags() == flags, true);
        REQUIRE_EQ(out.fill(), fill);
        REQUIRE(out.getloc() == locale);
        REQUIRE_EQ(out.precision(), prec);
        REQUIRE_EQ(out.width(), std::streamsize(0));
    }
    REQUIRE(out.good());
    const bool tail = s.chance(1, 2);
    s.note([&](auto& o) { o << out.str() << "\n"; });
    // the text: words of 8 hex digits, separated by one blank
    {
        std::string want;
        char        b[16];
        for (size_t i = 0; i < in.size(); ++i)
        {
            if (i)
                want += sep;
            for (size_t k = 0; k < ump_words(in[i].w[0] >> 28); ++k)
            {
                snprintf(b, sizeof b, (flags & std::ios::uppercase) ? "%s%08X" : "%s%08x", k ? " " : "", in[i].w[k]);
                want += b;
            }
        }
        REQUIRE_EQ(out.str(), want);
    }
    std::istringstream is(out.str() + (tail ? " " : ""));
    if (s.chance(1, 3)) is >> std::hex;
    else if (s.chance(1, 3)) is >> std::oct;
    if (s.chance(1, 3)) is >> std::boolalpha;
    const auto iflags  = is.flags();
    const auto ilocale = gen_locale(s);
    is.imbue(ilocale);
    for (size_t i = 0; i < in.size(); ++i)
    {
        universal_packet p(uint32_t(s.u32()), 0xA5A5A5A5, 0x5A5A5A5A, 0xDEADBEEF); // stale content
        is >> p;
        REQUIRE_MSG(!is.fail(), "packet " << i << " cannot be read back from '" << out.str() << "'");
        REQUIRE_EQ(is.flags() == iflags, true);
        REQUIRE(is.getloc() == ilocale);
        const universal_packet q(in[i].w[0], in[i].w[1], in[i].w[2], in[i].w[3]);
        REQUIRE_MSG(p == q, "read back " << show_packet(p) << " instead of " << show_packet(q));
        REQUIRE_EQ(!is.good(), i + 1 == in.size() && !tail);
    }
    universal_packet none;
    is >> none;
    REQUIRE(is.fail());
    s.nontrivial();
}

} // namespace

const char* pbt::g_property = "C13";
std::vector<Facet> pbt::facets()
{
    return {
        { "fields", "at least two field writes", fields, 80000, 2000000 },
        { "equality", "operands not made identical", equality, 300000, 8000000 },
        { "text", "every case (packet sequence, random stream formatting)", text, 60000, 1500000 },
    };
}
