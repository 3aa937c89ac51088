// Runner: generation, parallel workers, crash isolation, shrinking, replay, statistics.
#include "pbt.h"

#include <algorithm>
#include <chrono>
#include <csignal>
#include <fstream>
#include <iostream>
#include <map>
#include <unordered_set>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:exitcode=77:abort_on_error=0:handle_abort=1:hard_rss_limit_mb=6000:"
           "max_allocation_size_mb=4000:detect_container_overflow=1:detect_stack_use_after_return=1";
}
extern "C" const char* __ubsan_default_options()
{
    return "print_stacktrace=0:halt_on_error=1:exitcode=77";
}

extern "C" const char* __tsan_default_options()
{
    return "halt_on_error=1:exitcode=77:die_after_fork=0";
}

namespace pbt {

Dictionary g_dict;

struct Shared
{
    static constexpr size_t cap = 1u << 17;
    volatile uint32_t state; // 0 idle, 1 running, 2 violated, 3 finished, 4 cpu limit
    volatile uint32_t facet;
    volatile u64      index;
    volatile uint32_t n;
    char              msg[4096];
    u64               choices[cap];
};

u64 Src::force(u64 v, u64 max)
{
    if (v > max)
        v = max;
    recorded.push_back(v);
    if (live && recorded.size() <= Shared::cap)
    {
        live->choices[recorded.size() - 1] = v;
        live->n                            = uint32_t(recorded.size());
    }
    return v;
}

u64 Src::draw(u64 max)
{
    u64 v = 0;
    switch (mode)
    {
    case random:
        if (pos < choices.size()) // forced prefix (enumeration)
            v = choices[pos++];
        else
            v = rng.upto(max);
        break;
    case replay:
        v = (pos < choices.size()) ? choices[pos++] : 0;
        break;
    case bytes: {
        u64 m = max;
        while (m && fz_left)
        {
            v = (v << 8) | *fz++;
            --fz_left;
            m >>= 8;
        }
        break;
    }
    }
    if (v > max)
        v = (max == ~u64(0)) ? v : v % (max + 1);
    return force(v, max);
}

u64 Src::bits(unsigned k)
{
    const u64 max = (k >= 64) ? ~u64(0) : ((u64(1) << k) - 1);
    if (mode != random || pos < choices.size())
        return draw(max);

    const auto r = rng.upto(99);
    u64        v = 0;
    if (r < 28)
        v = rng.upto(max);
    else if (r < 42)
        v = rng.upto(9);
    else if (r < 52)
        v = max - rng.upto(std::min<u64>(max, 9));
    else if (r < 64)
        v = (u64(1) << rng.upto(k - 1)) + rng.upto(2) - 1;
    else if (r < 70)
        v = rng.next() & rng.next() & max;
    else if (r < 80 && !g_dict.all.empty())
        v = (g_dict.all[rng.upto(g_dict.all.size() - 1)] + rng.upto(2) - 1) & max;
    else if (r < 92 && !g_dict.novel.empty())
        v = (g_dict.novel[rng.upto(g_dict.novel.size() - 1)] + rng.upto(2) - 1) & max;
    else
        v = rng.upto(max);
    return force(v & max, max);
}

size_t Src::size(size_t max)
{
    if (mode == bytes && max > 255) // keep most fuzzed sizes small
    {
        const u64 t = fz_left ? (--fz_left, *fz++) : 0;
        u64       v = t;
        if (t >= 224)
        {
            v = 0;
            for (u64 m = max; m && fz_left; m >>= 8, --fz_left)
                v = (v << 8) | *fz++;
            v %= max + 1;
        }
        return size_t(force(v, max));
    }
    if (mode != random || pos < choices.size())
        return size_t(draw(max));

    const auto r = rng.upto(99);
    u64        v = 0;
    if (r < 40)
        v = rng.upto(std::min<u64>(max, 16));
    else if (r < 60)
        v = rng.upto(std::min<u64>(max, 70));
    else if (r < 72)
    {
        static const u64 unit[] = { 6, 13, 14, 16, 128, 256, 12, 7 };
        v                       = unit[rng.upto(7)] * rng.upto(12) + rng.upto(2);
        v                       = v ? v - 1 : 0;
    }
    else if (r < 80 && !g_dict.all.empty())
        v = g_dict.all[rng.upto(g_dict.all.size() - 1)] + rng.upto(2) - 1;
    else if (r < 92 && !g_dict.novel.empty())
        v = g_dict.novel[rng.upto(g_dict.novel.size() - 1)] + rng.upto(12) - 6;
    else
        v = rng.upto(max);
    if (v > max)
        v = rng.upto(std::min<u64>(max, 16));
    return size_t(force(v, max));
}

} // namespace pbt

using namespace pbt;

namespace {

using clk = std::chrono::steady_clock;

struct Result
{
    int         code{ 0 }; // 0 ok, 1 violated, 2 crashed, 3 cpu limit
    std::string msg;
};

Shared* new_shared()
{
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED)
    {
        perror("mmap");
        std::_Exit(2);
    }
    return static_cast<Shared*>(p);
}

Shared* g_live = nullptr;

void on_cpu_limit(int)
{
    if (g_live)
        g_live->state = 4;
    _exit(98);
}

void arm(long seconds)
{
    itimerval t{};
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

void set_msg(Shared* s, const std::string& m)
{
    const size_t n = std::min(m.size(), sizeof(s->msg) - 1);
    memcpy(s->msg, m.data(), n);
    s->msg[n] = 0;
}

//! run one case in a forked child, isolated from crashes
Result run_isolated(const Facet& f, const std::vector<u64>& choices, Shared* sh, std::vector<u64>* recorded,
                    std::string* trace, std::string* err_tail, long cpu_limit = 20)
{
    sh->state  = 1;
    sh->n      = 0;
    sh->msg[0] = 0;
    int  errpipe[2] = { -1, -1 };
    int  outpipe[2] = { -1, -1 };
    if (pipe(errpipe) || pipe(outpipe))
        std::_Exit(2);
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0)
    {
        close(errpipe[0]);
        close(outpipe[0]);
        dup2(errpipe[1], 2);
        g_live = sh;
        signal(SIGVTALRM, on_cpu_limit);
        arm(cpu_limit);
        Src s;
        s.mode    = Src::replay;
        s.choices = choices;
        s.live    = sh;
        s.tracing = trace != nullptr;
        int st    = 3;
        try
        {
            f.fn(s);
        }
        catch (const Violated& v)
        {
            set_msg(sh, v.msg);
            st = 2;
        }
        catch (const std::exception& e)
        {
            set_msg(sh, std::string("unexpected exception: ") + e.what());
            st = 2;
        }
        if (s.tracing)
        {
            size_t off = 0;
            while (off < s.trace.size() && off < 60000)
            {
                auto n = write(outpipe[1], s.trace.data() + off, std::min<size_t>(s.trace.size() - off, 60000 - off));
                if (n <= 0)
                    break;
                off += size_t(n);
            }
        }
        sh->state = uint32_t(st);
        _exit(0);
    }
    close(errpipe[1]);
    close(outpipe[1]);
    std::string err, out;
    char        buf[4096];
    // trace output is limited to the pipe capacity (64 KiB), so sequential draining cannot deadlock
    for (ssize_t n; (n = read(errpipe[0], buf, sizeof buf)) > 0;)
        if (err.size() < 20000)
            err.append(buf, size_t(n));
    for (ssize_t n; (n = read(outpipe[0], buf, sizeof buf)) > 0;)
        out.append(buf, size_t(n));
    close(errpipe[0]);
    close(outpipe[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    if (recorded)
        recorded->assign(sh->choices, sh->choices + sh->n);
    if (trace)
        *trace = out;
    if (err_tail)
        *err_tail = err;
    Result r;
    switch (sh->state)
    {
    case 3: r.code = 0; break;
    case 2:
        r.code = 1;
        r.msg  = sh->msg;
        break;
    case 4:
        r.code = 3;
        r.msg  = "did not terminate within the CPU limit for one case";
        break;
    default: {
        r.code      = 2;
        std::string line;
        std::istringstream is(err);
        for (std::string l; std::getline(is, l);)
            if (l.find("runtime error") != std::string::npos || l.find("ERROR: AddressSanitizer") != std::string::npos ||
                l.find("WARNING: ThreadSanitizer") != std::string::npos ||
                l.find("Assertion") != std::string::npos)
            {
                line = l;
                break;
            }
        r.msg = "crashed (status " + std::to_string(status) + ") " + line;
        break;
    }
    }
    return r;
}

//! order: shorter is simpler, then lexicographic
bool simpler(const std::vector<u64>& a, const std::vector<u64>& b)
{
    if (a.size() != b.size())
        return a.size() < b.size();
    return a < b;
}

struct Shrinker
{
    const Facet&     f;
    Shared*          sh;
    std::vector<u64> best;
    Result           res;
    long             attempts{ 0 };
    clk::time_point  end;

    bool attempt(const std::vector<u64>& c)
    {
        if (clk::now() > end || !simpler(c, best))
            return false;
        ++attempts;
        std::vector<u64> rec;
        auto             r = run_isolated(f, c, sh, &rec, nullptr, nullptr, 10);
        if (r.code == 0)
            return false;
        if (r.code == 3 && res.code != 3)
            return false;
        // keep the values actually consumed
        if (!rec.empty() && rec.size() < Shared::cap && simpler(rec, c))
            best = rec;
        else
            best = c;
        res = r;
        return true;
    }

    void run(double seconds)
    {
        end          = clk::now() + std::chrono::milliseconds(long(seconds * 1000));
        bool changed = true;
        while (changed && clk::now() < end)
        {
            changed = false;
            // delete blocks
            for (size_t len : { 256u, 64u, 32u, 16u, 12u, 10u, 9u, 8u, 7u, 6u, 5u, 4u, 3u, 2u, 1u })
            {
                for (size_t i = best.size(); i-- > 0;)
                {
                    if (i + len > best.size())
                        continue;
                    auto c = best;
                    c.erase(c.begin() + long(i), c.begin() + long(i + len));
                    if (attempt(c))
                        changed = true;
                    if (clk::now() > end)
                        return;
                }
            }
            // reduce a count together with one of the elements after it
            for (size_t i = 0; i < best.size(); ++i)
            {
                if (best[i] == 0 || best[i] > 4096)
                    continue;
                for (size_t j = i + 1; j < best.size() && j <= i + 8; ++j)
                {
                    auto c = best;
                    --c[i];
                    c.erase(c.begin() + long(j));
                    if (attempt(c))
                    {
                        changed = true;
                        break;
                    }
                }
            }
            // zero blocks
            for (size_t len : { 16u, 4u })
                for (size_t i = 0; i + len <= best.size(); i += len)
                {
                    auto c = best;
                    std::fill(c.begin() + long(i), c.begin() + long(i + len), 0);
                    if (c != best && attempt(c))
                        changed = true;
                }
            // minimise single values
            for (size_t i = 0; i < best.size(); ++i)
            {
                if (best[i] == 0)
                    continue;
                auto c = best;
                c[i]   = 0;
                if (attempt(c))
                {
                    changed = true;
                    continue;
                }
                u64 lo = 0; // known not failing (or unknown), best[i] failing
                for (int step = 0; step < 64 && i < best.size() && best[i] > lo + 1; ++step)
                {
                    const u64 mid = lo + (best[i] - lo) / 2;
                    c             = best;
                    c[i]          = mid;
                    if (attempt(c))
                        changed = true;
                    else
                        lo = mid;
                }
                if (i < best.size() && best[i])
                {
                    c = best;
                    --c[i];
                    if (attempt(c))
                        changed = true;
                }
            }
        }
    }
};

std::string json_str(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        switch (c)
        {
        case '"': r += "\\\""; break;
        case '\\': r += "\\\\"; break;
        case '\n': r += "\\n"; break;
        case '\t': r += "\\t"; break;
        default:
            if (c < 0x20 || c >= 0x7f)
            {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", c);
                r += b;
            }
            else
                r += char(c);
        }
    }
    return r + "\"";
}

struct FacetStats
{
    u64                         cases{ 0 }, nontrivial{ 0 };
    std::vector<u64>            hashes;
    std::map<std::string, u64>  labels;
    std::vector<std::vector<u64>> samples;
};

constexpr size_t hash_cap = 3000000;

u64 facet_hash(const Facet& f)
{
    u64 fh = 14695981039346656037ull;
    for (const char* c = f.name; *c; ++c)
        fh = (fh ^ u64(*c)) * 1099511628211ull;
    return fh;
}

//! prepare s for generating case i
void prepare(Src& s, const Facet& f, u64 seed, u64 fh, u64 i)
{
    s.mode = Src::random;
    s.pos  = 0;
    s.choices.clear();
    s.recorded.clear();
    s.labels.clear();
    s.nontrivial_ = false;
    s.rng.s       = mix(mix(seed) ^ mix(fh + i * 0x9E3779B97F4A7C15ull));
    if (f.enumerate)
        s.choices.push_back(i % f.enumerate);
}

//! worker: run its share of all facets
void worker(const std::vector<Facet>& fs, const std::vector<u64>& counts, unsigned w, unsigned W, u64 seed,
            Shared* sh, const std::string& file, clk::time_point deadline)
{
    g_live = sh;
    signal(SIGVTALRM, on_cpu_limit);
    std::vector<FacetStats> st(fs.size());
    bool                    truncated = false;
    for (size_t fi = 0; fi < fs.size() && !truncated; ++fi)
    {
        const Facet&             f = fs[fi];
        std::unordered_set<u64>  seen;
        FacetStats&              fst = st[fi];
        const u64                fh  = facet_hash(f);
        Src s;
        s.live = sh;
        for (u64 i = w; i < counts[fi]; i += W)
        {
            prepare(s, f, seed, fh, i);
            sh->n     = 0;
            sh->facet = uint32_t(fi);
            sh->index = i;
            sh->state = 1;
            if ((i / W) % 64 == 0)
            {
                arm(60);
                if (clk::now() > deadline)
                {
                    truncated = true;
                    break;
                }
            }
            try
            {
                f.fn(s);
            }
            catch (const Violated& v)
            {
                set_msg(sh, v.msg);
                sh->state = 2;
                _exit(1);
            }
            catch (const std::exception& e)
            {
                set_msg(sh, std::string("unexpected exception: ") + e.what());
                sh->state = 2;
                _exit(1);
            }
            ++fst.cases;
            for (auto& l : s.labels)
                ++fst.labels[l];
            if (s.nontrivial_)
            {
                ++fst.nontrivial;
                u64 h = 14695981039346656037ull;
                for (u64 c : s.recorded)
                    h = mix(h ^ c);
                if (seen.size() < hash_cap)
                    seen.insert(h);
                if (fst.samples.size() < 2 && w == 0)
                    fst.samples.push_back(s.recorded);
            }
        }
        fst.hashes.assign(seen.begin(), seen.end());
    }
    arm(0);
    sh->state = 0;
    // dump
    std::ofstream o(file, std::ios::binary);
    auto          put = [&](u64 v) { o.write(reinterpret_cast<const char*>(&v), 8); };
    put(truncated ? 1 : 0);
    for (auto& x : st)
    {
        put(x.cases);
        put(x.nontrivial);
        put(x.hashes.size());
        o.write(reinterpret_cast<const char*>(x.hashes.data()), std::streamsize(x.hashes.size() * 8));
        put(x.labels.size());
        for (auto& [k, v] : x.labels)
        {
            put(k.size());
            o.write(k.data(), std::streamsize(k.size()));
            put(v);
        }
        put(x.samples.size());
        for (auto& smp : x.samples)
        {
            put(smp.size());
            o.write(reinterpret_cast<const char*>(smp.data()), std::streamsize(smp.size() * 8));
        }
    }
    o.close();
    sh->state = 3;
    _exit(o.good() ? 0 : 5);
}

void write_replay(const std::string& path, const Facet& f, const std::vector<u64>& c, const Result& r,
                  const std::string& trace, const std::string& err)
{
    std::ofstream o(path);
    o << "property " << g_property << "\n";
    o << "facet " << f.name << "\n";
    o << "choices " << c.size();
    for (u64 v : c)
        o << ' ' << v;
    o << "\n";
    std::string m = r.msg;
    std::replace(m.begin(), m.end(), '\n', ' ');
    o << "message " << m << "\n";
    o << "--- case\n" << trace << "\n";
    if (!err.empty())
        o << "--- stderr\n" << err.substr(0, 6000) << "\n";
}

const Facet* find_facet(const std::vector<Facet>& fs, const std::string& n)
{
    for (auto& f : fs)
        if (n == f.name)
            return &f;
    return nullptr;
}

//! shrink, confirm 3x, write replay.  false: not reproducible
bool report(const Facet& f, const std::vector<u64>& c0, Shared* sh, const std::string& replay_path, double shrink_s,
            std::string& out_msg)
{
    Shrinker s{ f, sh, c0, run_isolated(f, c0, sh, nullptr, nullptr, nullptr), 0, {} };
    if (s.res.code == 0)
        return false;
    s.run(shrink_s);
    for (const std::vector<u64>* cand : { static_cast<const std::vector<u64>*>(&s.best), &c0 })
    {
        Result      r;
        std::string trace, err;
        bool        ok = true;
        for (int i = 0; i < 3 && ok; ++i)
        {
            r  = run_isolated(f, *cand, sh, nullptr, &trace, &err);
            ok = r.code != 0;
        }
        if (ok)
        {
            write_replay(replay_path, f, *cand, r, trace, err);
            out_msg = std::string(f.name) + ": " + r.msg + " (shrunk in " + std::to_string(s.attempts) + " attempts)";
            return true;
        }
    }
    return false;
}

//---- failures that depend on the cases run before in the same process (state kept between calls)

struct HistCase
{
    size_t           facet;
    std::vector<u64> choices;
};
using History = std::vector<HistCase>;

//! a history as one case
Facet as_facet(const std::vector<Facet>& fs, const History& h)
{
    Facet r;
    r.name = "history";
    r.rule = "";
    r.fn   = [&fs, h](Src& s) {
        for (size_t i = 0; i < h.size(); ++i)
        {
            Src q;
            q.mode    = Src::replay;
            q.choices = h[i].choices;
            q.tracing = s.tracing;
            s.note([&](auto& o) { o << "case " << i << " (" << fs[h[i].facet].name << ")\n"; });
            try
            {
                fs[h[i].facet].fn(q);
            }
            catch (...)
            {
                s.trace += q.trace;
                throw;
            }
            s.trace += q.trace;
        }
    };
    return r;
}

//! the last k cases worker w ran up to case `index` of facet `fi`; false: there are fewer
bool last_cases(const std::vector<Facet>& fs, const std::vector<u64>& counts, unsigned w, unsigned W, u64 seed, size_t fi,
                u64 index, size_t k, const std::string& tmp, History& out)
{
    std::vector<std::pair<size_t, u64>> idx;
    bool                                all = false;
    for (size_t f = fi;;)
    {
        idx.push_back({ f, index });
        if (idx.size() == k)
            break;
        if (index >= W)
            index -= W;
        else
        {
            do
            {
                if (f == 0)
                    all = true;
                else
                    --f;
            } while (!all && counts[f] <= w);
            if (all)
                break;
            index = w + (counts[f] - 1 - w) / W * W;
        }
    }
    std::reverse(idx.begin(), idx.end());
    unlink(tmp.c_str());
    fflush(nullptr);
    if (const pid_t pid = fork(); pid == 0)
    {
        const int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 2);
        std::ofstream o(tmp, std::ios::binary);
        auto          put = [&](u64 v) { o.write(reinterpret_cast<const char*>(&v), 8); };
        arm(200);
        for (auto& [f, i] : idx)
        {
            Src s;
            prepare(s, fs[f], seed, facet_hash(fs[f]), i);
            try
            {
                fs[f].fn(s);
            }
            catch (...)
            {
            }
            put(f);
            put(s.recorded.size());
            o.write(reinterpret_cast<const char*>(s.recorded.data()), std::streamsize(s.recorded.size() * 8));
        }
        o.close();
        _exit(0);
    }
    else
        waitpid(pid, nullptr, 0);
    out.clear();
    std::ifstream in(tmp, std::ios::binary);
    auto          get = [&](u64& v) { return bool(in.read(reinterpret_cast<char*>(&v), 8)); };
    for (u64 f, n; get(f) && get(n);)
    {
        HistCase c{ size_t(f), std::vector<u64>(n) };
        in.read(reinterpret_cast<char*>(c.choices.data()), std::streamsize(n * 8));
        out.push_back(c);
    }
    unlink(tmp.c_str());
    return !all;
}

bool report_history(const std::vector<Facet>& fs, const std::vector<u64>& counts, unsigned w, unsigned W, u64 seed, size_t fi,
                    u64 index, Shared* sh, const std::string& rdir, std::string& out_msg)
{
    const auto end   = clk::now() + std::chrono::seconds(120);
    auto       fails = [&](const History& h) { return run_isolated(as_facet(fs, h), {}, sh, nullptr, nullptr, nullptr, 100).code != 0; };
    History    h;
    bool       found = false;
    for (size_t k = 4; !found && clk::now() < end; k *= 8)
    {
        const bool more = last_cases(fs, counts, w, W, seed, fi, index, k, rdir + "/history.tmp", h);
        found           = fails(h);
        if (!more)
            break;
    }
    if (!found)
        return false;
    // drop cases, from big blocks to single ones
    for (size_t len = std::max<size_t>(1, h.size() / 2); len && clk::now() < end; len /= 2)
        for (size_t i = h.size(); i-- > 0 && clk::now() < end;)
        {
            if (i + len > h.size() || (i % len && len > 1))
                continue;
            History c = h;
            c.erase(c.begin() + long(i), c.begin() + long(i + len));
            if (!c.empty() && fails(c))
                h = c;
        }
    Result      r;
    std::string trace, err;
    const Facet f = as_facet(fs, h);
    for (int i = 0; i < 3; ++i)
    {
        r = run_isolated(f, {}, sh, nullptr, &trace, &err, 100);
        if (r.code == 0)
            return false;
    }
    std::ofstream o(rdir + "/" + g_property + ".replay");
    o << "property " << g_property << "\nhistory " << h.size() << "\n";
    for (auto& c : h)
    {
        o << fs[c.facet].name << ' ' << c.choices.size();
        for (u64 v : c.choices)
            o << ' ' << v;
        o << "\n";
    }
    std::string m = r.msg;
    std::replace(m.begin(), m.end(), '\n', ' ');
    o << "message " << m << "\n--- cases\n" << trace << "\n";
    if (!err.empty())
        o << "--- stderr\n" << err.substr(0, 6000) << "\n";
    out_msg = "history of " + std::to_string(h.size()) + " cases: " + r.msg;
    return true;
}

std::vector<u64> read_dict(const std::string& f)
{
    std::vector<u64> r;
    std::ifstream    i(f);
    for (u64 v; i >> v;)
        r.push_back(v);
    return r;
}

} // namespace

namespace {
//! worth searching beyond its enumeration
bool fuzzable(const Facet& f) { return f.fuzz && (!f.enumerate || f.thorough >= 20 * f.enumerate); }
} // namespace

#ifdef PBT_FUZZ

namespace {
std::vector<Facet> g_fs;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    if (g_fs.empty())
        for (auto& f : facets())
            if (fuzzable(f))
                g_fs.push_back(f);
    if (size < 2)
        return 0;
    const Facet& f = g_fs[data[0] % g_fs.size()];
    Src          s;
    s.mode    = Src::bytes;
    s.fz      = data + 1;
    s.fz_left = size - 1;
    try
    {
        f.fn(s);
    }
    catch (const Violated& v)
    {
        fprintf(stderr, "VIOLATED %s: %s\n", f.name, v.msg.c_str());
        __builtin_trap();
    }
    return 0;
}

#else

int main(int argc, char** argv)
{
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2)
        a[argv[i]] = argv[i + 1];

    if (a.count("--probe"))
        return 0;
    const auto fs    = facets();
    Shared*    base  = new_shared();
    const auto rdir  = a.count("--replay-dir") ? a["--replay-dir"] : std::string(".");

    if (a.count("--replay"))
    {
        std::ifstream in(a["--replay"]);
        std::string   key, facet;
        std::vector<u64> c;
        History          hist;
        while (in >> key)
        {
            if (key == "property")
            {
                std::string p;
                in >> p;
                if (p != g_property)
                {
                    std::cerr << "replay is for property " << p << "\n";
                    return 2;
                }
            }
            else if (key == "facet")
                in >> facet;
            else if (key == "history")
            {
                size_t n = 0;
                in >> n;
                for (size_t len = 0; n && in >> facet >> len; --n)
                {
                    const Facet* f = find_facet(fs, facet);
                    if (!f)
                        break;
                    HistCase hc{ size_t(f - fs.data()), {} };
                    for (u64 v; len && in >> v; --len)
                        hc.choices.push_back(v);
                    hist.push_back(hc);
                }
                break;
            }
            else if (key == "choices")
            {
                size_t n = 0;
                in >> n;
                for (u64 v; n && in >> v; --n)
                    c.push_back(v);
                break;
            }
        }
        const Facet  hf = as_facet(fs, hist);
        const Facet* f  = hist.empty() ? find_facet(fs, facet) : &hf;
        if (!f)
        {
            std::cerr << "unknown facet '" << facet << "'\n";
            return 2;
        }
        std::string trace, err;
        auto        r = run_isolated(*f, c, base, nullptr, &trace, &err);
        std::cout << trace << "\n";
        if (r.code)
        {
            std::cout << err << "\nREPLAY FAILS: " << r.msg << "\n";
            return 1;
        }
        std::cout << "REPLAY PASSES\n";
        return 0;
    }

    if (a.count("--bytes")) // libFuzzer artifact -> shrunk replay file
    {
        std::vector<Facet> ff;
        for (auto& f : fs)
            if (fuzzable(f))
                ff.push_back(f);
        std::ifstream        in(a["--bytes"], std::ios::binary);
        std::vector<uint8_t> d((std::istreambuf_iterator<char>(in)), {});
        if (d.size() < 2)
            return 0;
        const Facet& f = ff[d[0] % ff.size()];
        // record the choices the bytes decode to (in a child: the case may crash)
        base->n = 0;
        fflush(nullptr);
        if (const pid_t pid = fork(); pid == 0)
        {
            g_live = base;
            signal(SIGVTALRM, on_cpu_limit);
            arm(20);
            Src s;
            s.mode    = Src::bytes;
            s.fz      = d.data() + 1;
            s.fz_left = d.size() - 1;
            s.live    = base;
            try
            {
                f.fn(s);
            }
            catch (...)
            {
            }
            _exit(0);
        }
        else
            waitpid(pid, nullptr, 0);
        std::vector<u64> c(base->choices, base->choices + base->n);
        std::string      msg;
        if (report(f, c, base, rdir + "/" + g_property + ".replay", 40, msg))
        {
            std::cout << "FAILED " << msg << "\n";
            return 1;
        }
        return 0;
    }

    const bool     thorough = a["--tier"] == "thorough";
    const u64      seed     = a.count("--seed") ? std::stoull(a["--seed"]) : 1;
    const unsigned W        = a.count("--workers") ? unsigned(std::stoul(a["--workers"])) : 8u;
    const double   scale    = a.count("--scale") ? std::stod(a["--scale"]) : 1.0;
    const double   limit    = a.count("--time-limit") ? std::stod(a["--time-limit"]) : 300;
    if (a.count("--dict"))
        g_dict.all = read_dict(a["--dict"]);
    if (a.count("--novel"))
        g_dict.novel = read_dict(a["--novel"]);

    std::vector<u64> counts;
    for (auto& f : fs)
    {
        const u64 n = u64(double(thorough ? f.thorough : f.quick) * scale);
        counts.push_back(f.enumerate ? std::max<u64>(f.enumerate, n) : std::max<u64>(n, 1));
    }

    const auto               t0 = clk::now();
    const auto               deadline = t0 + std::chrono::milliseconds(long(limit * 1000));
    std::vector<Shared*>     sh;
    std::vector<pid_t>       pids;
    std::vector<std::string> files;
    for (unsigned w = 0; w < W; ++w)
    {
        sh.push_back(new_shared());
        files.push_back(rdir + "/stats." + std::to_string(w));
        unlink(files.back().c_str());
        fflush(nullptr);
        const pid_t p = fork();
        if (p == 0)
        {
            const int nul = open("/dev/null", O_WRONLY);
            dup2(nul, 2); // sanitizer reports are reproduced by the isolated re-run
            worker(fs, counts, w, W, seed, sh[w], files[w], deadline);
        }
        pids.push_back(p);
    }
    int         failed = -1;
    unsigned    alive  = W;
    std::string violation;
    bool        irreproducible = false;
    std::vector<bool> done(W, false);
    while (alive)
    {
        int         status = 0;
        const pid_t p      = wait(&status);
        if (p < 0)
            break;
        for (unsigned w = 0; w < W; ++w)
            if (pids[w] == p && !done[w])
            {
                done[w] = true;
                --alive;
                if (sh[w]->state != 3 && failed < 0)
                {
                    failed = int(w);
                    // the others are no longer needed
                    for (unsigned k = 0; k < W; ++k)
                        if (!done[k])
                            kill(pids[k], SIGKILL);
                }
            }
    }
    if (failed >= 0)
    {
        Shared*          s = sh[unsigned(failed)];
        std::vector<u64> c(s->choices, s->choices + s->n);
        const Facet&     f = fs[s->facet];
        const std::string first = s->msg;
        if (!report(f, c, base, rdir + "/" + g_property + ".replay", 40, violation) &&
            !report_history(fs, counts, unsigned(failed), W, seed, s->facet, s->index, base, rdir, violation))
        {
            irreproducible = true;
            std::cout << "NOT REPRODUCIBLE facet=" << f.name << " index=" << s->index << " state=" << s->state << " "
                      << first << "\n";
        }
    }

    // merge statistics
    bool                    truncated = false;
    std::vector<FacetStats> tot(fs.size());
    if (failed < 0)
        for (unsigned w = 0; w < W; ++w)
        {
            std::ifstream in(files[w], std::ios::binary);
            auto          get = [&]() {
                u64 v = 0;
                in.read(reinterpret_cast<char*>(&v), 8);
                return v;
            };
            truncated |= get() != 0;
            for (auto& t : tot)
            {
                t.cases += get();
                t.nontrivial += get();
                const u64  n   = get();
                const auto old = t.hashes.size();
                t.hashes.resize(old + n);
                in.read(reinterpret_cast<char*>(t.hashes.data() + old), std::streamsize(n * 8));
                for (u64 l = get(); l; --l)
                {
                    std::string k(get(), ' ');
                    in.read(k.data(), std::streamsize(k.size()));
                    t.labels[k] += get();
                }
                for (u64 l = get(); l; --l)
                {
                    std::vector<u64> smp(get());
                    in.read(reinterpret_cast<char*>(smp.data()), std::streamsize(smp.size() * 8));
                    t.samples.push_back(smp);
                }
            }
        }
    for (auto& f : files)
        unlink(f.c_str());

    std::ostringstream j;
    j << "{\"truncated\":" << (truncated ? "true" : "false") << ",\"irreproducible\":"
      << (irreproducible ? "true" : "false") << ",\"violation\":" << json_str(violation) << ",\"facets\":[";
    for (size_t i = 0; i < fs.size(); ++i)
    {
        auto& t = tot[i];
        std::sort(t.hashes.begin(), t.hashes.end());
        const auto distinct = u64(std::unique(t.hashes.begin(), t.hashes.end()) - t.hashes.begin());
        j << (i ? "," : "") << "{\"name\":" << json_str(fs[i].name) << ",\"rule\":" << json_str(fs[i].rule)
          << ",\"cases\":" << t.cases << ",\"nontrivial\":" << t.nontrivial << ",\"distinct\":" << distinct
          << ",\"enumerated\":" << fs[i].enumerate << ",\"labels\":{";
        bool first = true;
        for (auto& [k, v] : t.labels)
        {
            j << (first ? "" : ",") << json_str(k) << ":" << v;
            first = false;
        }
        j << "},\"samples\":[";
        first = true;
        if (failed < 0)
            for (auto& smp : t.samples)
            {
                std::string tr;
                run_isolated(fs[i], smp, base, nullptr, &tr, nullptr);
                j << (first ? "" : ",") << json_str(tr.substr(0, 600));
                first = false;
            }
        j << "]}";
    }
    j << "]}";
    if (a.count("--out"))
        std::ofstream(a["--out"]) << j.str() << "\n";
    else
        std::cout << j.str() << "\n";
    if (!violation.empty())
    {
        std::cout << "FAILED " << violation << "\n";
        return 1;
    }
    return 0;
}

#endif
