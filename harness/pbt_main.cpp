// Driver of a harness binary. Modes:
//   list                                   registered sub-checks, one JSON object per line
//   worker <seed> <tier> <i> <n> <secs> <out> [sub-check]   runs the cases with index = i (mod n) of every sub-check
//   shrink <sub-check> <seed> <index> <tier> <out>          minimises a failing case (each attempt in a forked child)
//   shrinkfile <replay-in> <out>                            the same, from a recorded choice sequence
//   replay <file>                                           runs one recorded case; exit 0 holds, 1 fails
#include "pbt.hpp"

#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <unordered_set>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace
{

constexpr int HANG_CPU_SECONDS = 20;

std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\')
        {
            o += '\\';
            o += static_cast<char>(ch);
        }
        else if (ch < 0x20 || ch >= 0x7f)
        {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        }
        else
        {
            o += static_cast<char>(ch);
        }
    }
    return o;
}

struct shared_state
{
    volatile std::uint64_t sub;
    volatile std::uint64_t index;
    volatile std::uint64_t running;
    volatile std::uint64_t hang;
};
shared_state*          g_shared = nullptr;
volatile std::uint64_t g_case   = 0;
std::uint64_t          g_last   = ~0ull;
int                    g_ticks  = 0;

void on_tick(int)
{
    // CPU-time ticks (1 s each): a single case that consumes HANG_CPU_SECONDS does not terminate for our purposes
    if (g_case != g_last)
    {
        g_last  = g_case;
        g_ticks = 0;
        return;
    }
    if (++g_ticks >= HANG_CPU_SECONDS)
    {
        if (g_shared)
        {
            g_shared->hang = 1;
        }
        const char m[] = "\nPBT: case exceeded its CPU budget (does not terminate)\n";
        (void)!write(2, m, sizeof m - 1);
        _exit(77);
    }
}
void arm_watchdog()
{
    g_last = ~0ull;
    struct sigaction sa
    {};
    sa.sa_handler = on_tick;
    sa.sa_flags   = SA_RESTART;
    sigaction(SIGPROF, &sa, nullptr);
    itimerval tv{{1, 0}, {1, 0}};
    setitimer(ITIMER_PROF, &tv, nullptr);
}

struct outcome
{
    bool        failed{false};
    bool        discarded{false};
    std::string msg;
};

outcome run_one(const pbt::prop& p, pbt::ctx& c)
{
    outcome o;
    try
    {
        p.fn(c);
    }
    catch (const pbt::discard&)
    {
        o.discarded = true;
    }
    catch (const pbt::failure& f)
    {
        o.failed = true;
        o.msg    = f.what();
    }
    catch (const std::exception& e)
    {
        o.failed = true;
        o.msg    = std::string{"unexpected exception: "} + e.what();
    }
    return o;
}

std::uint64_t case_seed(std::uint64_t seed, const std::string& name, std::uint64_t idx)
{
    return pbt::mix(pbt::mix(pbt::splitmix(seed), pbt::hash_str(name)), idx);
}

const pbt::prop* find_prop(const std::string& n, std::size_t* pos = nullptr)
{
    for (std::size_t i = 0; i < pbt::registry().size(); ++i)
    {
        if (pbt::registry()[i].name == n)
        {
            if (pos)
            {
                *pos = i;
            }
            return &pbt::registry()[i];
        }
    }
    return nullptr;
}

double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

int worker(int argc, char** argv)
{
    const std::uint64_t seed     = std::strtoull(argv[2], nullptr, 10);
    const bool          thorough = std::string{argv[3]} == "thorough";
    const std::uint64_t wi       = std::strtoull(argv[4], nullptr, 10);
    const std::uint64_t wn       = std::strtoull(argv[5], nullptr, 10);
    const double        secs     = std::strtod(argv[6], nullptr);
    const std::string   out      = argv[7];
    const std::string   only     = argc > 8 ? argv[8] : "";

    // crash-surviving record of the running case
    const std::string st = out + ".state";
    const int         fd = open(st.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(shared_state)) != 0)
    {
        return 3;
    }
    g_shared = static_cast<shared_state*>(mmap(nullptr, sizeof(shared_state), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    std::memset(const_cast<shared_state*>(g_shared), 0, sizeof(shared_state));
    arm_watchdog();

    const double  t0 = now();
    std::ofstream os{out};
    std::ofstream hs{out + ".keys", std::ios::binary};

    const auto  total_weight = static_cast<double>(pbt::registry().size());
    std::size_t pi           = 0;
    for (; pi < pbt::registry().size(); ++pi)
    {
        const auto& p = pbt::registry()[pi];
        if ((!only.empty() && p.name != only) || !p.known.empty())
        {
            continue;
        }
        const auto                           n = thorough ? p.thorough : p.quick;
        std::uint64_t                        cases = 0, discards = 0, evals = 0, nontriv = 0;
        std::unordered_set<std::uint64_t>    keys;
        std::map<std::string, std::uint64_t> labels;
        std::vector<std::string>             samples;
        std::string                          fail_msg;
        std::uint64_t                        fail_idx  = 0;
        bool                                 failed    = false;
        bool                                 truncated = false;
        // no sub-check may starve the ones after it
        const double deadline =
            only.empty() ? t0 + secs * (static_cast<double>(pi) + 1.0) / total_weight + secs * 0.3 : t0 + secs;
        for (std::uint64_t i = wi; i < n; i += wn)
        {
            if (now() > std::min(deadline, t0 + secs))
            {
                truncated = true;
                break;
            }
            g_shared->sub     = pi;
            g_shared->index   = i;
            g_shared->running = 1;
            g_case            = g_case + 1;
            pbt::ctx c{case_seed(seed, p.name, i), i};
            c.thorough   = thorough;
            c.want_notes = samples.size() < 3;
            const auto o = run_one(p, c);
            g_shared->running = 0;
            ++cases;
            if (o.discarded)
            {
                ++discards;
                continue;
            }
            evals += c.evals;
            for (const auto& [l, k] : c.labels)
            {
                labels[l] += k;
            }
            if (c.nontriv)
            {
                ++nontriv;
                if (keys.size() < 3000000)
                {
                    keys.insert(pbt::mix(pbt::hash_str(p.name), c.distinct_hash()));
                }
                if (samples.size() < 3 && !c.notes.empty())
                {
                    std::string s;
                    for (const auto& l : c.notes)
                    {
                        s += (s.empty() ? "" : " | ") + l;
                        if (s.size() > 600)
                        {
                            break;
                        }
                    }
                    samples.push_back(s.substr(0, 600));
                }
            }
            if (o.failed)
            {
                failed   = true;
                fail_idx = i;
                fail_msg = o.msg;
                break;
            }
        }
        os << "{\"sub\":\"" << jesc(p.name) << "\",\"rule\":\"" << jesc(p.rule) << "\",\"known\":\"" << jesc(p.known)
           << "\",\"cases\":" << cases << ",\"discards\":" << discards << ",\"evals\":" << evals
           << ",\"nontrivial\":" << nontriv << ",\"truncated\":" << (truncated ? "true" : "false")
           << ",\"failed\":" << (failed ? "true" : "false") << ",\"fail_index\":" << fail_idx << ",\"msg\":\""
           << jesc(fail_msg) << "\",\"labels\":{";
        bool first = true;
        for (const auto& [l, k] : labels)
        {
            os << (first ? "" : ",") << '"' << jesc(l) << "\":" << k;
            first = false;
        }
        os << "},\"samples\":[";
        for (std::size_t s = 0; s < samples.size(); ++s)
        {
            os << (s ? "," : "") << '"' << jesc(samples[s]) << '"';
        }
        os << "]}\n" << std::flush;
        for (auto k : keys)
        {
            hs.write(reinterpret_cast<const char*>(&k), sizeof k);
        }
        hs.flush();
    }
    os << "{\"done\":true}\n" << std::flush;
    return 0;
}

// ---- shrinking ----------------------------------------------------------------------------------------------------

struct attempt
{
    bool                       failed{false};
    std::string                msg;
    std::string                kind;  // "property", "exception", "signal", "hang"
    std::vector<std::uint64_t> rec;
    std::vector<std::string>   notes;
};

void put(std::string& b, std::uint64_t v)
{
    b.append(reinterpret_cast<const char*>(&v), sizeof v);
}

struct shared_rec
{
    volatile std::uint64_t n;
    std::uint64_t          v[1u << 18u];
};

using maker = std::function<pbt::ctx()>;

attempt run_forked(const pbt::prop& p, const maker& make, bool thorough)
{
    int pfd[2];
    int efd[2];
    if (pipe(pfd) != 0 || pipe(efd) != 0)
    {
        std::exit(3);
    }
    const pid_t pid = fork();
    if (pid == 0)
    {
        close(pfd[0]);
        close(efd[0]);
        dup2(efd[1], 2);
        dup2(efd[1], 1);
        arm_watchdog();
        pbt::ctx c = make();
        c.thorough = thorough;
        const auto  o = run_one(p, c);
        std::string b;
        put(b, o.failed ? 1 : 0);
        put(b, c.rec.size());
        for (auto v : c.rec)
        {
            put(b, v);
        }
        put(b, o.msg.size());
        b += o.msg;
        put(b, c.notes.size());
        for (const auto& n : c.notes)
        {
            put(b, n.size());
            b += n;
        }
        std::size_t off = 0;
        while (off < b.size())
        {
            const auto w = write(pfd[1], b.data() + off, b.size() - off);
            if (w <= 0)
            {
                break;
            }
            off += static_cast<std::size_t>(w);
        }
        close(pfd[1]);
        _exit(0);
    }
    close(pfd[1]);
    close(efd[1]);
    std::string data;
    std::string err;
    char        buf[65536];
    bool        a = true;
    bool        e = true;
    while (a || e)
    {
        fd_set fs;
        FD_ZERO(&fs);
        if (a)
        {
            FD_SET(pfd[0], &fs);
        }
        if (e)
        {
            FD_SET(efd[0], &fs);
        }
        if (select(std::max(pfd[0], efd[0]) + 1, &fs, nullptr, nullptr, nullptr) < 0)
        {
            continue;
        }
        if (a && FD_ISSET(pfd[0], &fs))
        {
            const auto r = read(pfd[0], buf, sizeof buf);
            if (r <= 0)
            {
                a = false;
            }
            else
            {
                data.append(buf, static_cast<std::size_t>(r));
            }
        }
        if (e && FD_ISSET(efd[0], &fs))
        {
            const auto r = read(efd[0], buf, sizeof buf);
            if (r <= 0)
            {
                e = false;
            }
            else if (err.size() < 20000)
            {
                err.append(buf, static_cast<std::size_t>(r));
            }
        }
    }
    close(pfd[0]);
    close(efd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    attempt r;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && data.size() >= 16)
    {
        const char* q   = data.data();
        auto        get = [&]
        {
            std::uint64_t v = 0;
            std::memcpy(&v, q, sizeof v);
            q += sizeof v;
            return v;
        };
        r.failed     = get() != 0;
        const auto n = get();
        for (std::uint64_t i = 0; i < n; ++i)
        {
            r.rec.push_back(get());
        }
        const auto ml = get();
        r.msg.assign(q, ml);
        q += ml;
        const auto nn = get();
        for (std::uint64_t i = 0; i < nn; ++i)
        {
            const auto l = get();
            r.notes.emplace_back(q, l);
            q += l;
        }
        r.kind = "property";
        return r;
    }
    r.failed = true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77)
    {
        r.kind = "hang";
        r.msg  = "the call does not terminate within its CPU budget";
    }
    else
    {
        r.kind = "crash";
        r.msg  = "the process died (" +
                (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) +
                "): " + err.substr(0, 6000);
    }
    return r;
}

void write_replay(const std::string& path, const pbt::prop& p, const attempt& a, const std::vector<std::uint64_t>& ch,
                  bool thorough)
{
    std::ofstream os{path};
    os << "sub-check: " << p.name << "\n";
    os << "tier: " << (thorough ? "thorough" : "quick") << "\n";
    os << "choices:";
    for (auto v : ch)
    {
        os << ' ' << v;
    }
    os << "\nkind: " << a.kind << "\n";
    os << "message: ";
    for (char ch2 : a.msg)
    {
        os << ch2;
        if (ch2 == '\n')
        {
            os << "    ";
        }
    }
    os << "\n";
    for (const auto& n : a.notes)
    {
        os << "note: " << n << "\n";
    }
}

int do_shrink(const pbt::prop& p, std::vector<std::uint64_t> cur, attempt best, bool thorough, const std::string& out)
{
    const double t0    = now();
    int          tries = 0;
    const double budget = best.kind == "hang" ? 100 : 60;
    auto         ok    = [&]
    { return now() - t0 < budget && tries < (best.kind == "hang" ? 3 : 3000); };
    auto try_it = [&](const std::vector<std::uint64_t>& cand)
    {
        if (!ok() || cand == cur)
        {
            return false;
        }
        ++tries;
        auto a = run_forked(p, [&] { return pbt::ctx{cand}; }, thorough);
        if (!a.failed || (a.kind == "property") != (best.kind == "property"))
        {
            return false;
        }
        cur  = a.kind == "property" && a.rec.size() <= cand.size() ? a.rec : cand;
        best = std::move(a);
        return true;
    };
    bool progress = true;
    while (progress && ok())
    {
        progress = false;
        // delete chunks
        for (std::size_t len : {64ul, 32ul, 16ul, 8ul, 5ul, 4ul, 3ul, 2ul, 1ul})
        {
            for (std::size_t i = cur.size(); i-- > 0 && ok();)
            {
                if (i + len > cur.size())
                {
                    continue;
                }
                auto cand = cur;
                cand.erase(cand.begin() + static_cast<std::ptrdiff_t>(i),
                           cand.begin() + static_cast<std::ptrdiff_t>(i + len));
                if (try_it(cand))
                {
                    progress = true;
                    continue;
                }
                // deletion together with decrementing an earlier count
                for (std::size_t back = 1; back <= 3 && back <= i; ++back)
                {
                    if (cur[i - back] > 0)
                    {
                        auto cand2 = cand;
                        --cand2[i - back];
                        if (try_it(cand2))
                        {
                            progress = true;
                            break;
                        }
                    }
                }
            }
        }
        // minimise values
        for (std::size_t i = 0; i < cur.size() && ok(); ++i)
        {
            if (cur[i] == 0)
            {
                continue;
            }
            auto cand = cur;
            cand[i]   = 0;
            if (try_it(cand))
            {
                progress = true;
                continue;
            }
            std::uint64_t lo = 0;
            while (i < cur.size() && lo + 1 < cur[i] && ok())
            {
                const auto mid = lo + (cur[i] - lo) / 2;
                auto       c2  = cur;
                c2[i]          = mid;
                if (try_it(c2))
                {
                    progress = true;
                }
                else
                {
                    lo = mid;
                }
            }
        }
    }
    // last run for fresh notes
    auto fin = run_forked(p, [&] { return pbt::ctx{cur}; }, thorough);
    if (fin.failed)
    {
        best = fin;
    }
    write_replay(out, p, best, cur, thorough);
    std::cout << "{\"kind\":\"" << best.kind << "\",\"tries\":" << tries << ",\"msg\":\"" << jesc(best.msg.substr(0, 1500))
              << "\"}\n";
    return 0;
}

// crash-proof choice recording: the child streams every choice through a shared mapping
std::vector<std::uint64_t> record_choices(const pbt::prop& p, const maker& make, bool thorough)
{
    auto* m = static_cast<shared_rec*>(
        mmap(nullptr, sizeof(shared_rec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    m->n            = 0;
    const pid_t pid = fork();
    if (pid == 0)
    {
        const int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 2);
        dup2(dn, 1);
        arm_watchdog();
        pbt::ctx c = make();
        c.thorough = thorough;
        c.mirror_n = &m->n;
        c.mirror_v = m->v;
        for (int sg : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGTERM, SIGTRAP})
        {
            std::signal(sg, SIG_DFL);
        }
        std::set_terminate([] { std::abort(); });
        run_one(p, c);
        _exit(0);
    }
    // a hanging child is ended with SIGTERM, whose handler dumps the record
    for (int t = 0; t < HANG_CPU_SECONDS * 10 - 50; ++t)
    {
        int st = 0;
        if (waitpid(pid, &st, WNOHANG) == pid)
        {
            std::vector<std::uint64_t> r(m->v, m->v + m->n);
            return r;
        }
        usleep(100000);
    }
    kill(pid, SIGTERM);
    int st = 0;
    for (int t = 0; t < 20 && waitpid(pid, &st, WNOHANG) != pid; ++t)
    {
        usleep(100000);
        if (t == 19)
        {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
        }
    }
    return {m->v, m->v + m->n};
}

int shrink_from(const pbt::prop& p, const maker& make, bool thorough, const std::string& out)
{
    auto a = run_forked(p, make, thorough);
    if (std::getenv("VERIF_SCHEDULES") != nullptr)
    {
        // the failure depends on the thread schedule: the choices are kept as they are
        for (int i = 0; i < 40 && !a.failed; ++i)
        {
            a = run_forked(p, make, thorough);
        }
        write_replay(out, p, a, record_choices(p, make, thorough), thorough);
        std::cout << "{\"kind\":\"schedule\",\"msg\":\"" << jesc(a.msg.substr(0, 1500)) << "\"}\n";
        return 0;
    }
    // code that draws random numbers of its own does not fail every time
    for (int i = 0; i < 40 && !a.failed; ++i)
    {
        a = run_forked(p, make, thorough);
    }
    if (!a.failed)
    {
        std::cout << "{\"kind\":\"none\"}\n";
        return 0;
    }
    auto ch = a.kind == "property" ? a.rec : record_choices(p, make, thorough);
    auto b  = run_forked(p, [&] { return pbt::ctx{ch}; }, thorough);
    bool steady = b.failed;
    for (int i = 0; i < 4 && steady && b.kind != "hang"; ++i)
    {
        steady = run_forked(p, [&] { return pbt::ctx{ch}; }, thorough).failed;
    }
    if (!steady)
    {
        // keep the original even though the record does not reproduce it
        write_replay(out, p, a, ch, thorough);
        std::cout << "{\"kind\":\"unreproducible\",\"msg\":\"" << jesc(a.msg.substr(0, 1500)) << "\"}\n";
        return 0;
    }
    return do_shrink(p, ch, b, thorough, out);
}

bool load_replay(const std::string& path, std::string& sub, std::vector<std::uint64_t>& ch, bool& thorough)
{
    std::ifstream is{path};
    std::string   line;
    bool          a = false;
    bool          b = false;
    while (std::getline(is, line))
    {
        if (line.rfind("sub-check: ", 0) == 0)
        {
            sub = line.substr(11);
            a   = true;
        }
        else if (line.rfind("tier: ", 0) == 0)
        {
            thorough = line.substr(6) == "thorough";
        }
        else if (line.rfind("choices:", 0) == 0)
        {
            std::istringstream ss{line.substr(8)};
            std::uint64_t      v = 0;
            while (ss >> v)
            {
                ch.push_back(v);
            }
            b = true;
        }
    }
    return a && b;
}

}  // namespace

#ifdef PBT_FUZZ
// coverage-guided mode: the first byte selects the sub-check, the rest are its choices
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size)
{
    static auto& r = []() -> auto&
    {
        auto& v = pbt::registry();
        std::stable_sort(v.begin(), v.end(), [](const auto& x, const auto& y) { return x.name < y.name; });
        return v;
    }();
    if (size == 0 || r.empty())
    {
        return 0;
    }
    const auto& p = r[data[0] % r.size()];
    if (!p.known.empty())
    {
        return 0;
    }
    pbt::ctx c{data + 1, size - 1};
    c.want_notes = false;
    const auto o = run_one(p, c);
    if (o.failed)
    {
        std::fprintf(stderr, "PBT: %s: %s\n", p.name.c_str(), o.msg.c_str());
        std::abort();
    }
    return 0;
}
#else
int main(int argc, char** argv)
{
    std::signal(SIGPIPE, SIG_IGN);
    const std::string mode = argc > 1 ? argv[1] : "list";
    auto&             r    = pbt::registry();
    std::stable_sort(r.begin(), r.end(), [](const auto& x, const auto& y) { return x.name < y.name; });
    if (mode == "list")
    {
        for (const auto& p : r)
        {
            std::cout << "{\"sub\":\"" << jesc(p.name) << "\",\"quick\":" << p.quick << ",\"thorough\":" << p.thorough
                      << "}\n";
        }
        return 0;
    }
    if (mode == "worker" && argc >= 8)
    {
        return worker(argc, argv);
    }
    if (mode == "shrink" && argc >= 7)
    {
        const auto* p = find_prop(argv[2]);
        if (!p)
        {
            return 3;
        }
        const std::uint64_t seed = std::strtoull(argv[3], nullptr, 10);
        const std::uint64_t idx  = std::strtoull(argv[4], nullptr, 10);
        const auto          cs   = case_seed(seed, p->name, idx);
        return shrink_from(*p, [=] { return pbt::ctx{cs, idx}; }, std::string{argv[5]} == "thorough", argv[6]);
    }
    if (mode == "bytes" && argc >= 4)
    {
        std::ifstream     is{argv[2], std::ios::binary};
        const std::string d{std::istreambuf_iterator<char>{is}, {}};
        if (d.empty())
        {
            return 3;
        }
        const auto& p = r[static_cast<unsigned char>(d[0]) % r.size()];
        return shrink_from(
            p, [&d] { return pbt::ctx{reinterpret_cast<const std::uint8_t*>(d.data()) + 1, d.size() - 1}; }, true,
            argv[3]);
    }
    if (mode == "known")
    {
        for (const auto& p : r)
        {
            if (p.known.empty())
            {
                continue;
            }
            const auto a = run_forked(p, [] { return pbt::ctx{std::vector<std::uint64_t>{}}; }, true);
            if (a.failed && argc > 2)
            {
                write_replay(std::string{argv[2]} + "/" + p.known + ".replay", p, a, {}, true);
            }
            std::cout << "{\"sub\":\"" << jesc(p.name) << "\",\"known\":\"" << jesc(p.known)
                      << "\",\"failed\":" << (a.failed ? "true" : "false") << ",\"msg\":\""
                      << jesc(a.msg.substr(0, 1500)) << "\"}\n";
        }
        return 0;
    }
    if (mode == "shrinkfile" && argc >= 4)
    {
        std::string                sub;
        std::vector<std::uint64_t> ch;
        bool                       thorough = false;
        if (!load_replay(argv[2], sub, ch, thorough))
        {
            return 3;
        }
        const auto* p = find_prop(sub);
        if (!p)
        {
            return 3;
        }
        auto b = run_forked(*p, [&] { return pbt::ctx{ch}; }, thorough);
        if (!b.failed)
        {
            std::cout << "{\"kind\":\"none\"}\n";
            return 0;
        }
        return do_shrink(*p, ch, b, thorough, argv[3]);
    }
    if (mode == "replay" && argc >= 3)
    {
        std::string                sub;
        std::vector<std::uint64_t> ch;
        bool                       thorough = false;
        if (!load_replay(argv[2], sub, ch, thorough))
        {
            std::cerr << "cannot read " << argv[2] << "\n";
            return 3;
        }
        const auto* p = find_prop(sub);
        if (!p)
        {
            std::cerr << "unknown sub-check " << sub << "\n";
            return 3;
        }
        auto a = run_forked(*p, [&] { return pbt::ctx{ch}; }, thorough);
        for (const auto& n : a.notes)
        {
            std::cout << "note: " << n << "\n";
        }
        std::cout << (a.failed ? "FAILS (" + a.kind + "): " + a.msg : std::string{"holds"}) << "\n";
        return a.failed ? 1 : 0;
    }
    std::cerr << "usage: list | worker | shrink | shrinkfile | replay\n";
    return 3;
}
#endif
