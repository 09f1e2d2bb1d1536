// Deterministic-simulation core: one integer seed -> one scenario -> one exactly
// repeatable execution.  Every decision (what is delivered when, which call
// fails, who runs next) is written into the scenario, so a run is a pure
// function of the scenario text and of the code under test.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <poll.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/resource.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace sim
{

// ---------------------------------------------------------------- PRNG
struct Rng
{
    uint64_t s[4];
    static uint64_t splitmix(uint64_t& x)
    {
        uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    explicit Rng(uint64_t seed)
    {
        for (auto& w : s)
            w = splitmix(seed);
    }
    static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
    uint64_t next()
    {
        const uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = rotl(s[3], 45);
        return r;
    }
    double u() { return double(next() >> 11) * 0x1.0p-53; }
    double u(double a, double b) { return a + (b - a) * u(); }
    long i(long a, long b) { return a + long(next() % uint64_t(b - a + 1)); } // inclusive
    bool p(double q) { return u() < q; }
    double normal()
    {
        double a = 0;
        for (int k = 0; k < 12; ++k)
            a += u();
        return a - 6.;
    }
    template <typename T>
    const T& pick(const std::vector<T>& v)
    {
        return v[size_t(next() % v.size())];
    }
    template <typename T>
    T pick(std::initializer_list<T> v)
    {
        return *(v.begin() + next() % v.size());
    }
};

// leaves a byte all over the unused stack below the caller's frame
__attribute__((noinline, no_sanitize("thread"))) inline void paint_stack(unsigned char b)
{
    volatile unsigned char a[16384];
    for (size_t k = 0; k < sizeof a; ++k)
        a[k] = b;
    asm volatile("" ::"r"(&a[0]) : "memory");
}
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...)
{
    char buf[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

// ---------------------------------------------------------------- scenario
struct Step
{
    std::vector<std::string> w; // w[0] is the operation
    const std::string& op() const { return w[0]; }
    double d(size_t k) const { return k < w.size() ? strtod(w[k].c_str(), nullptr) : 0.; }
    long i(size_t k) const { return k < w.size() ? strtol(w[k].c_str(), nullptr, 10) : 0; }
    uint64_t u(size_t k) const { return k < w.size() ? strtoull(w[k].c_str(), nullptr, 10) : 0; }
    std::string str(size_t k) const { return k < w.size() ? w[k] : std::string(); }
};

struct Scenario
{
    std::map<std::string, std::string> h; // configuration
    std::vector<Step> steps;              // events and faults, in order

    void set(const std::string& k, const std::string& v) { h[k] = v; }
    void set(const std::string& k, const char* v) { h[k] = v; }
    void set(const std::string& k, double v) { h[k] = fmt("%.17g", v); }
    void set(const std::string& k, long v) { h[k] = fmt("%ld", v); }
    void set(const std::string& k, int v) { h[k] = fmt("%d", v); }
    void set(const std::string& k, uint64_t v) { h[k] = fmt("%llu", (unsigned long long)v); }
    void set(const std::string& k, unsigned long long v) { h[k] = fmt("%llu", v); }
    std::string s(const std::string& k, const std::string& def = "") const
    {
        auto it = h.find(k);
        return it == h.end() ? def : it->second;
    }
    long i(const std::string& k, long def = 0) const
    {
        auto it = h.find(k);
        return it == h.end() ? def : strtol(it->second.c_str(), nullptr, 10);
    }
    uint64_t u(const std::string& k, uint64_t def = 0) const
    {
        auto it = h.find(k);
        return it == h.end() ? def : strtoull(it->second.c_str(), nullptr, 10);
    }
    double d(const std::string& k, double def = 0.) const
    {
        auto it = h.find(k);
        return it == h.end() ? def : strtod(it->second.c_str(), nullptr);
    }
    void add(const std::string& line)
    {
        Step st;
        std::istringstream is(line);
        std::string w;
        while (is >> w)
            st.w.push_back(w);
        if (!st.w.empty())
            steps.push_back(st);
    }
    std::string text() const
    {
        std::string r;
        for (auto& kv : h)
            r += "h " + kv.first + " " + kv.second + "\n";
        for (auto& st : steps)
        {
            r += "s";
            for (auto& w : st.w)
                r += " " + w;
            r += "\n";
        }
        return r;
    }
    static Scenario parse(std::istream& is)
    {
        Scenario sc;
        std::string line;
        while (std::getline(is, line))
        {
            if (line.size() < 3 || line[0] == '#')
                continue;
            if (line[0] == 'h')
            {
                auto p = line.find(' ', 2);
                sc.h[line.substr(2, p - 2)] = p == std::string::npos ? "" : line.substr(p + 1);
            }
            else if (line[0] == 's')
                sc.add(line.substr(2));
        }
        return sc;
    }
};

// ---------------------------------------------------------------- run context
struct Violation
{
    std::string cls, msg;
};
struct EndRun
{
}; // the run leaves the regime the property speaks about

struct Ctx
{
    bool verbose = false;
    uint64_t hash = 1469598103934665603ULL; // of every event, exact values included
    uint64_t sig = 1469598103934665603ULL;  // of the abstract event sequence
    double simtime = 0.;                    // simulated time units (one per event unless stated)
    long events = 0, checks = 0;
    std::map<std::string, long> faults, probes;
    std::set<std::string> known; // known findings met
    static void mix(uint64_t& h, const char* p, size_t n)
    {
        for (size_t k = 0; k < n; ++k)
        {
            h ^= (unsigned char)p[k];
            h *= 1099511628211ULL;
        }
    }
    // log an event: format string and exact values go into the hash
    void ev(const char* f, ...) __attribute__((format(printf, 2, 3)))
    {
        char buf[2048];
        va_list ap;
        va_start(ap, f);
        int n = vsnprintf(buf, sizeof buf, f, ap);
        va_end(ap);
        if (n > int(sizeof buf) - 1)
            n = sizeof buf - 1;
        mix(hash, buf, size_t(n));
        ++events;
        if (verbose)
            printf("# %ld t=%g %s\n", events, simtime, buf);
    }
    void token(const std::string& t) { mix(sig, t.data(), t.size()); }
    void fault(const std::string& k)
    {
        ++faults[k];
        token("!" + k);
    }
    void probe(const std::string& k) { ++probes[k]; }
    [[noreturn]] void violate(const std::string& cls, const char* f, ...) __attribute__((format(printf, 3, 4)))
    {
        char buf[2048];
        va_list ap;
        va_start(ap, f);
        vsnprintf(buf, sizeof buf, f, ap);
        va_end(ap);
        throw Violation {cls, buf};
    }
    void known_finding(const std::string& id) { known.insert(id); }
};

struct World
{
    virtual ~World() { }
    virtual Scenario gen(Rng& r, const std::string& prop, bool thorough) = 0;
    virtual void run(const Scenario& sc, Ctx& c) = 0;
};

// ---------------------------------------------------------------- one run in a forked child
struct Outcome
{
    std::string kind; // ok, violation, crash, hang
    std::string cls, msg;
    uint64_t hash = 0, sig = 0;
    double simtime = 0;
    long events = 0, checks = 0;
    std::map<std::string, long> faults, probes;
    std::set<std::string> known;
};

inline std::string clean(std::string s)
{
    for (auto& ch : s)
        if (ch == '\n' || ch == '\t')
            ch = ' ';
    return s;
}

inline void run_here(World& w, const Scenario& sc, Ctx& c, std::string& kind, std::string& cls, std::string& msg)
{
    kind = "ok";
    try
    {
        w.run(sc, c);
    }
    catch (const Violation& v)
    {
        kind = "violation";
        cls = v.cls;
        msg = v.msg;
    }
    catch (const EndRun&)
    {
    }
    catch (const std::exception& e)
    {
        kind = "violation";
        cls = "unexpected-exception";
        msg = e.what();
    }
    catch (...)
    {
        kind = "violation";
        cls = "unexpected-exception";
        msg = "non-standard exception";
    }
}

inline Outcome run_forked(World& w, const Scenario& sc, bool verbose, double timeout_s)
{
    int fd[2];
    if (pipe(fd) != 0)
    {
        perror("pipe");
        exit(3);
    }
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0)
    {
        perror("fork");
        exit(3);
    }
    if (pid == 0)
    {
        close(fd[0]);
        if (!verbose)
        { // assertion texts and sanitizer reports of the child are noise here
            int nul = open("/dev/null", O_WRONLY);
            dup2(nul, 2);
        }
        Ctx c;
        c.verbose = verbose;
        std::string kind, cls, msg;
        run_here(w, sc, c, kind, cls, msg);
        fflush(stdout);
        std::string o = "K\t" + kind + "\nC\t" + clean(cls) + "\nM\t" + clean(msg) + "\n";
        o += fmt("H\t%llu\t%llu\t%.17g\t%ld\t%ld\n", (unsigned long long)c.hash, (unsigned long long)c.sig, c.simtime,
            c.events, c.checks);
        for (auto& f : c.faults)
            o += fmt("F\t%s\t%ld\n", f.first.c_str(), f.second);
        for (auto& f : c.probes)
            o += fmt("P\t%s\t%ld\n", f.first.c_str(), f.second);
        for (auto& f : c.known)
            o += "N\t" + f + "\n";
        o += "E\n";
        size_t off = 0;
        while (off < o.size())
        {
            ssize_t k = write(fd[1], o.data() + off, o.size() - off);
            if (k <= 0)
                break;
            off += size_t(k);
        }
        _exit(0);
    }
    close(fd[1]);
    std::string in;
    char buf[4096];
    timespec t0;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    bool hang = false;
    while (true)
    {
        timespec t1;
        clock_gettime(CLOCK_MONOTONIC, &t1);
        double el = double(t1.tv_sec - t0.tv_sec) + 1e-9 * double(t1.tv_nsec - t0.tv_nsec);
        int left = int((timeout_s - el) * 1000);
        if (left <= 0)
        {
            hang = true;
            break;
        }
        pollfd pf {fd[0], POLLIN, 0};
        int pr = poll(&pf, 1, left);
        if (pr == 0)
        {
            hang = true;
            break;
        }
        ssize_t k = read(fd[0], buf, sizeof buf);
        if (k <= 0)
            break;
        in.append(buf, size_t(k));
    }
    close(fd[0]);
    if (hang)
        kill(pid, SIGKILL);
    int st = 0;
    waitpid(pid, &st, 0);
    Outcome o;
    bool ended = false;
    std::istringstream is(in);
    std::string line;
    while (std::getline(is, line))
    {
        std::vector<std::string> f;
        std::string cur;
        for (char ch : line)
        {
            if (ch == '\t')
            {
                f.push_back(cur);
                cur.clear();
            }
            else
                cur += ch;
        }
        f.push_back(cur);
        if (f[0] == "K" && f.size() > 1)
            o.kind = f[1];
        else if (f[0] == "C" && f.size() > 1)
            o.cls = f[1];
        else if (f[0] == "M" && f.size() > 1)
            o.msg = f[1];
        else if (f[0] == "H" && f.size() > 5)
        {
            o.hash = strtoull(f[1].c_str(), nullptr, 10);
            o.sig = strtoull(f[2].c_str(), nullptr, 10);
            o.simtime = strtod(f[3].c_str(), nullptr);
            o.events = atol(f[4].c_str());
            o.checks = atol(f[5].c_str());
        }
        else if (f[0] == "F" && f.size() > 2)
            o.faults[f[1]] = atol(f[2].c_str());
        else if (f[0] == "P" && f.size() > 2)
            o.probes[f[1]] = atol(f[2].c_str());
        else if (f[0] == "N" && f.size() > 1)
            o.known.insert(f[1]);
        else if (f[0] == "E")
            ended = true;
    }
    if (hang)
    {
        o = Outcome();
        o.kind = "hang";
        o.cls = "hang";
        o.msg = "no answer within the watchdog period";
    }
    else if (!ended)
    {
        o = Outcome();
        o.kind = "crash";
        if (WIFSIGNALED(st))
            o.cls = fmt("crash-signal-%d", WTERMSIG(st));
        else
            o.cls = fmt("crash-exit-%d", WEXITSTATUS(st));
        o.msg = "the process died during the run (assertion, sanitizer report or fatal signal)";
    }
    return o;
}

inline std::string jesc(const std::string& s)
{
    std::string r;
    for (char ch : s)
    {
        if (ch == '"' || ch == '\\')
            r += '\\';
        if ((unsigned char)ch < 32)
            r += ' ';
        else
            r += ch;
    }
    return r;
}

// usage:  batch PROP BASESEED FIRST COUNT TIER OUTDIR MAXWALL | replay FILE [-v] | gen PROP BASESEED INDEX TIER | hash ...
inline int sim_main(int argc, char** argv, World& w)
{
    auto mkseed = [](uint64_t base, uint64_t idx, const std::string& prop) {
        uint64_t x = base * 0x9e3779b97f4a7c15ULL + idx;
        for (char ch : prop)
            x = x * 1099511628211ULL + (unsigned char)ch;
        return Rng::splitmix(x);
    };
    const std::string mode = argc > 1 ? argv[1] : "";
    const double to = getenv("SIM_TIMEOUT") ? atof(getenv("SIM_TIMEOUT")) : 20.;
    if (mode == "gen" && argc >= 6)
    {
        Rng r(mkseed(strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), argv[2]));
        auto sc = w.gen(r, argv[2], std::string(argv[5]) == "thorough");
        sc.set("prop", argv[2]);
        std::cout << sc.text();
        return 0;
    }
    if (mode == "replay" && argc >= 3)
    {
        std::ifstream is(argv[2]);
        auto sc = Scenario::parse(is);
        bool v = argc > 3;
        auto o = run_forked(w, sc, v, to);
        for (auto& f : o.faults)
            if (v)
                printf("# fault %s x%ld\n", f.first.c_str(), f.second);
        for (auto& k : o.known)
            printf("KNOWN %s\n", k.c_str());
        printf("OUTCOME %s class=%s hash=%llu msg=%s\n", o.kind.c_str(), o.cls.c_str(), (unsigned long long)o.hash,
            o.msg.c_str());
        return o.kind == "ok" ? 0 : 1;
    }
    if (mode == "batch" && argc >= 9)
    {
        const std::string prop = argv[2];
        const uint64_t base = strtoull(argv[3], 0, 10), first = strtoull(argv[4], 0, 10),
                       count = strtoull(argv[5], 0, 10);
        const bool thorough = std::string(argv[6]) == "thorough";
        const std::string out = argv[7];
        const double maxwall = atof(argv[8]);
        timespec t0;
        clock_gettime(CLOCK_MONOTONIC, &t0);
        std::map<std::string, long> faults, probes;
        std::set<std::string> known;
        uint64_t runs = 0, faulty = 0, fails = 0, hx = 0;
        long events = 0, checks = 0;
        double simtime = 0;
        std::set<uint64_t> sigs, nontriv;
        std::string samples;
        for (uint64_t k = 0; k < count; ++k)
        {
            timespec t1;
            clock_gettime(CLOCK_MONOTONIC, &t1);
            if (double(t1.tv_sec - t0.tv_sec) > maxwall)
                break;
            Rng r(mkseed(base, first + k, prop));
            auto sc = w.gen(r, prop, thorough);
            sc.set("prop", prop);
            sc.set("seed", fmt("%llu:%llu", (unsigned long long)base, (unsigned long long)(first + k)));
            auto o = run_forked(w, sc, false, to);
            ++runs;
            hx = hx * 1099511628211ULL + o.hash;
            events += o.events;
            checks += o.checks;
            simtime += o.simtime;
            sigs.insert(o.sig);
            if (!o.faults.empty())
                ++faulty;
            if (!o.faults.empty() && o.checks > 0)
                nontriv.insert(o.sig);
            for (auto& f : o.faults)
                faults[f.first] += f.second;
            for (auto& f : o.probes)
                probes[f.first] += f.second;
            for (auto& f : o.known)
            {
                if (known.insert(f).second)
                {
                    std::ofstream os(out + fmt("/known-%s-%llu.scn", f.c_str(), (unsigned long long)(first + k)));
                    os << sc.text();
                }
            }
            if (k < 2 && samples.size() < 20000)
            {
                if (!samples.empty())
                    samples += ",";
                std::string t = sc.text();
                if (t.size() > 900)
                    t = t.substr(0, 900) + "...";
                for (auto& ch : t)
                    if (ch == '\n')
                        ch = ';';
                samples += "\"" + jesc(t) + "\"";
            }
            if (o.kind != "ok")
            {
                std::string fn = out + fmt("/fail-%llu.scn", (unsigned long long)(first + k));
                std::ofstream os(fn);
                os << "# class " << o.cls << "\n# kind " << o.kind << "\n# msg " << o.msg << "\n# hash " << o.hash << "\n"
                   << sc.text();
                if (++fails >= 3)
                    break;
            }
        }
        std::ofstream sg(out + fmt("/sigs-%llu.bin", (unsigned long long)first), std::ios::binary);
        for (auto s : sigs)
            sg.write(reinterpret_cast<const char*>(&s), 8);
        std::ofstream sn(out + fmt("/nontriv-%llu.bin", (unsigned long long)first), std::ios::binary);
        for (auto s : nontriv)
            sn.write(reinterpret_cast<const char*>(&s), 8);
        std::string j = fmt("{\"runs\":%llu,\"faulty\":%llu,\"fails\":%llu,\"events\":%ld,\"checks\":%ld,\"simtime\":%.6g,\"hash\":\"%llu\"",
            (unsigned long long)runs, (unsigned long long)faulty, (unsigned long long)fails, events, checks, simtime,
            (unsigned long long)hx);
        auto dump = [&](const char* name, const std::map<std::string, long>& m) {
            j += std::string(",\"") + name + "\":{";
            bool f1 = true;
            for (auto& f : m)
            {
                j += std::string(f1 ? "" : ",") + "\"" + jesc(f.first) + "\":" + fmt("%ld", f.second);
                f1 = false;
            }
            j += "}";
        };
        dump("faults", faults);
        dump("probes", probes);
        j += ",\"known\":[";
        bool f1 = true;
        for (auto& k : known)
        {
            j += std::string(f1 ? "" : ",") + "\"" + jesc(k) + "\"";
            f1 = false;
        }
        j += "],\"samples\":[" + samples + "]}";
        std::cout << j << std::endl;
        return 0;
    }
    fprintf(stderr, "usage: batch|replay|gen ...\n");
    return 2;
}

} // namespace sim
