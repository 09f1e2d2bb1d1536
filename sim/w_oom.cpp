// World "oom": every allocation of a step may fail.  A subject (region, oracle, or a whole
// driver call) and an undisturbed twin get the same history; the subject's steps are tried
// with each allocation failing in turn, and fresh memory holds different rubbish for the two.
// Real: ell, ell_stable, ell1d, the drivers, all oracles.  Simulated: allocator, host.
#include "alloc.hpp"
#include "core.hpp"
#include "problem.hpp"
#include <ellcpp/cut_config.hpp>
#include <ellcpp/cutting_plane.hpp>
#include <ellcpp/ell.hpp>
#include <ellcpp/ell1d.hpp>
#include <ellcpp/ell_stable.hpp>
#include <ellcpp/oracles/cycle_ratio_oracle.hpp>
#include <ellcpp/oracles/lmi_old_oracle.hpp>
#include <ellcpp/oracles/lmi_oracle.hpp>
#include <ellcpp/oracles/lowpass_oracle.hpp>
#include <ellcpp/oracles/optscaling_oracle.hpp>
#include <ellcpp/oracles/profit_oracle.hpp>
#include <lsq_corr_ell.cpp> // the fitting oracles live there
#include <memory>

using namespace sim;
// what fresh memory holds from here on: the heap's and, once, the stack's
#define fresh(b) (simalloc::fill = (b), paint_stack((unsigned char)(b)))
struct Pause
{ // the simulator's own allocations neither fail nor count
    bool was;
    Pause()
        : was(simalloc::on)
    {
        simalloc::on = false;
    }
    ~Pause() { simalloc::on = was; }
};

struct Ans
{
    bool cut = false, shrunk = false, more = false;
    std::vector<double> g, b, x;
    double t = 0;
};
static bool bits(const std::vector<double>& x, const std::vector<double>& y)
{
    return x.size() == y.size() && (x.empty() || memcmp(x.data(), y.data(), 8 * x.size()) == 0);
}
static bool same(const Ans& a, const Ans& b, bool verdict_only)
{
    if (a.shrunk != b.shrunk || a.more != b.more || a.cut != b.cut || memcmp(&a.t, &b.t, 8))
        return false;
    return verdict_only || (bits(a.g, b.g) && bits(a.b, b.b) && bits(a.x, b.x));
}
static std::string show(const Ans& a)
{
    return fmt("cut %d improved %d t %.12g g0 %.12g b0 %.12g", int(a.cut), int(a.shrunk), a.t, a.g.empty() ? 0. : a.g[0], a.b.empty() ? 0. : a.b[0]);
}
static void put(Ans& a, const std::tuple<Arr, double>& c)
{
    Pause p;
    a.cut = true;
    a.g.assign(std::get<0>(c).begin(), std::get<0>(c).end());
    a.b = {std::get<1>(c)};
}

// an oracle under test, whatever its kind
struct Orc
{
    virtual ~Orc() { }
    virtual Ans ask(const Arr& x, double& t, bool retry) = 0;
    virtual void checkpoint() { } // of documented state (scan position), for hosts that restart a call
    virtual void restore() { }
};
template <typename O, typename... A>
struct FeasOrc : Orc
{
    O o;
    explicit FeasOrc(A... a)
        : o(a...)
    {
    }
    Ans ask(const Arr& x, double& t, bool) override
    {
        Ans a;
        auto c = o(x);
        if (c)
            put(a, *c);
        a.t = t;
        return a;
    }
};
template <typename O>
struct OptOrc : Orc
{
    O o;
    template <typename... A>
    explicit OptOrc(A&&... a)
        : o(std::forward<A>(a)...)
    {
    }
    Ans ask(const Arr& x, double& t, bool) override
    {
        Ans a;
        auto r = o(x, t);
        put(a, std::get<0>(r));
        a.shrunk = std::get<1>(r);
        a.t = t;
        return a;
    }
};
struct QOrc : Orc
{
    profit_q_oracle o;
    bool has = false;
    explicit QOrc(const Problem& p)
        : o(p.pp, p.pA, p.pk, p.pa, p.pv)
    {
    }
    Ans ask(const Arr& x, double& t, bool retry) override
    {
        Ans a;
        auto r = o(x, t, retry && has);
        put(a, std::get<0>(r));
        has = true;
        {
            Pause p;
            a.x.assign(std::get<1>(r).begin(), std::get<1>(r).end());
        }
        a.shrunk = std::get<2>(r);
        a.more = std::get<3>(r);
        a.t = t;
        return a;
    }
};
struct LowOrc : Orc
{
    std::unique_ptr<lowpass_oracle> o, saved;
    explicit LowOrc(const Problem& p)
        : o(new lowpass_oracle(p.Ap, p.As, p.Anr, 0.8, 1.2))
    {
    }
    Ans ask(const Arr& x, double& t, bool) override
    {
        Ans a;
        auto r = (*o)(x, t);
        {
            Pause p;
            const auto& c = std::get<0>(r);
            a.cut = true;
            a.g.assign(std::get<0>(c).begin(), std::get<0>(c).end());
            a.b.assign(std::get<1>(c).begin(), std::get<1>(c).end());
        }
        a.shrunk = std::get<1>(r);
        a.t = t;
        return a;
    }
    void checkpoint() override { saved.reset(new lowpass_oracle(*o)); }
    void restore() override
    {
        if (saved)
            o.reset(new lowpass_oracle(*saved));
    }
};
struct OsOrc : Orc
{
    std::vector<double> u;
    optscaling_oracle<G, std::vector<double>, CostFn> o;
    explicit OsOrc(const Problem& p)
        : u(p.graph.number_of_nodes(), 0.)
        , o(p.graph, u, CostFn {&p})
    {
    }
    Ans ask(const Arr& x, double& t, bool) override
    {
        Ans a;
        auto r = o(x, t);
        put(a, std::get<0>(r));
        a.shrunk = std::get<1>(r);
        a.t = t;
        return a;
    }
};
static std::unique_ptr<Orc> make_orc(const std::string& k, const Problem& p)
{
    if (k == "lmi")
        return std::make_unique<FeasOrc<lmi_oracle, const Mats&, const Arr&>>(p.F, p.B);
    if (k == "old")
        return std::make_unique<FeasOrc<lmi_old_oracle, const Mats&, const Arr&>>(p.F, p.B);
    if (k == "lmi0")
        return std::make_unique<FeasOrc<lmi0_oracle, const Mats&>>(p.S);
    if (k == "qmi")
    {
        auto o = std::make_unique<FeasOrc<qmi_oracle, const Mats&, const Arr&>>(p.F, p.C);
        o->o.update(double(p.m));
        return o;
    }
    if (k == "lsq")
        return std::make_unique<OptOrc<lsq_oracle>>(p.S, p.Y);
    if (k == "mle")
        return std::make_unique<OptOrc<mle_oracle>>(p.S, p.Y);
    if (k == "pp")
        return std::make_unique<OptOrc<profit_oracle>>(p.pp, p.pA, p.pk, p.pa, p.pv);
    if (k == "pr")
        return std::make_unique<OptOrc<profit_rb_oracle>>(p.pp, p.pA, p.pk, p.pa, p.pv, p.pe, 0.5);
    if (k == "pq")
        return std::make_unique<QOrc>(p);
    if (k == "low")
        return std::make_unique<LowOrc>(p);
    return std::make_unique<OsOrc>(p);
}
static double t0_of(const std::string& k) { return k[0] == 'p' ? 0. : k == "low" ? 10. : 1e100; }

// ------------------------------------------------------------ regions
template <typename E>
struct Reg
{
    using P = Arr;
    static std::vector<double> vec(const Arr& x) { return {x.begin(), x.end()}; }
    static std::vector<std::vector<double>> dirs(size_t n)
    {
        std::vector<std::vector<double>> d;
        for (size_t i = 0; i < n; ++i)
            for (size_t j = i; j < n; ++j)
            {
                std::vector<double> v(n, 0.);
                v[i] += 1;
                v[j] += 1;
                d.push_back(v);
            }
        return d;
    }
    static Arr arr(const std::vector<double>& v)
    {
        Arr a = xt::zeros<double>({v.size()});
        for (size_t i = 0; i < v.size(); ++i)
            a(i) = v[i];
        return a;
    }
    // everything that can be seen of a region: its centre, and its width in n(n+1)/2 directions
    static std::vector<double> state(const E& e, size_t n)
    {
        Pause p;
        auto r = vec(e.xc());
        for (auto& d : dirs(n))
        {
            E q(e);
            r.push_back(std::get<1>(q.update(std::make_tuple(arr(d), 1e150))));
        }
        return r;
    }
};

struct State
{
    std::vector<double> reg;
    double t;
};
template <typename E>
struct LoggedSpace
{ // the real region, with a note of its states; the oracle's documented state is kept with each
    E e;
    std::vector<State>* log;
    double* t;
    size_t n;
    Orc* o = nullptr;
    LoggedSpace(E ee, std::vector<State>* l, double* tt, size_t nn, Orc* oo = nullptr)
        : e(std::move(ee))
        , log(l)
        , t(tt)
        , n(nn)
        , o(oo)
    {
    }
    LoggedSpace(LoggedSpace&&) = default;
    auto xc() const { return e.xc(); }
    template <typename C>
    auto update(const C& cut)
    {
        auto r = e.update(cut);
        Pause q;
        log->push_back({Reg<E>::state(e, n), *t});
        if (o)
            o->checkpoint();
        return r;
    }
    LoggedSpace copy() const { return LoggedSpace {e.copy(), log, t, n, o}; }
    void set_xc(const Arr& x) { e.set_xc(x); }
};

struct OomWorld : World
{
    Scenario gen(Rng& r, const std::string&, bool thorough) override
    {
        Scenario sc;
        const std::string mode = r.pick({"reg", "orc", "orc", "drv", "drv"});
        sc.set("mode", mode);
        sc.set("pseed", r.i(1, 1000000000));
        sc.set("n", mode == "reg" ? r.i(2, 6) : r.i(2, 4));
        sc.set("m", r.i(2, 4));
        sc.set("fill0", r.pick({0L, 255L, 165L, 127L}));
        sc.set("fill1", r.pick({0L, 255L, 165L, 127L, 63L}));
        if (mode == "reg")
        {
            sc.set("kind", r.pick({"ell", "ell", "stab", "ell1d"}));
            sc.set("vecstart", r.i(0, 1));
            const long ops = r.i(2, thorough ? 25 : 10);
            for (long k = 0; k < ops; ++k)
            {
                const long z = r.i(0, 11);
                if (z == 0)
                    sc.add("defer");
                else if (z == 1)
                    sc.add(fmt("copy %ld", r.i(0, 1)));
                else if (z == 2)
                    sc.add(fmt("setxc %ld", r.i(1, 100000)));
                else
                    sc.add(fmt("cut %ld %.17g %.17g %ld", r.i(1, 1000000), r.pick({0., r.u(-0.3, 0.9), r.u(-1.2, 1.3)}), r.p(0.4) ? r.u(0, 1) : -1.,
                        r.p(0.5) ? r.i(1, 12) : -1L));
            }
        }
        else if (mode == "orc")
        {
            sc.set("kind", r.pick({"lmi", "old", "lmi0", "qmi", "lsq", "mle", "pp", "pr", "pq", "pq", "low", "low", "os"}));
            const long ops = r.i(1, thorough ? 12 : 6);
            for (long k = 0; k < ops; ++k)
                sc.add(fmt("ask %ld %.17g %d %ld", r.i(1, 1000000), r.pick({0., 0.1, 0.5, 1., 3.}), r.p(0.3) ? 1 : 0, r.p(0.5) ? r.i(1, 40) : -1L));
        }
        else
        {
            sc.set("kind", r.pick({"lmi", "old", "qmi", "lmi0", "bs", "lsq", "mle", "pp", "pr", "pq", "pq", "low", "low"}));
            sc.set("space", r.p(0.75) ? "ell" : "stab");
            sc.set("maxit", r.i(2, thorough ? 60 : 25));
            const long ops = r.i(1, 6);
            for (long k = 0; k < ops; ++k)
                sc.add(fmt("fail %ld", r.pick({r.i(1, 12), r.i(1, 60), r.i(1, 400)})));
        }
        return sc;
    }

    template <typename E>
    void regions(const Scenario& sc, Ctx& c)
    {
        const size_t n = size_t(sc.i("n", 3));
        Rng q(sc.u("pseed", 1));
        Arr x0 = xt::zeros<double>({n}), val = xt::zeros<double>({n});
        for (size_t i = 0; i < n; ++i)
        {
            x0(i) = q.normal();
            val(i) = q.u(0.5, 4);
        }
        const int f0 = int(sc.i("fill0")), f1 = int(sc.i("fill1"));
        fresh(f0);
        E twin = sc.i("vecstart") ? E(val, x0) : E(2.5, x0);
        fresh(f1);
        simalloc::arm(0);
        auto sub = std::unique_ptr<E>(sc.i("vecstart") ? new E(val, x0) : new E(2.5, x0));
        simalloc::disarm();
        auto compare = [&](const char* when) {
            fresh(f0);
            auto a = Reg<E>::state(twin, n);
            fresh(f1);
            auto b = Reg<E>::state(*sub, n);
            ++c.checks;
            if (!bits(a, b))
            {
                size_t k = 0;
                while (k < a.size() && !memcmp(&a[k], &b[k], 8))
                    ++k;
                c.violate("region-differs", "%s: item %zu is %.17g, without failures %.17g", when, k, b[k], a[k]);
            }
        };
        // op on the subject with the k-th allocation failing; true when it went through
        auto attempt = [&](long k, const std::function<void()>& op) {
            const long before = simalloc::live;
            fresh(f1);
            bool thrown = false;
            simalloc::arm(k);
            try
            {
                op();
            }
            catch (const std::bad_alloc&)
            {
                thrown = true;
            }
            const bool fired = simalloc::fired > 0;
            simalloc::disarm();
            if (fired && !thrown)
                c.violate("failure-swallowed", "allocation %ld failed and the step reported success", k);
            if (thrown)
            {
                c.fault("allocation-failed");
                if (simalloc::live != before)
                    c.violate("leak", "%ld blocks more than before after the step failed at allocation %ld", simalloc::live - before, k);
                compare("after a failed step");
            }
            return !thrown;
        };
        auto sweep = [&](long only, const std::function<void()>& op) {
            if (only > 0 && attempt(only, op))
                return;
            if (only < 0)
                for (long k = 1; k < 200; ++k)
                    if (attempt(k, op))
                        return;
            attempt(0, op);
        };
        compare("at the start");
        for (auto& st : sc.steps)
        {
            c.simtime += 1;
            if (st.op() == "defer")
            {
                if constexpr (!std::is_same<E, ell1d>::value)
                {
                    twin.no_defer_trick = !twin.no_defer_trick;
                    sub->no_defer_trick = !sub->no_defer_trick;
                }
            }
            else if (st.op() == "setxc")
            {
                Arr x = twin.xc();
                Rng z(st.u(1));
                for (auto& v : x)
                    v += 0.1 * z.normal();
                sweep(-1, [&] { sub->set_xc(x); });
                twin.set_xc(x);
                c.ev("centre set");
            }
            else if (st.op() == "copy")
            {
                std::unique_ptr<E> got;
                std::vector<double> xcv;
                sweep(-1, [&] {
                    if (st.i(1))
                    {
                        E e2 = sub->copy();
                        Arr x = e2.xc();
                        Pause p;
                        xcv = Reg<E>::vec(x);
                    }
                    else
                    {
                        got.reset();
                        got.reset(new E(*sub));
                    }
                });
                if (got)
                {
                    if (!bits(Reg<E>::state(*got, n), Reg<E>::state(twin, n)))
                        c.violate("copy-differs", "a copy taken after failed copies differs");
                    sub = std::move(got);
                }
                c.ev("copied");
            }
            else if (st.op() == "cut")
            {
                Rng z(st.u(1));
                std::vector<double> g(n);
                for (auto& v : g)
                    v = z.normal();
                const Arr ga = Reg<E>::arr(g);
                double tau;
                {
                    E p(twin);
                    tau = std::sqrt(std::get<1>(p.update(std::make_tuple(ga, 1e150))));
                }
                if (!(tau > 1e-6 && tau < 1e6))
                    break;
                std::tuple<CUTStatus, double> a, b;
                const double b0 = st.d(2) * tau;
                if (st.d(3) >= 0)
                {
                    const auto cut = std::make_tuple(ga, Arr {b0, b0 + st.d(3) * tau});
                    sweep(st.i(4), [&] { b = sub->update(cut); });
                    fresh(f0);
                    a = twin.update(cut);
                }
                else
                {
                    const auto cut = std::make_tuple(ga, b0);
                    sweep(st.i(4), [&] { b = sub->update(cut); });
                    fresh(f0);
                    a = twin.update(cut);
                }
                c.ev("cut: status %d size %.17g", int(std::get<0>(b)), std::get<1>(b));
                c.token(fmt("%d", int(std::get<0>(b))));
                if (std::get<0>(a) != std::get<0>(b) || memcmp(&std::get<1>(a), &std::get<1>(b), 8))
                    c.violate("repeated-step-differs", "status %d size %.17g, without failures %d %.17g", int(std::get<0>(b)), std::get<1>(b), int(std::get<0>(a)),
                        std::get<1>(a));
            }
            compare("after a step");
        }
        sub.reset();
        if (simalloc::live != 0)
            c.violate("leak", "%ld blocks still allocated at the end", simalloc::live);
    }

    void oracles(const Scenario& sc, Ctx& c)
    {
        const auto kind = sc.s("kind");
        const int f0 = int(sc.i("fill0")), f1 = int(sc.i("fill1"));
        Problem p(Rng(sc.u("pseed", 1)), size_t(sc.i("n", 2)), size_t(sc.i("m", 2)));
        const size_t d = p.dim(kind);
        const bool verdict = kind == "os"; // its potentials are documented state that a dead query may leave elsewhere
        fresh(f0);
        auto twin = make_orc(kind, p);
        fresh(f1);
        simalloc::arm(0);
        auto sub = make_orc(kind, p);
        simalloc::disarm();
        double tt = t0_of(kind), ts = tt;
        bool asked = false;
        for (auto& st : sc.steps)
        {
            if (st.op() != "ask")
                continue;
            c.simtime += 1;
            Rng z(st.u(1));
            Arr x = xt::zeros<double>({d});
            for (size_t i = 0; i < d; ++i)
                x(i) = (kind == "low" || kind == "mle" || kind == "lsq" ? (i == 0 ? 1. : 0.) : kind == "os" ? (i ? -2.5 : 2.5) : kind[0] == 'p' ? 1.5 : 0.) + st.d(2) * z.normal();
            if (kind == "lsq")
                x(d - 1) = 40. * (1 + 0.3 * st.d(2) * z.normal());
            const bool retry = st.i(3) && asked && kind == "pq";
            fresh(f0);
            const Ans want = twin->ask(x, tt, retry);
            Ans got;
            auto attempt = [&](long k) {
                const double before = ts;
                const long live = simalloc::live;
                fresh(f1);
                bool thrown = false;
                sub->checkpoint();
                simalloc::arm(k);
                try
                {
                    got = sub->ask(x, ts, retry);
                }
                catch (const std::bad_alloc&)
                {
                    thrown = true;
                }
                const bool fired = simalloc::fired > 0;
                simalloc::disarm();
                (void)live;
                if (fired && !thrown)
                    c.violate("failure-swallowed", "allocation %ld failed and the query was answered", k);
                if (thrown)
                {
                    c.fault("allocation-failed");
                    if (memcmp(&before, &ts, 8))
                        c.violate("best-value-moved", "%s: the query failed at allocation %ld, but the best value went from %.17g to %.17g and the point is lost",
                            kind.c_str(), k, before, ts);
                    sub->restore(); // the scan position, where there is one, is the host's to keep
                }
                return !thrown;
            };
            const long only = st.i(4);
            bool done = false;
            if (only > 0)
                done = attempt(only);
            else
                for (long k = 1; k < 1500 && !done; ++k)
                    done = attempt(k);
            if (!done)
                attempt(0);
            ++c.checks;
            asked = true;
            c.ev("%s asked: %s", kind.c_str(), show(got).c_str());
            c.token(fmt("%s%d%d", kind.c_str(), int(got.cut), int(got.shrunk)));
            const bool vo = verdict && !want.shrunk;
            if (!same(got, want, vo))
                c.violate("repeated-step-differs", "%s: %s; without failures %s", kind.c_str(), show(got).c_str(), show(want).c_str());
        }
        sub.reset();
        if (simalloc::live != 0)
            c.violate("leak", "%s: %ld blocks still allocated at the end", kind.c_str(), simalloc::live);
    }

    // ---- a whole driver call
    template <typename E>
    void drivers(const Scenario& sc, Ctx& c)
    {
        const auto kind = sc.s("kind");
        const int f0 = int(sc.i("fill0")), f1 = int(sc.i("fill1"));
        Problem p(Rng(sc.u("pseed", 1)), size_t(sc.i("n", 2)), size_t(sc.i("m", 2)));
        const std::string okind = kind == "bs" ? "qmi" : kind;
        const size_t n = p.dim(okind);
        const size_t maxit = size_t(sc.i("maxit", 5));
        using Space = LoggedSpace<E>;
        Arr x0 = xt::zeros<double>({n});
        double r0 = 4;
        if (kind == "low" || kind == "lsq" || kind == "mle")
            x0(0) = 1.5;
        if (kind == "lsq")
            x0(n - 1) = 40;
        if (kind[0] == 'p')
            r0 = 50;
        else if (kind != "low" && kind != "lsq" && kind != "mle")
            for (auto& v : x0)
                v = 1.3;

        // one call; returns whether it ended normally
        std::vector<double> answer;
        auto call = [&](Orc& o, Space& S, double& t, std::pair<double, double>& I, size_t iters, std::string& summary) {
            Options op;
            op.max_it = unsigned(iters);
            auto note = [&](const CInfo& i) {
                Pause q;
                summary = fmt("feasible %d status %d", int(i.feasible), int(i.status));
            };
            auto parallel = [](const Ans& a) {
                Arr b = xt::zeros<double>({a.b.size()});
                for (size_t i = 0; i < a.b.size(); ++i)
                    b(i) = a.b[i];
                return b;
            };
            if (kind == "low")
            {
                auto f = [&](const Arr& x, double& tt) {
                    Ans a = o.ask(x, tt, false);
                    return std::make_tuple(std::make_tuple(Reg<E>::arr(a.g), parallel(a)), a.shrunk);
                };
                const auto r = cutting_plane_dc(f, S, t, op);
                note(std::get<1>(r));
            }
            else if (kind == "pq")
            {
                auto f = [&](const Arr& x, double& tt, bool retry) {
                    Ans a = o.ask(x, tt, retry);
                    return std::make_tuple(std::make_tuple(Reg<E>::arr(a.g), a.b[0]), Reg<E>::arr(a.x), a.shrunk, a.more);
                };
                const auto r = cutting_plane_q(f, S, t, op);
                note(std::get<1>(r));
            }
            else if (kind == "lsq" || kind == "mle" || kind[0] == 'p')
            {
                auto f = [&](const Arr& x, double& tt) {
                    Ans a = o.ask(x, tt, false);
                    return std::make_tuple(std::make_tuple(Reg<E>::arr(a.g), a.b[0]), a.shrunk);
                };
                const auto r = cutting_plane_dc(f, S, t, op);
                note(std::get<1>(r));
            }
            else if (kind == "bs")
            {
                auto& q = static_cast<FeasOrc<qmi_oracle, const Mats&, const Arr&>&>(o).o;
                bsearch_adaptor<qmi_oracle, Space> ad(q, S, op);
                Options ob;
                ob.max_it = 12;
                ob.tol = 1e-3;
                note(bsearch(ad, I, ob));
            }
            else
            {
                auto f = [&](const Arr& x) -> std::optional<std::tuple<Arr, double>> {
                    Ans a = o.ask(x, t, false);
                    if (!a.cut)
                        return {};
                    return {{Reg<E>::arr(a.g), a.b[0]}};
                };
                note(cutting_plane_feas(f, S, op));
            }
        };
        // reference: nothing fails
        std::vector<State> ref, log;
        double tr = t0_of(okind), t = tr;
        const std::pair<double, double> I0 {0., 64. * double(p.m)};
        auto Ir = I0, I = I0;
        std::string sr, ss;
        fresh(f0);
        auto orf = make_orc(okind, p);
        Space Sr(E(r0, x0), &ref, &tr, n);
        ref.push_back({Reg<E>::state(Sr.e, n), tr});
        const State start = ref[0];
        call(*orf, Sr, tr, Ir, maxit, sr);
        const auto endr = Reg<E>::state(Sr.e, n);
        c.ev("%s alone: %s, %zu updates, t %.17g, upper %.17g", kind.c_str(), sr.c_str(), ref.size() - 1, tr, Ir.second);

        // subject: each "fail" line kills one call
        fresh(f1);
        simalloc::arm(0);
        auto osub = make_orc(okind, p);
        simalloc::disarm();
        {
            simalloc::arm(0);
            Space S(E(r0, x0), &log, &t, n, kind == "bs" ? nullptr : osub.get());
            simalloc::disarm();
            log.push_back(start);
            osub->checkpoint();
            std::vector<long> fails;
            for (auto& st : sc.steps)
                if (st.op() == "fail")
                    fails.push_back(st.i(1));
            fails.push_back(0);
            bool ended = false;
            for (long k : fails)
            {
                c.simtime += 1;
                // a host keeps the documented state of the last completed step and starts the call again from there
                const auto before = Reg<E>::state(S.e, n);
                const size_t done = log.size() - 1;
                if (kind != "bs" && done + 1 >= maxit)
                {
                    ended = true;
                    break;
                }
                bool thrown = false;
                const size_t iters = kind == "bs" ? maxit : maxit - done;
                simalloc::arm(k);
                try
                {
                    call(*osub, S, t, I, iters, ss);
                }
                catch (const std::bad_alloc&)
                {
                    thrown = true;
                }
                const bool fired = simalloc::fired > 0;
                simalloc::disarm();
                if (fired && !thrown)
                    c.violate("failure-swallowed", "%s: allocation %ld failed and the driver reported %s", kind.c_str(), k, ss.c_str());
                if (!thrown)
                {
                    ended = true;
                    break;
                }
                c.fault("allocation-failed");
                ++c.checks;
                c.ev("%s died at allocation %ld after %zu updates", kind.c_str(), k, log.size() - 1);
                c.token(fmt("%zu", log.size()));
                const auto now = Reg<E>::state(S.e, n);
                if (kind == "bs")
                {
                    if (!bits(now, before))
                    { // legitimate only when an inner search was accepted before the failure: the shape never changes
                        if (!bits(std::vector<double>(now.begin() + long(n), now.end()), std::vector<double>(before.begin() + long(n), before.end())))
                            c.violate("region-differs", "bisection: the shape of the region changed in a call that failed");
                    }
                    // the interval and the kept point are what the completed decisions left; start over from the original state
                    I = I0;
                    S.set_xc(x0);
                    continue;
                }
                const size_t j = log.size() - 1;
                if (kind != "pq" || j < ref.size())
                {
                    if (j >= ref.size())
                        c.violate("region-differs", "%s: %zu updates where the run without failures makes %zu", kind.c_str(), j, ref.size() - 1);
                    if (!bits(now, ref[j].reg))
                        c.violate("region-differs", "%s: after a call that failed in step %zu the region is not what it was before the step", kind.c_str(), j + 1);
                }
                t = j ? log[j].t : start.t;
                osub->restore();
                if (kind == "pq")
                { // whether an alternative was due belongs to the call that died; stop comparing here
                    ended = false;
                    break;
                }
            }
            if (ended)
            {
                ++c.checks;
                const auto ends = Reg<E>::state(S.e, n);
                c.ev("%s in the end: %zu updates, t %.17g, upper %.17g", kind.c_str(), log.size() - 1, t, I.second);
                if (!bits(ends, endr))
                    c.violate("final-region-differs", "%s: after failures the search ends in another region", kind.c_str());
                if (kind == "bs" && (memcmp(&I, &Ir, sizeof I) != 0))
                    c.violate("final-answer-differs", "bisection: [%.17g,%.17g] where it is [%.17g,%.17g] without failures", I.first, I.second, Ir.first, Ir.second);
                if (kind != "bs" && memcmp(&t, &tr, 8))
                    c.violate("final-answer-differs", "%s: best value %.17g, without failures %.17g", kind.c_str(), t, tr);
            }
        }
        osub.reset();
        if (simalloc::live != 0)
            c.violate("leak", "%s: %ld blocks still allocated at the end", kind.c_str(), simalloc::live);
    }

    void run(const Scenario& sc, Ctx& c) override
    {
        const auto mode = sc.s("mode");
        if (mode == "reg")
        {
            const auto k = sc.s("kind");
            if (k == "ell")
                regions<ell>(sc, c);
            else if (k == "stab")
                regions<ell_stable>(sc, c);
            else
            { // no allocation to fail: only the rubbish differs
                ell1d a(0., 4.);
                for (auto& st : sc.steps)
                    if (st.op() == "cut")
                    {
                        simalloc::arm(1);
                        auto r = a.update(std::make_tuple(st.u(1) % 2 ? 1. : -1., st.d(2) * 0.5));
                        const bool f = simalloc::fired > 0;
                        simalloc::disarm();
                        if (f)
                            c.violate("interval-allocates", "an interval update hit a failing allocation");
                        c.ev("interval %d %.17g", int(std::get<0>(r)), a.xc());
                        ++c.checks;
                    }
            }
        }
        else if (mode == "orc")
            oracles(sc, c);
        else if (sc.s("space") == "stab")
            drivers<ell_stable>(sc, c);
        else
            drivers<ell>(sc, c);
        simalloc::fill = -1;
    }
};

int main(int argc, char** argv)
{
    OomWorld w;
    return sim_main(argc, argv, w);
}
