// World "iso": many searches at a time.  Every session runs alone first (in a process of its
// own), then all of them together, one at a time, switched by the scenario in front of any
// memory access (threads) or at step boundaries (fibers).  Each must give what it gave alone.
// Real: regions, drivers, oracles, network searches, data generation, conversion.
// Simulated: the thread scheduler, deaths of sessions.
#include "core.hpp"
#include "iso.hpp"
#include "problem.hpp"
#include <csd.cpp>
#include <ellcpp/cut_config.hpp>
#include <ellcpp/cutting_plane.hpp>
#include <ellcpp/ell.hpp>
#include <ellcpp/ell1d.hpp>
#include <ellcpp/ell_stable.hpp>
#include <ellcpp/oracles/cycle_ratio_oracle.hpp>
#include <ellcpp/oracles/lmi_old_oracle.hpp>
#include <ellcpp/oracles/lmi_oracle.hpp>
#include <ellcpp/oracles/lowpass_oracle.hpp>
#include <ellcpp/oracles/optscaling_oracle.hpp>
#include <ellcpp/oracles/profit_oracle.hpp>
#include <lsq_corr_ell.cpp>
#include <memory>
#include <netoptim/min_cycle_ratio.hpp>
#include <netoptim/neg_cycle.hpp>
#include <xtensor/xrandom.hpp>

using namespace sim;

struct Died
{
};
static unsigned char left_behind = 0x3f; // what others leave on the stack
__attribute__((noinline, no_sanitize("thread"))) static void litter() { paint_stack(left_behind); }
struct Out
{
    std::vector<double> v;
    long die_at = 0, steps = 0;
    bool died = false;
    void put(double x) { v.push_back(x); }
    template <typename A>
    void arr(const A& a)
    {
        for (auto&& x : a)
            v.push_back(x);
    }
    void str(const std::string& s)
    {
        for (char ch : s)
            v.push_back(double(ch));
    }
    void step()
    {
        iso::step();
        litter();
        if (++steps == die_at)
            throw Died {};
    }
    void info(const CInfo& i)
    {
        put(i.feasible);
        put(double(i.num_iters));
        put(double(int(i.status)));
    }
};

struct Ses
{
    std::string kind;
    uint64_t seed;
    const Problem* p;
    size_t n, m;
    int size; // budget or number of operations
};

static Arr vec(size_t n, double v)
{
    Arr a = xt::zeros<double>({n});
    for (auto& x : a)
        x = v;
    return a;
}
template <typename E>
static void ses_region(const Ses& s, Out& o)
{
    Rng q(s.seed);
    auto e = std::make_unique<E>(2.5, vec(s.n, 0.3));
    for (int k = 0; k < s.size; ++k)
    {
        o.step();
        Arr g = xt::zeros<double>({s.n});
        for (auto& x : g)
            x = q.normal();
        const double b = q.u(-0.02, 0.05);
        if (q.p(0.3))
        {
            const auto r = e->update(std::make_tuple(g, Arr {b, b + q.u(0.01, 0.6)}));
            o.put(int(std::get<0>(r)));
            o.put(std::get<1>(r));
        }
        else
        {
            const auto r = e->update(std::make_tuple(g, b));
            o.put(int(std::get<0>(r)));
            o.put(std::get<1>(r));
        }
        if (q.p(0.15))
            e = std::make_unique<E>(e->copy());
        o.arr(e->xc());
    }
}
template <typename Orc>
static void ses_feas(const Ses& s, Out& o, Orc& om)
{
    auto f = [&](const Arr& x) {
        o.step();
        auto c = om(x);
        if (c)
        {
            o.arr(std::get<0>(*c));
            o.put(std::get<1>(*c));
        }
        return c;
    };
    ell e(4., vec(s.p->n, 1.3));
    Options op;
    op.max_it = unsigned(s.size);
    litter();
    o.info(cutting_plane_feas(f, e, op));
    o.arr(e.xc());
}
template <typename Orc>
static void ses_dc(const Ses& s, Out& o, Orc& om, double r0, const Arr& x0, double t)
{
    auto f = [&](const Arr& x, double& tt) {
        o.step();
        auto c = om(x, tt);
        o.put(tt);
        return c;
    };
    ell e(r0, x0);
    Options op;
    op.max_it = unsigned(s.size);
    litter();
    const auto r = cutting_plane_dc(f, e, t, op);
    o.arr(std::get<0>(r));
    o.info(std::get<1>(r));
    o.put(t);
    o.arr(e.xc());
}
static void session(const Ses& s, Out& o)
{
    const auto& p = *s.p;
    const auto& k = s.kind;
    Rng q(s.seed);
    if (k == "ell")
        ses_region<ell>(s, o);
    else if (k == "stab")
        ses_region<ell_stable>(s, o);
    else if (k == "lmi")
    {
        lmi_oracle om(p.F, p.B);
        ses_feas(s, o, om);
    }
    else if (k == "old")
    {
        lmi_old_oracle om(p.F, p.B);
        ses_feas(s, o, om);
    }
    else if (k == "lmi0")
    {
        lmi0_oracle om(p.S);
        ses_feas(s, o, om);
    }
    else if (k == "qmi")
    {
        qmi_oracle om(p.F, p.C);
        Options op;
        op.max_it = unsigned(s.size);
        ell e(4., vec(p.n, 1.3));
        bsearch_adaptor<qmi_oracle, ell> ad(om, e, op);
        auto f = [&](double g) {
            o.step();
            const bool r = ad(g);
            o.put(r);
            o.arr(ad.x_best());
            return r;
        };
        auto I = std::make_pair(0., 64. * double(p.m));
        Options ob;
        ob.max_it = 8;
        ob.tol = 1e-3;
        litter();
        o.info(bsearch(f, I, ob));
        o.put(I.first);
        o.put(I.second);
    }
    else if (k == "pp")
    {
        profit_oracle om(p.pp, p.pA, p.pk, p.pa, p.pv);
        ses_dc(s, o, om, 50., vec(2, 0.), 0.);
    }
    else if (k == "pr")
    {
        profit_rb_oracle om(p.pp, p.pA, p.pk, p.pa, p.pv, p.pe, 0.5);
        ses_dc(s, o, om, 50., vec(2, 0.), 0.);
    }
    else if (k == "pq")
    {
        profit_q_oracle om(p.pp, p.pA, p.pk, p.pa, p.pv);
        auto f = [&](const Arr& x, double& tt, bool retry) {
            o.step();
            auto c = om(x, tt, retry);
            o.put(tt);
            return c;
        };
        ell e(50., vec(2, 0.));
        double t = 0.;
        Options op;
        op.max_it = unsigned(s.size);
        litter();
        const auto r = cutting_plane_q(f, e, t, op);
        o.arr(std::get<0>(r));
        o.info(std::get<1>(r));
        o.put(t);
    }
    else if (k == "low")
    {
        lowpass_oracle om(p.Ap, p.As, p.Anr, 0.8, 1.2);
        Arr x0 = vec(p.n, 0.);
        x0(0) = 1.5;
        ses_dc(s, o, om, 4., x0, 10.);
    }
    else if (k == "lsq")
    {
        lsq_oracle om(p.S, p.Y);
        Arr x0 = vec(p.n + 1, 0.);
        x0(0) = 1.5;
        x0(p.n) = 40;
        ses_dc(s, o, om, 64., x0, 1e100);
    }
    else if (k == "mle")
    {
        mle_oracle om(p.S, p.Y);
        Arr x0 = vec(p.n, 0.);
        x0(0) = 1.5;
        ses_dc(s, o, om, 4., x0, 1e100);
    }
    else if (k == "data")
    {
        for (int i = 0; i < 2; ++i)
        {
            o.step();
            const auto st = create_2d_sites(2 + size_t(q.i(0, 1)), 2);
            o.arr(st);
            o.step();
            const auto Y = create_2d_isotropic(st, size_t(q.i(3, 12)));
            o.arr(Y);
            o.step();
            const auto S = construct_poly_matrix(st, 2 + size_t(q.i(0, 1)));
            for (auto& a : S)
                o.arr(a);
        }
    }
    else if (k == "fit")
    {
        const auto st = create_2d_sites(2, 2);
        o.step();
        const auto Y = create_2d_isotropic(st, 20);
        o.step();
        const auto r = q.p(0.5) ? lsq_corr_poly2(Y, st, 2) : lsq_corr_poly(Y, st, 2);
        o.arr(std::get<0>(r));
        o.put(double(std::get<1>(r)));
        o.put(std::get<2>(r));
    }
    else if (k == "xg" || k == "xmcr")
    { // the native graph; walks over its edges are coroutines
        using X = xn::SimpleDiGraphS;
        const X& x = p.xgraph;
        std::vector<double> dist(size_t(x.number_of_nodes()), 0.);
        const auto id = [&](const X::edge_t& e) { return size_t(x.successors(e.first).at(e.second)); };
        if (k == "xmcr")
        {
            double r = 50;
            auto cost = [&](const X::edge_t& e) {
                o.step();
                return p.cost[id(e)];
            };
            auto time = [&](const X::edge_t& e) { return 1. + double(id(e) % 3); };
            for (auto& e : min_cycle_ratio(x, r, cost, time, dist))
                o.put(double(id(e)));
            o.put(r);
            o.arr(dist);
            return;
        }
        negCycleFinder<X> f(x);
        for (int i = 0; i < 2 + s.size / 5; ++i)
        {
            o.step();
            auto a = x.edges(), b = x.edges();
            while (a || b)
            {
                auto& w = (b && (!a || q.p(0.5))) ? b : a;
                const auto e = w.get();
                o.put(double(id(e)));
                w();
                o.step();
            }
            const double add = q.u(-0.5, 2.5);
            for (auto& e : f.find_neg_cycle(dist, [&](const X::edge_t& e) {
                     o.step();
                     return p.cost[id(e)] + add;
                 }))
                o.put(double(id(e)));
            X own(4); // a graph of its own
            for (int j = 0; j < 4; ++j)
            {
                o.step();
                own.add_edge(int(q.i(0, 3)), int(q.i(0, 3)), int(q.i(0, 9)));
            }
            X other(std::move(own));
            for (auto&& e : other.edges())
                o.put(double(e.first * 10 + e.second));
            o.put(double(other.number_of_edges()));
        }
        o.arr(dist);
    }
    else if (k == "neg" || k == "mcr" || k == "os" || k == "ratio")
    {
        const auto nodes = p.graph.number_of_nodes();
        std::vector<double> dist(nodes, 0.);
        if (k == "neg")
        {
            negCycleFinder<G> f(p.graph);
            for (int i = 0; i < 3 + s.size / 4; ++i)
            {
                o.step();
                const double add = q.u(-0.5, 2.5);
                const auto c = f.find_neg_cycle(dist, [&](const auto& e) { return p.cost[boost::get(boost::id_tag, p.graph, e)] + add; });
                o.put(double(c.size()));
                for (auto& e : c)
                    o.put(double(boost::get(boost::id_tag, p.graph, e)));
                o.arr(dist);
            }
        }
        else if (k == "mcr")
        {
            double r = 50;
            auto cost = [&](const auto& e) {
                o.step();
                return p.cost[boost::get(boost::id_tag, p.graph, e)];
            };
            auto time = [&](const auto& e) { return 1. + double(boost::get(boost::id_tag, p.graph, e) % 3); };
            const auto c = min_cycle_ratio(p.graph, r, cost, time, dist);
            o.put(r);
            for (auto& e : c)
                o.put(double(boost::get(boost::id_tag, p.graph, e)));
            o.arr(dist);
        }
        else if (k == "os")
        {
            optscaling_oracle<G, std::vector<double>, CostFn> om(p.graph, dist, CostFn {&p});
            Arr x0 = vec(2, 0.);
            x0(0) = 2.5;
            x0(1) = -2.5;
            ses_dc(s, o, om, 25., x0, 1e100);
            o.arr(dist);
        }
        else
        {
            auto time = [](const auto&) { return 1.; };
            cycle_ratio_oracle<G, std::vector<double>, CostFn, decltype(time)> om(p.graph, dist, CostFn {&p}, time);
            auto f = [&](const double& x, double& tt) {
                o.step();
                auto c = om(x, tt);
                o.put(tt);
                return c;
            };
            ell1d e(-10., 10.);
            double t = -1e100;
            Options op;
            op.max_it = unsigned(s.size);
            litter();
            const auto r = cutting_plane_dc(f, e, t, op);
            o.put(std::get<0>(r));
            o.info(std::get<1>(r));
            o.put(t);
        }
    }
    else if (k == "csd")
    {
        for (int i = 0; i < s.size; ++i)
        {
            o.step();
            const double x = q.u(-40, 40);
            const auto c = to_csd(x, int(q.i(0, 8)));
            o.str(c);
            o.step();
            o.put(to_decimal(c));
            o.str(to_csdfixed(x, unsigned(q.i(1, 6))));
        }
    }
    else if (k == "ldlt")
    {
        ldlt_ext Q(s.m + 1);
        for (int i = 0; i < s.size; ++i)
        {
            o.step();
            const Arr A = Problem::sym(q, s.m + 1, q.u(0.5, 5), 1.);
            const bool spd = Q.factorize(A);
            o.put(spd);
            if (spd)
                o.arr(Q.sqrt());
            else
            {
                o.put(Q.witness());
                o.put(Q.sym_quad(A));
            }
        }
    }
    else if (k == "host")
    { // the host's own use of the process-wide random engine
        for (int i = 0; i < s.size; ++i)
        {
            o.step();
            const auto a = Arr {xt::random::randn<double>({3})};
            o.arr(a);
            o.step();
            o.put(double(rand()));
        }
    }
}
static void guarded(const Ses& s, Out& o)
{
    try
    {
        session(s, o);
    }
    catch (const Died&)
    {
        o.died = true;
    }
    catch (const std::exception& e)
    {
        o.str(e.what());
    }
    catch (...)
    {
        o.str("unknown exception");
    }
}

struct IsoWorld : World
{
    Scenario gen(Rng& r, const std::string&, bool thorough) override
    {
        Scenario sc;
        const std::vector<std::string> kinds = {"ell", "ell", "stab", "lmi", "old", "lmi0", "qmi", "pp", "pr", "pq", "low", "lsq", "mle", "data", "fit", "neg", "mcr", "os",
            "ratio", "csd", "ldlt", "xg", "xmcr"};
        const long ns = r.p(0.6) ? 2 : r.i(3, thorough ? 6 : 4);
        const bool fibers = r.p(0.25);
        sc.set("fibers", fibers ? 1 : 0);
        const bool alike = r.p(0.6), oneproblem = r.p(0.5);
        const auto k0 = r.pick(kinds);
        const long ps = r.i(1, 1000000000), n0 = r.i(2, 4), m0 = r.i(2, 4);
        bool host = false;
        for (long i = 0; i < ns; ++i)
        {
            std::string k = alike ? k0 : r.pick(kinds);
            if (!host && r.p(0.12))
            {
                k = "host";
                host = true;
            }
            const bool same = oneproblem || r.p(0.3);
            sc.add(fmt("ses %ld %s %ld %ld %ld %ld %ld %ld", i, k.c_str(), r.i(1, 1000000000), same ? ps : r.i(1, 1000000000), same ? n0 : r.i(2, 4), same ? m0 : r.i(2, 4),
                r.i(2, thorough ? 25 : 12), r.p(0.15) ? r.i(1, 12) : 0L));
        }
        const long nsw = r.pick({r.i(1, 4), r.i(4, 30), r.i(20, 120)});
        for (long i = 0; i < nsw; ++i)
        {
            const char kind = fibers ? 's' : r.pick({'a', 'a', 'h', 's'});
            const double u = r.u();
            sc.add(fmt("sw %ld %c %.9g %ld", r.i(0, ns - 1), kind, r.p(0.3) ? u * u * u : u, r.i(0, ns - 1)));
            if (kind != 's' && r.p(0.3))
            { // and again a few accesses later
                auto& w = sc.steps.back();
                (void)w;
                sc.add(fmt("sw %ld %c+%ld %.9g %ld", r.i(0, ns - 1), kind, r.i(1, 40), r.p(0.3) ? u * u * u : u, r.i(0, ns - 1)));
            }
        }
        return sc;
    }

    // the session alone, in a process of its own
    static bool solo(const Ses& s, long die_at, Out& o, iso::Counts& n, bool fibers)
    {
        int fd[2];
        if (pipe(fd) != 0)
            return false;
        fflush(stdout);
        const pid_t pid = fork();
        if (pid == 0)
        {
            close(fd[0]);
            Out x;
            x.die_at = die_at;
            iso::Plan pl;
            pl.fibers = fibers;
            std::vector<long> fired;
            const auto c = iso::run({[&] { guarded(s, x); }}, pl, fired);
            uint64_t h[6] = {x.v.size(), uint64_t(x.died), uint64_t(x.steps), c[0].any, c[0].hot, c[0].step};
            auto wr = [&](const void* p, size_t len) {
                const char* b = static_cast<const char*>(p);
                while (len > 0)
                {
                    const ssize_t k = write(fd[1], b, len);
                    if (k <= 0)
                        _exit(4);
                    b += k;
                    len -= size_t(k);
                }
            };
            wr(h, sizeof h);
            wr(x.v.data(), 8 * x.v.size());
            _exit(0);
        }
        close(fd[1]);
        std::string in;
        char buf[65536];
        ssize_t k;
        while ((k = read(fd[0], buf, sizeof buf)) > 0)
            in.append(buf, size_t(k));
        close(fd[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || in.size() < 48)
            return false;
        uint64_t h[6];
        memcpy(h, in.data(), 48);
        o.v.resize(h[0]);
        if (in.size() != 48 + 8 * h[0])
            return false;
        memcpy(o.v.data(), in.data() + 48, 8 * h[0]);
        o.died = h[1] != 0;
        o.steps = long(h[2]);
        n.any = h[3];
        n.hot = h[4];
        n.step = h[5];
        return true;
    }

    void run(const Scenario& sc, Ctx& c) override
    {
        const bool fibers = sc.i("fibers") != 0;
        std::map<std::vector<uint64_t>, std::unique_ptr<Problem>> problems;
        std::map<std::vector<uint64_t>, std::unique_ptr<Problem>> pristine;
        std::vector<Ses> ses;
        std::vector<long> die, ids;
        bool host = false;
        for (auto& st : sc.steps)
            if (st.op() == "ses")
            {
                if (st.str(2) == "host")
                {
                    if (host)
                        continue;
                    host = true;
                }
                const std::vector<uint64_t> key {st.u(4), st.u(5), st.u(6)};
                auto& p = problems[key];
                if (!p)
                    p.reset(new Problem(Rng(key[0]), key[1], key[2]));
                ses.push_back({st.str(2), st.u(3), p.get(), key[1], key[2], int(st.i(7))});
                die.push_back(st.i(8));
                ids.push_back(st.i(1));
            }
        if (ses.empty())
            return;
        for (auto& kv : problems)
            pristine[kv.first].reset(new Problem(Rng(kv.first[0]), kv.first[1], kv.first[2]));
        std::vector<Out> alone(ses.size()), together(ses.size());
        std::vector<iso::Counts> n(ses.size());
        for (size_t i = 0; i < ses.size(); ++i)
        {
            if (!solo(ses[i], die[i], alone[i], n[i], fibers))
            { // fails even when alone: nothing to compare with
                c.probe("dies-alone");
                return;
            }
            c.ev("session %ld %s alone: %zu results, %d steps", ids[i], ses[i].kind.c_str(), alone[i].v.size(), int(alone[i].steps));
            uint64_t h = 1469598103934665603ULL;
            Ctx::mix(h, reinterpret_cast<const char*>(alone[i].v.data()), 8 * alone[i].v.size());
            c.ev("%llx", (unsigned long long)h);
            c.simtime += double(n[i].any);
            c.token(ses[i].kind);
        }
        iso::Plan pl;
        pl.fibers = fibers;
        for (auto& st : sc.steps)
            if (st.op() == "sw")
            {
                size_t who = ses.size(), to = 0;
                for (size_t i = 0; i < ids.size(); ++i)
                {
                    if (ids[i] == st.i(1))
                        who = i;
                    if (ids[i] == st.i(4))
                        to = i;
                }
                if (who == ses.size())
                    continue;
                const std::string ks = st.str(2);
                const char k = ks[0];
                const uint64_t tot = k == 'a' ? n[who].any : k == 'h' ? n[who].hot : n[who].step;
                const uint64_t plus = ks.size() > 2 ? strtoull(ks.c_str() + 2, nullptr, 10) : 0;
                pl.sw.push_back({int(who), k, 1 + uint64_t(st.d(3) * double(tot)) + plus, int(to)});
            }
        std::vector<std::function<void()>> fs;
        for (size_t i = 0; i < ses.size(); ++i)
        {
            together[i].die_at = die[i];
            fs.push_back([&, i] { guarded(ses[i], together[i]); });
        }
        std::vector<long> fired;
        left_behind = 0x40;
        const auto cnt = iso::run(fs, pl, fired);
        left_behind = 0x3f;
        const char* names[3] = {"preempted-at-access", "preempted-at-shared-data", "preempted-at-step"};
        for (int k = 0; k < 3; ++k)
            for (long j = 0; j < fired[size_t(k)]; ++j)
                ++c.faults[names[k]];
        c.token(fmt("%ld %ld %ld", fired[0], fired[1], fired[2]));
        for (size_t i = 0; i < ses.size(); ++i)
        {
            ++c.checks;
            if (together[i].died)
                c.fault("session-died");
            c.token(fmt("%llu", (unsigned long long)cnt[i].any % 97));
            const auto &a = alone[i].v, &b = together[i].v;
            size_t k = 0;
            while (k < a.size() && k < b.size() && memcmp(&a[k], &b[k], 8) == 0)
                ++k;
            if (k < a.size() || k < b.size() || alone[i].died != together[i].died)
                c.violate("session-disturbed", "session %ld (%s): result %zu of %zu is %.17g; alone it is %.17g (of %zu)", ids[i], ses[i].kind.c_str(), k, b.size(),
                    k < b.size() ? b[k] : NAN, k < a.size() ? a[k] : NAN, a.size());
        }
        // the problem data they share are as they were
        for (auto& kv : problems)
        {
            const auto &x = *kv.second, &y = *pristine[kv.first];
            auto eq = [](const Arr& p, const Arr& q) { return p.shape() == q.shape() && memcmp(p.data(), q.data(), 8 * p.size()) == 0; };
            bool ok = eq(x.B, y.B) && eq(x.C, y.C) && eq(x.Y, y.Y) && eq(x.Ap, y.Ap) && eq(x.As, y.As) && eq(x.Anr, y.Anr) && eq(x.pa, y.pa) && eq(x.pv, y.pv) &&
                eq(x.pe, y.pe) && x.cost == y.cost;
            for (size_t i = 0; i < x.n; ++i)
                ok = ok && eq(x.F[i], y.F[i]) && eq(x.S[i], y.S[i]);
            if (!ok)
                c.violate("shared-data-changed", "the problem data that sessions share have changed");
        }
    }
};

int main(int argc, char** argv)
{
    IsoWorld w;
    return sim_main(argc, argv, w);
}
