// World "resume": one search run to its end without disturbance, and the same search cut
// into budget slices, interrupted by failing queries and crashes (process state lost, only
// the last checkpoint survives).  Both must visit the same points and end alike.
// Real: drivers, regions, profit_oracle, lmi_oracle.  Simulated: failing oracle, host, storage.
#include "la.hpp"
#include <ellcpp/cut_config.hpp>
#include <ellcpp/cutting_plane.hpp>
#include <ellcpp/ell.hpp>
#include <ellcpp/ell1d.hpp>
#include <ellcpp/ell_stable.hpp>
#include <ellcpp/oracles/lmi_oracle.hpp>
#include <ellcpp/oracles/profit_oracle.hpp>
#include <memory>
#include <optional>

using namespace sim;
using Arr = xt::xarray<double, xt::layout_type::row_major>;

struct Boom
{
};

static Arr arr(const std::vector<double>& v)
{
    Arr a = xt::zeros<double>({v.size()});
    for (size_t i = 0; i < v.size(); ++i)
        a(i) = v[i];
    return a;
}
static std::vector<double> vec(const Arr& a) { return std::vector<double>(a.begin(), a.end()); }
static std::vector<double> vec(double x) { return {x}; }

// a point asked about, bit for bit
using Bits = std::vector<double>;
static bool same(const Bits& a, const Bits& b) { return a.size() == b.size() && memcmp(a.data(), b.data(), 8 * a.size()) == 0; }

static const char* stname(CUTStatus s)
{
    static const char* n[] = {"success", "nosoln", "smallenough", "noeffect"};
    return n[int(s)];
}

// observe a region through its public face
template <typename E>
static Bits look(const E& e, size_t n)
{
    Bits b = vec(Arr(e.xc()));
    for (size_t k = 0; k < 2 * n + 3; ++k)
    {
        std::vector<double> g(n, 0.);
        if (k < n)
            g[k] = 1;
        else
            for (size_t i = 0; i < n; ++i)
                g[i] = std::sin(double(k * 7 + i * 3 + 1));
        auto c = e.copy();
        b.push_back(std::get<1>(c.update(std::tuple<Arr, double> {arr(g), 1e300})));
    }
    return b;
}
static Bits look(const ell1d& e, size_t)
{
    ell1d c(e);
    return {e.xc(), std::get<1>(c.update({1., 1e300}))};
}
template <typename E>
static std::unique_ptr<E> dup(const E& e)
{
    return std::make_unique<E>(e.copy());
}
static std::unique_ptr<ell1d> dup(const ell1d& e) { return std::make_unique<ell1d>(e); }

// ------------------------------------------------------------ deterministic convex problems
struct Problem
{ // constraints |x - z_k| <= r_k or a_k'x <= b_k or lo <= a_k'x <= hi; objective c'x
    size_t n;
    std::vector<std::vector<double>> z;
    std::vector<double> r, hi, lo;
    std::vector<int> type;
    std::vector<double> obj;
    bool deep, parallel;
    Problem(const Scenario& sc)
    {
        Rng q(sc.u("pseed"));
        n = size_t(sc.i("n"));
        deep = sc.i("deep") != 0;
        parallel = sc.i("par") != 0;
        std::vector<double> p(n); // a point that satisfies everything, if feasible
        for (auto& x : p)
            x = q.u(-1, 1);
        const bool infeasible = sc.i("infeasible") != 0;
        for (long k = 0, m = sc.i("m"); k < m; ++k)
        {
            type.push_back(int(q.i(0, parallel ? 2 : 1)));
            std::vector<double> a(n);
            double s = 0;
            for (auto& x : a)
            {
                x = q.normal();
                s += x * x;
            }
            s = std::sqrt(s + 1e-12);
            double d = q.u(0.05, 0.6);
            if (type.back() == 0)
            { // ball that contains a neighbourhood of p
                double R = q.u(0.3, 2);
                for (size_t i = 0; i < n; ++i)
                    a[i] = p[i] + a[i] / s * std::max(0., R - d);
                r.push_back(R);
                hi.push_back(0);
                lo.push_back(0);
            }
            else
            {
                double ap = 0;
                for (size_t i = 0; i < n; ++i)
                {
                    a[i] /= s;
                    ap += a[i] * p[i];
                }
                r.push_back(0);
                hi.push_back(ap + d);
                lo.push_back(ap - q.u(0.05, 0.5));
            }
            z.push_back(a);
        }
        if (infeasible && n > 0)
        { // two opposite half spaces
            std::vector<double> a(n, 0.), b(n, 0.);
            a[0] = 1;
            b[0] = -1;
            for (auto v : {a, b})
            {
                type.push_back(1);
                z.push_back(v);
                r.push_back(0);
                hi.push_back(-0.1 + (v[0] > 0 ? p[0] : -p[0]));
                lo.push_back(0);
            }
        }
        for (size_t i = 0; i < n; ++i)
            obj.push_back(q.normal());
    }
    // the cut of the first violated constraint
    bool violated(const std::vector<double>& x, std::vector<double>& g, double& b0, double& b1, bool& par) const
    {
        par = false;
        for (size_t k = 0; k < type.size(); ++k)
        {
            double s = 0;
            if (type[k] == 0)
            {
                for (size_t i = 0; i < n; ++i)
                    s += (x[i] - z[k][i]) * (x[i] - z[k][i]);
                s = std::sqrt(s);
                if (s <= r[k])
                    continue;
                for (size_t i = 0; i < n; ++i)
                    g[i] = (x[i] - z[k][i]) / s;
                b0 = deep ? s - r[k] : 0.;
                return true;
            }
            for (size_t i = 0; i < n; ++i)
                s += x[i] * z[k][i];
            if (s > hi[k])
            {
                g = z[k];
                b0 = deep ? s - hi[k] : 0.;
                if (type[k] == 2)
                    par = true, b1 = s - lo[k];
                return true;
            }
            if (type[k] == 2 && s < lo[k])
            {
                for (size_t i = 0; i < n; ++i)
                    g[i] = -z[k][i];
                b0 = deep ? lo[k] - s : 0.;
                par = true;
                b1 = hi[k] - s;
                return true;
            }
        }
        return false;
    }
};

template <typename X>
struct CutOf;
template <>
struct CutOf<Arr>
{
    using Single = std::tuple<Arr, double>;
    using List = std::tuple<Arr, Arr>;
    static Single single(const std::vector<double>& g, double b) { return {arr(g), b}; }
    static List list(const std::vector<double>& g, double b0, double b1, bool par) { return {arr(g), par ? Arr {b0, b1} : Arr {b0}}; }
};
template <>
struct CutOf<double>
{
    using Single = std::tuple<double, double>;
    static Single single(const std::vector<double>& g, double b) { return {g[0], b}; }
};

// what one side of the comparison recorded
struct Trace
{
    std::vector<Bits> points;
    std::vector<double> mids;
    double t = 0;
    bool feasible = false;
    CUTStatus status = CUTStatus::success;
    Bits best, region;
    bool has_best = false, best_sure = true;
    bool tie = false;
};

struct FailPlan
{
    std::set<long> fail;  // global query numbers at which the oracle fails
    std::vector<long> slices;
    std::set<long> ckpt;  // after which slice a checkpoint is written
    std::set<long> crash; // after which slice the process dies
};

template <typename E, typename X>
struct Session
{
    const Scenario& sc;
    Ctx& c;
    Problem pb;
    std::string kind;
    std::vector<Arr> F; // the oracle only looks at it
    std::unique_ptr<lmi_oracle> lmi;
    std::unique_ptr<profit_oracle> prof;
    Session(const Scenario& s, Ctx& cc)
        : sc(s)
        , c(cc)
        , pb(s)
        , kind(s.s("mode"))
    {
        if (kind == "lmi")
        {
            Rng q(s.u("pseed"));
            const size_t n = size_t(s.i("n")), m = size_t(s.i("lm", 3));
            auto rnd = [&](double d) {
                Arr a = xt::zeros<double>({m, m});
                for (size_t i = 0; i < m; ++i)
                    for (size_t j = 0; j <= i; ++j)
                        a(i, j) = a(j, i) = q.normal() + (i == j ? d : 0.);
                return a;
            };
            for (size_t k = 0; k < n; ++k)
                F.push_back(rnd(0));
            // B - sum F x > 0 near a random point
            Arr B = rnd(s.i("infeasible") ? -3. : 2.);
            for (size_t k = 0; k < n; ++k)
                B += q.u(-1, 1) * F[k];
            lmi = std::make_unique<lmi_oracle>(F, std::move(B));
        }
        if (kind == "profit")
            prof = std::make_unique<profit_oracle>(s.d("p"), s.d("A"), s.d("k"), Arr {s.d("a0"), s.d("a1")}, Arr {s.d("v0"), s.d("v1")});
    }
    Options opt(long queries) const
    {
        Options o;
        o.max_it = unsigned(queries + 1);
        o.tol = sc.d("tol");
        return o;
    }
    // one driver call; returns true when the search ended for good
    bool call(E& e, Trace& tr, const FailPlan* fp, long& q, long budget, long& used)
    {
        const long q0 = long(tr.points.size());
        auto ask = [&](const X& x) {
            ++q;
            c.simtime += 1;
            if (fp && fp->fail.count(q))
            {
                c.fault("oracle-fails");
                throw Boom();
            }
            tr.points.push_back(vec(x));
        };
        std::vector<double> g(pb.n);
        double b0 = 0, b1 = 0;
        bool par = false;
        CInfo info {false, 0, CUTStatus::success};
        bool improved = false;
        try
        {
            if (kind == "feas")
            {
                auto O = [&](const X& x) -> std::optional<typename CutOf<X>::Single> {
                    ask(x);
                    if (!pb.violated(vec(x), g, b0, b1, par))
                        return {};
                    return CutOf<X>::single(g, b0);
                };
                info = cutting_plane_feas(O, e, opt(budget));
            }
            else if constexpr (std::is_same<X, Arr>::value)
            {
                if (kind == "feasl")
                {
                    auto O = [&](const X& x) -> std::optional<typename CutOf<X>::List> {
                        ask(x);
                        if (!pb.violated(vec(x), g, b0, b1, par))
                            return {};
                        return CutOf<X>::list(g, b0, b1, par);
                    };
                    info = cutting_plane_feas(O, e, opt(budget));
                }
                else if (kind == "lmi")
                {
                    auto O = [&](const X& x) {
                        ask(x);
                        return (*lmi)(x);
                    };
                    info = cutting_plane_feas(O, e, opt(budget));
                }
                else if (kind == "profit")
                {
                    auto O = [&](const X& x, double& t) {
                        ask(x);
                        const double told = t;
                        auto r = (*prof)(x, t);
                        if (std::get<1>(r))
                        {
                            improved = true;
                            if (told == t)
                                tr.tie = true;
                        }
                        return r;
                    };
                    auto r = cutting_plane_dc(O, e, tr.t, opt(budget));
                    finish_best(tr, std::get<1>(r), vec(std::get<0>(r)));
                    info = std::get<1>(r);
                }
            }
            if (kind == "dc")
            {
                auto O = [&](const X& x, double& t) -> std::tuple<typename CutOf<X>::Single, bool> {
                    ask(x);
                    auto xv = vec(x);
                    if (pb.violated(xv, g, b0, b1, par))
                        return {CutOf<X>::single(g, b0), false};
                    double f = 0;
                    for (size_t i = 0; i < pb.n; ++i)
                        f += pb.obj[i] * xv[i];
                    double fj = f - t;
                    if (fj < 0)
                    {
                        t = f;
                        improved = true;
                        return {CutOf<X>::single(pb.obj, 0.), true};
                    }
                    return {CutOf<X>::single(pb.obj, pb.deep ? fj : 0.), false};
                };
                auto r = cutting_plane_dc(O, e, tr.t, opt(budget));
                finish_best(tr, std::get<1>(r), vec(std::get<0>(r)));
                info = std::get<1>(r);
            }
        }
        catch (const Boom&)
        {
            used = long(tr.points.size()) - q0;
            if (improved)
                tr.best_sure = false, tr.feasible = true; // the point was the failed call's to return
            return false;
        }
        used = long(tr.points.size()) - q0;
        const bool budget_exit = info.num_iters == size_t(budget + 1);
        tr.feasible = tr.feasible || info.feasible;
        tr.status = info.status;
        return !budget_exit;
    }
    void finish_best(Trace& tr, const CInfo& i, const Bits& x)
    {
        if (i.feasible)
        {
            tr.best = x;
            tr.has_best = true;
            tr.best_sure = true;
        }
    }

    void go(E& base, E& test)
    {
        const size_t n = pb.n;
        const long total = sc.i("total");
        Trace a, b;
        a.t = b.t = sc.d("t0");
        long q = 0, used = 0;
        const bool enda = call(base, a, nullptr, q, total, used);
        if (!enda)
            c.probe("baseline-budget-exit");
        else
            c.probe(std::string("baseline-") + (a.feasible ? "feasible-" : "") + stname(a.status));
        a.region = look(base, n);
        c.ev("baseline %zu points t=%.17g feasible=%d status=%s", a.points.size(), a.t, int(a.feasible), stname(a.status));

        // the disturbed one
        FailPlan fp;
        std::vector<Step> ops;
        for (auto& st : sc.steps)
        {
            if (st.op() == "fail")
                fp.fail.insert(st.i(1));
            else
                ops.push_back(st);
        }
        std::unique_ptr<E> live = dup(test);
        std::unique_ptr<E> saved = dup(test);
        Trace savedtr = b;
        q = 0;
        bool ended = false;
        size_t k = 0;
        long calls = 0;
        auto verify_prefix = [&]() {
            for (size_t i = 0; i < b.points.size(); ++i)
            {
                ++c.checks;
                if (i >= a.points.size())
                    c.violate("search-goes-on", "the disturbed search visits point %zu, the undisturbed one stopped after %zu", i + 1, a.points.size());
                if (!same(a.points[i], b.points[i]))
                    c.violate("other-path", "point %zu differs from that of the undisturbed search (%.17g, expected %.17g)", i + 1, b.points[i][0], a.points[i][0]);
            }
        };
        while (!ended && ++calls < 5000)
        {
            const long left = total - long(b.points.size());
            if (left <= 0)
                break;
            long budget = left;
            if (k < ops.size())
            {
                const Step& st = ops[k++];
                if (st.op() == "slice")
                {
                    budget = std::min(left, std::max(0L, st.i(1)));
                    c.fault("budget-slice");
                    c.token("s");
                }
                else if (st.op() == "ckpt")
                {
                    saved = dup(*live);
                    savedtr = b;
                    c.fault("checkpoint");
                    c.token("k");
                    continue;
                }
                else if (st.op() == "crash")
                {
                    verify_prefix();
                    live = dup(*saved);
                    b = savedtr;
                    c.fault("crash-restart");
                    c.token("c");
                    continue;
                }
                else if (st.op() == "move")
                {
                    live = std::make_unique<E>(std::move(*live));
                    c.fault("region-moved");
                    continue;
                }
            }
            ended = call(*live, b, &fp, q, budget, used);
            c.token(fmt("%ld", used));
            c.ev("slice budget %ld used %ld t=%.17g ended=%d", budget, used, b.t, int(ended));
        }
        verify_prefix();
        b.region = look(*live, n);
        ++c.checks;
        if (b.points.size() != a.points.size())
            c.violate("stopped-early", "the disturbed search visits %zu points, the undisturbed one %zu", b.points.size(), a.points.size());
        if (ended != enda || (ended && b.status != a.status))
            c.violate("other-end", "the disturbed search ends with %s (%s), the undisturbed one with %s (%s)", stname(b.status), ended ? "ended" : "budget",
                stname(a.status), enda ? "ended" : "budget");
        if (memcmp(&a.t, &b.t, 8) != 0)
            c.violate("other-best", "best value %.17g, undisturbed %.17g", b.t, a.t);
        if (a.feasible != b.feasible)
            c.violate("other-end", "feasible=%d, undisturbed %d", int(b.feasible), int(a.feasible));
        if (a.has_best && !a.tie && b.best_sure && (!b.has_best || !same(a.best, b.best)))
            c.violate("other-best", "the best point differs from that of the undisturbed search");
        if (!same(a.region, b.region))
        {
            bool nan = false;
            for (double v : a.region)
                nan = nan || std::isnan(v);
            if (!nan)
                c.violate("other-region", "the region differs from that of the undisturbed search");
        }
        c.ev("end t=%.17g", b.t);
    }
};

// ------------------------------------------------------------ bisection, plain and over an adaptor
struct AdOracle
{
    Problem& pb;
    Ctx& c;
    double t = 0;
    long q = 0;
    const std::set<long>* fail = nullptr;
    std::vector<Bits>* points = nullptr;
    void update(const double& tt) { t = tt; }
    std::optional<std::tuple<Arr, double>> operator()(const Arr& x)
    {
        ++q;
        c.simtime += 1;
        if (fail && fail->count(q))
        {
            c.fault("oracle-fails");
            throw Boom();
        }
        auto xv = vec(x);
        points->push_back(xv);
        std::vector<double> g(pb.n);
        double b0, b1;
        bool par;
        if (pb.violated(xv, g, b0, b1, par))
            return std::tuple<Arr, double> {arr(g), b0};
        double f = 0;
        for (size_t i = 0; i < pb.n; ++i)
            f += pb.obj[i] * xv[i];
        if (f > t)
            return std::tuple<Arr, double> {arr(pb.obj), pb.deep ? f - t : 0.};
        return {};
    }
};

template <typename E>
static void run_ad(const Scenario& sc, Ctx& c, E&& S)
{
    Problem pb(sc);
    Options in, o;
    in.max_it = unsigned(sc.i("inner"));
    in.tol = sc.d("tol");
    o.tol = sc.d("otol");
    const long total = sc.i("total");
    E T = S.copy();
    std::set<long> fail;
    for (auto& st : sc.steps)
        if (st.op() == "fail")
            fail.insert(st.i(1));
    struct Rec
    {
        double t;
        bool ans;
        std::vector<Bits> pts;
    };
    auto go = [&](E& s, bool disturbed, std::vector<Rec>& rec, std::pair<double, double>& I, Arr& xb) {
        std::vector<Bits> pts;
        AdOracle P {pb, c, 0, 0, disturbed ? &fail : nullptr, &pts};
        bsearch_adaptor<AdOracle, E> A(P, s, in);
        auto D = [&](const double& t) {
            pts.clear();
            bool r = A(t);
            rec.push_back({t, r, pts});
            return r;
        };
        size_t k = 0;
        for (int round = 0; round < 400; ++round)
        {
            Options oo = o;
            long left = total - long(rec.size());
            if (left < 0)
                left = 0;
            oo.max_it = unsigned(left);
            if (disturbed)
            {
                while (k < sc.steps.size() && sc.steps[k].op() != "slice")
                    ++k;
                if (k < sc.steps.size())
                {
                    oo.max_it = unsigned(std::min(left, std::max(0L, sc.steps[k++].i(1) / 8)));
                    c.fault("budget-slice");
                }
            }
            try
            {
                CInfo r = bsearch(D, I, oo);
                if (r.status == CUTStatus::smallenough || long(rec.size()) >= total)
                    break;
            }
            catch (const Boom&)
            {
                c.token("f");
            }
        }
        xb = A.x_best();
    };
    std::vector<Rec> ra, rb;
    std::pair<double, double> Ia {sc.d("lo"), sc.d("hi")}, Ib = Ia;
    Arr xa, xb;
    go(S, false, ra, Ia, xa);
    go(T, true, rb, Ib, xb);
    c.ev("ends [%.17g %.17g] after %zu midpoints", Ib.first, Ib.second, rb.size());
    ++c.checks;
    for (size_t i = 0; i < std::min(ra.size(), rb.size()); ++i)
    {
        ++c.checks;
        c.token(rb[i].ans ? "u" : "l");
        if (memcmp(&ra[i].t, &rb[i].t, 8) != 0 || ra[i].ans != rb[i].ans)
            c.violate("other-path", "midpoint %zu: %.17g/%d, undisturbed %.17g/%d", i + 1, rb[i].t, int(rb[i].ans), ra[i].t, int(ra[i].ans));
        if (ra[i].pts.size() != rb[i].pts.size())
            c.violate("other-path", "the search for midpoint %zu visits %zu points, undisturbed %zu", i + 1, rb[i].pts.size(), ra[i].pts.size());
        for (size_t j = 0; j < ra[i].pts.size(); ++j)
            if (!same(ra[i].pts[j], rb[i].pts[j]))
                c.violate("other-path", "point %zu of the search for midpoint %zu differs", j + 1, i + 1);
    }
    if (ra.size() != rb.size())
        c.violate("stopped-early", "%zu midpoints, undisturbed %zu", rb.size(), ra.size());
    if (memcmp(&Ia, &Ib, sizeof Ia) != 0)
        c.violate("other-end", "interval [%.17g, %.17g], undisturbed [%.17g, %.17g]", Ib.first, Ib.second, Ia.first, Ia.second);
    if (!same(vec(xa), vec(xb)))
        c.violate("other-best", "the kept point differs");
    if (!same(look(S, pb.n), look(T, pb.n)))
        c.violate("other-region", "the region differs from that of the undisturbed search");
}

struct ResumeWorld : World
{
    Scenario gen(Rng& r, const std::string&, bool thorough) override
    {
        Scenario sc;
        std::string mode = r.pick(std::vector<std::string> {"feas", "feas", "feasl", "dc", "dc", "dc", "profit", "lmi", "ad"});
        std::string reg = r.pick(std::vector<std::string> {"ell", "ell", "stable", "stable", "1d"});
        if (reg == "1d" && mode != "feas" && mode != "dc")
            reg = "ell";
        long n = reg == "1d" ? 1 : mode == "profit" ? 2 : r.p(0.03) ? r.i(7, 14) : r.i(2, thorough ? 10 : 6);
        sc.set("mode", mode);
        sc.set("reg", reg);
        sc.set("n", n);
        sc.set("m", r.i(1, 5));
        sc.set("lm", r.i(2, 4));
        sc.set("deep", r.i(0, 1));
        sc.set("par", mode == "feasl" ? 1 : 0);
        sc.set("infeasible", r.p(0.15) ? 1 : 0);
        sc.set("pseed", r.next());
        sc.set("tol", r.pick({1e-8, 1e-6, 1e-4, 1e-10}));
        sc.set("otol", r.pick({1e-6, 1e-4, 1e-2}));
        sc.set("inner", r.i(5, 300));
        sc.set("lo", -10.);
        sc.set("hi", r.u(1., 15.));
        sc.set("radius", r.pick({1., 4., 10., 64.}));
        sc.set("asvec", r.i(0, 1));
        sc.set("nodefer", r.p(0.3) ? 1 : 0);
        sc.set("x0", r.u(-1, 1));
        sc.set("t0", 1e100);
        if (mode == "profit")
        {
            sc.set("t0", 0.);
            sc.set("a0", r.u(0.05, 0.45));
            sc.set("a1", r.u(0.05, 0.45));
            sc.set("v0", r.u(1, 20));
            sc.set("v1", r.u(1, 30));
            sc.set("p", r.u(5, 40));
            sc.set("A", r.u(5, 60));
            sc.set("k", r.u(2, 60));
        }
        long total = r.p(0.3) ? r.i(1, 30) : r.p(0.03) ? r.i(1000, 2500) : r.i(50, 600);
        sc.set("total", total);
        const double pf = r.u(0, 0.12), pk = r.u(0, 0.4), pc = r.u(0, 0.3);
        long q = 0;
        for (long k = 0, m = r.i(1, 25); k < m; ++k)
        {
            if (r.p(pk))
                sc.add("ckpt");
            else if (r.p(pc))
                sc.add("crash");
            else if (r.p(0.1))
                sc.add("move");
            else
                sc.add(fmt("slice %ld", r.p(0.15) ? r.i(0, 1) : r.i(1, std::max(2L, total / 6))));
        }
        for (long k = 1; k <= total && q < 40; ++k)
            if (r.p(pf))
            {
                sc.add(fmt("fail %ld", k));
                ++q;
                if (r.p(0.2))
                    sc.add(fmt("fail %ld", ++k)); // the retry fails as well
            }
        return sc;
    }
    template <typename E>
    E make(const Scenario& sc)
    {
        const size_t n = size_t(sc.i("n"));
        std::vector<double> x(n, sc.d("x0")), v(n, sc.d("radius") * sc.d("radius"));
        for (size_t i = 0; i < n; ++i)
            v[i] *= 1. + 0.1 * double(i);
        if (sc.i("asvec"))
            return E(arr(v), arr(x));
        return E(v[0], arr(x));
    }
    template <typename E>
    void with(const Scenario& sc, Ctx& c)
    {
        auto a = make<E>(sc);
        a.no_defer_trick = sc.i("nodefer") != 0;
        if (sc.s("mode") == "ad")
            return run_ad(sc, c, std::move(a));
        auto b = a.copy();
        Session<E, Arr> s(sc, c);
        s.go(a, b);
    }
    void run(const Scenario& sc, Ctx& c) override
    {
        c.token(sc.s("mode") + sc.s("reg") + sc.s("n"));
        if (sc.s("reg") == "1d")
        {
            double r = sc.d("radius"), x = sc.d("x0");
            ell1d a(x - r, x + r), b(x - r, x + r);
            Session<ell1d, double> s(sc, c);
            return s.go(a, b);
        }
        if (sc.s("reg") == "stable")
            return with<ell_stable>(sc, c);
        with<ell>(sc, c);
    }
};

int main(int argc, char** argv)
{
    ResumeWorld w;
    return sim_main(argc, argv, w);
}
