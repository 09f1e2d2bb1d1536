// World "net": network searches whose warm start (potentials, finder, best value) is shared
// by several clients, meddled with by the host, and left half done by failing edge callbacks.
// Real: negCycleFinder, max_parametric, min_cycle_ratio, fun::Fraction, xn::grAdaptor, xn::DiGraphS,
//       network / cycle-ratio / optimal-scaling oracles.
// Simulated: edge data source (may fail at any read), clients, host that edits potentials.
#include "core.hpp"
#include <boost/graph/adjacency_list.hpp>
#include <boost/graph/properties.hpp>
#include <ellcpp/oracles/cycle_ratio_oracle.hpp>
#include <ellcpp/oracles/network_oracle.hpp>
#include <ellcpp/oracles/optscaling_oracle.hpp>
#include <memory>
#include <netoptim/min_cycle_ratio.hpp>
#include <netoptim/neg_cycle.hpp>
#include <netoptim/parametric.hpp>
#include <py2cpp/fractions.hpp>
#include <py2cpp/nx2bgl.hpp>
#include <py2cpp/py2cpp.hpp>
#include <xnetwork/classes/digraphs.hpp>
#include <xtensor/xarray.hpp>

namespace boost
{
enum edge_id_tag_t
{
    id_tag
};
BOOST_INSTALL_PROPERTY(edge, id_tag);
} // namespace boost

using namespace sim;
using Arr = xt::xarray<double, xt::layout_type::row_major>;
using EProp = boost::property<boost::edge_id_tag_t, size_t>;
using GV = xn::grAdaptor<boost::adjacency_list<boost::vecS, boost::vecS, boost::directedS, boost::no_property, EProp>>;
using GL = xn::grAdaptor<boost::adjacency_list<boost::listS, boost::vecS, boost::bidirectionalS, boost::no_property, EProp>>;

using GX = xn::SimpleDiGraphS; // native; the data of an edge is its number

struct Boom
{
};
// the edge data source: fails at the k-th read when told to
struct Source
{
    long reads = 0, fail_at = 0;
    bool fired = false;
    void read()
    {
        if (++reads == fail_at)
        {
            fired = true;
            throw Boom {};
        }
    }
    void arm(long k)
    {
        reads = 0;
        fail_at = k;
        fired = false;
    }
};

struct EdgeRec
{
    size_t u, v;
};
template <typename G>
struct Base;
template <typename B>
struct Base<xn::grAdaptor<B>>
{
    using type = B;
};
template <typename G>
static G make_graph(size_t n, const std::vector<EdgeRec>& es)
{
    if constexpr (std::is_same<G, GX>::value)
    {
        GX g {int(n)};
        for (size_t k = 0; k < es.size(); ++k)
            g.add_edge(int(es[k].u), int(es[k].v), int(k));
        return g;
    }
    else
    {
    typename Base<G>::type g(n);
    for (size_t k = 0; k < es.size(); ++k)
        boost::add_edge(es[k].u, es[k].v, EProp(k), g);
    return G {std::move(g)};
    }
}
template <typename G, typename E>
static size_t eid(const G& g, const E& e)
{
    if constexpr (std::is_same<G, GX>::value)
        return size_t(g.successors(e.first).at(e.second));
    else
        return boost::get(boost::id_tag, g, e);
}

static void read_graph(const Scenario& sc, size_t& n, std::vector<EdgeRec>& es, std::vector<const Step*>& recs, bool loops)
{
    n = size_t(sc.i("n", 3));
    for (auto& st : sc.steps)
        if (st.op() == "e")
        {
            EdgeRec r {size_t(st.i(1)) % n, size_t(st.i(2)) % n};
            if (r.u == r.v && !loops)
                continue;
            if (sc.s("graph") == "x" && std::any_of(es.begin(), es.end(), [&](const EdgeRec& o) { return o.u == r.u && o.v == r.v; }))
                continue; // no parallel edges there
            es.push_back(r);
            recs.push_back(&st);
        }
}

// all simple cycles, as lists of edge ids
struct Cycles
{
    std::vector<std::vector<size_t>> c;
    bool full = true;
    Cycles(size_t n, const std::vector<EdgeRec>& es)
    {
        std::vector<std::vector<size_t>> out(n);
        for (size_t k = 0; k < es.size(); ++k)
            out[es[k].u].push_back(k);
        std::vector<char> on(n, 0);
        std::vector<size_t> path;
        std::function<void(size_t, size_t)> dfs = [&](size_t s, size_t u) {
            if (c.size() > 3000)
            {
                full = false;
                return;
            }
            for (size_t k : out[u])
            {
                const size_t v = es[k].v;
                if (v == s)
                {
                    path.push_back(k);
                    c.push_back(path);
                    path.pop_back();
                }
                else if (v > s && !on[v])
                {
                    on[v] = 1;
                    path.push_back(k);
                    dfs(s, v);
                    path.pop_back();
                    on[v] = 0;
                }
            }
        };
        for (size_t s = 0; s < n; ++s)
        {
            on[s] = 1;
            dfs(s, s);
            on[s] = 0;
        }
    }
};

// smallest cost / time over all cycles, from above: as long as some cycle is cheaper than the ratio at hand, take its ratio
static bool best_ratio(size_t n, const std::vector<EdgeRec>& es, const std::vector<long>& cost, const std::vector<long>& time, long& on, long& od)
{
    on = 1000000, od = 1;
    for (bool have = false;; have = true)
    {
        std::vector<long> d(n, 0), by(n, -1); // shortest walks from anywhere, in exact integers
        long moved = -1;
        for (size_t round = 0; round <= n; ++round)
        {
            moved = -1;
            for (size_t e = 0; e < es.size(); ++e)
            {
                const long w = d[es[e].u] + cost[e] * od - on * time[e];
                if (w < d[es[e].v])
                    d[es[e].v] = w, by[es[e].v] = long(e), moved = long(es[e].v);
            }
            if (moved < 0)
                return have;
        }
        size_t v = size_t(moved); // still moving: there is a cycle behind
        for (size_t k = 0; k < n; ++k)
            v = es[size_t(by[v])].u;
        long a = 0, b = 0;
        size_t x = v;
        do
        {
            const size_t e = size_t(by[x]);
            a += cost[e], b += time[e];
            x = es[e].u;
        } while (x != v);
        const long q = std::__gcd(std::labs(a), b);
        on = a / q, od = b / q;
    }
}

// is the returned edge list a closed chain (in either direction of listing)?
static bool closed_chain(const std::vector<size_t>& c, const std::vector<EdgeRec>& es)
{
    if (c.empty())
        return false;
    bool fw = true, bw = true;
    for (size_t k = 0; k < c.size(); ++k)
    {
        const auto& a = es[c[k]];
        const auto& b = es[c[(k + 1) % c.size()]];
        fw = fw && a.v == b.u;
        bw = bw && a.u == b.v;
    }
    return fw || bw;
}
template <typename G>
static std::vector<size_t> ids(const G& g, const std::vector<typename G::edge_t>& c)
{
    std::vector<size_t> r;
    for (auto& e : c)
        r.push_back(eid(g, e));
    return r;
}
static std::string show(const std::vector<size_t>& c)
{
    std::string s;
    for (auto k : c)
        s += fmt("%zu ", k);
    return s;
}

// ------------------------------------------------------------ number types, all exact in their range
template <typename T>
struct Num;
template <>
struct Num<int>
{
    static int w(long k) { return int(k); }
    static int d(long k) { return int(k); }
};
template <>
struct Num<long>
{
    static long w(long k) { return k; }
    static long d(long k) { return k; }
};
template <>
struct Num<double>
{
    static double w(long k) { return double(k) / 16.; }
    static double d(long k) { return double(k) / 16.; }
};
template <>
struct Num<fun::Fraction<long>>
{
    static fun::Fraction<long> w(long k) { return fun::Fraction<long>(k, 6L); }
    static fun::Fraction<long> d(long k) { return fun::Fraction<long>(k, 6L); }
};
struct Rough
{
}; // doubles that round

// ------------------------------------------------------------ C14: the finder
template <typename G, typename T, typename Tag, typename Dist>
static void run_finder(const Scenario& sc, Ctx& c)
{
    constexpr bool rough = std::is_same<Tag, Rough>::value;
    size_t n;
    std::vector<EdgeRec> es;
    std::vector<const Step*> recs;
    read_graph(sc, n, es, recs, true);
    const G g = make_graph<G>(n, es);
    const size_t m = es.size();
    std::vector<long> wnum(m);
    auto val = [](long k) -> T {
        if constexpr (rough)
            return std::sin(double(k)) * 7. + double(k) * 0.01;
        else
            return Num<T>::w(k);
    };
    for (size_t k = 0; k < m; ++k)
        wnum[k] = recs[k]->i(3);
    Source src;
    auto get_weight = [&](const auto& e) -> T {
        src.read();
        return val(wnum[eid(g, e)]);
    };
    Dist dist {};
    if constexpr (!std::is_same<Dist, py::dict<size_t, T>>::value)
        dist = Dist(n, Num<T>::d(0));
    else
        for (size_t v = 0; v < n; ++v)
            dist[v] = Num<T>::d(0);
    std::vector<std::unique_ptr<negCycleFinder<G>>> fs;
    fs.push_back(std::make_unique<negCycleFinder<G>>(g));
    const long bound = long((n + 2) * m + n + 2);

    auto query = [&](size_t f, long fail) {
        src.arm(fail);
        c.simtime += 1;
        std::vector<typename G::edge_t> r;
        try
        {
            r = fs[f]->find_neg_cycle(dist, get_weight);
        }
        catch (const Boom&)
        {
            c.fault("edge-source-failed");
            c.ev("find with finder %zu: source failed at read %ld", f, fail);
            return;
        }
        if (src.fired)
            c.violate("failure-swallowed", "the edge source failed at read %ld and the search answered all the same", fail);
        const auto cyc = ids(g, r);
        c.ev("find with finder %zu: cycle [%s] after %ld reads", f, show(cyc).c_str(), src.reads);
        c.token(cyc.empty() ? "none" : fmt("cyc%zu", cyc.size()));
        ++c.checks;
        if (src.reads > bound && !rough)
            c.violate("too-many-inspections", "%ld edge inspections on a graph with %zu nodes and %zu edges (bound %ld)", src.reads, n, m, bound);
        // the truth, by all-pairs shortest walks in exact integers (extended precision when rounding)
        using W = typename std::conditional<rough, long double, long>::type;
        auto wt = [&](size_t k) -> W {
            if constexpr (rough)
                return (long double)(val(wnum[k]));
            else
                return wnum[k];
        };
        const W INF = W(1L << 60);
        std::vector<std::vector<W>> D(n, std::vector<W>(n, INF));
        for (size_t k = 0; k < m; ++k)
            D[es[k].u][es[k].v] = std::min(D[es[k].u][es[k].v], wt(k));
        const W LOW = W(-(1L << 50));
        for (size_t k = 0; k < n; ++k)
            for (size_t i = 0; i < n; ++i)
                for (size_t j = 0; j < n; ++j)
                    if (D[i][k] < INF && D[k][j] < INF)
                        D[i][j] = std::max(LOW, std::min(D[i][j], D[i][k] + D[k][j]));
        W mind = INF;
        for (size_t i = 0; i < n; ++i)
            mind = std::min(mind, D[i][i]);
        W tol = 0;
        if constexpr (rough)
        {
            // the search ignores what is within rounding of the distances
            long double far = 0;
            for (size_t v = 0; v < n; ++v)
                far = std::max(far, (long double)std::fabs(dist[v]));
            tol = 1e-9L + 1e-11L * far;
        }
        if (!cyc.empty())
        {
            c.probe("cycle-found");
            if (!closed_chain(cyc, es))
                c.violate("not-a-cycle", "the edges [%s] are no closed chain", show(cyc).c_str());
            if (cyc.size() > n)
                c.violate("not-a-cycle", "the cycle [%s] passes a node twice", show(cyc).c_str());
            W tot = 0;
            for (auto k : cyc)
                tot += wt(k);
            if (!(tot < tol))
                c.violate("cycle-not-negative", "the cycle [%s] has total weight %.9Lg", show(cyc).c_str(), (long double)tot);
        }
        else
        {
            c.probe("no-cycle");
            if (mind < -tol)
                c.violate("cycle-missed", "no cycle returned, but one through some node has weight %.9Lg or less", (long double)mind);
            for (size_t k = 0; k < m; ++k)
            {
                const auto& du = dist[es[k].u];
                const auto& dv = dist[es[k].v];
                if constexpr (rough)
                {
                    if (dv > du + val(wnum[k]) + 1e-9 * (1 + std::fabs(du)))
                        c.violate("potentials-not-feasible", "no cycle returned, but edge %zu (%zu -> %zu) is not satisfied by the distances left", k,
                            es[k].u, es[k].v);
                }
                else if (dv > du + val(wnum[k]))
                    c.violate("potentials-not-feasible", "no cycle returned, but edge %zu (%zu -> %zu) is not satisfied by the distances left", k,
                        es[k].u, es[k].v);
            }
        }
    };
    for (auto& st : sc.steps)
    {
        const auto& op = st.op();
        if (op == "w" && m)
        {
            wnum[size_t(st.i(1)) % m] = st.i(2);
            c.fault("weight-changed");
        }
        else if (op == "d")
        {
            dist[size_t(st.i(1)) % n] = Num<T>::d(st.i(2));
            c.fault("potential-changed");
        }
        else if (op == "D")
        {
            const long w = std::labs(st.i(3));
            uint64_t x = uint64_t(st.i(2));
            for (size_t v = 0; v < n; ++v)
                dist[v] = Num<T>::d(st.i(1) + long(Rng::splitmix(x) % uint64_t(2 * w + 1)) - w);
            c.fault("all-potentials-moved");
        }
        else if (op == "nf")
        {
            fs.push_back(std::make_unique<negCycleFinder<G>>(g));
            c.fault("another-finder");
        }
        else if (op == "cf")
        {
            fs.push_back(std::make_unique<negCycleFinder<G>>(*fs[size_t(st.i(1)) % fs.size()]));
            c.fault("finder-copied");
        }
        else if (op == "q")
            query(size_t(st.i(1)) % fs.size(), st.i(2));
    }
    for (size_t f = 0; f < fs.size(); ++f)
        query(f, 0);
}

// ------------------------------------------------------------ C15: minimum cycle ratio and parametric search
template <typename T>
struct RatNum;
template <typename Z>
struct RatNum<fun::Fraction<Z>>
{
    using C = Z;
    using T = fun::Fraction<Z>;
    static C num(long k) { return Z(k); }
    static T of(long a, long b) { return T(Z(a), Z(b)); }
    static long double ld(const T& x) { return (long double)x.numerator() / (long double)x.denominator(); }
    static constexpr bool exact = true;
};
template <>
struct RatNum<double>
{
    using C = double;
    static C num(long k) { return double(k); }
    static double of(long a, long b) { return double(a) / double(b); }
    static long double ld(double x) { return x; }
    static constexpr bool exact = false;
};

template <typename G, typename T>
static void run_ratio(const Scenario& sc, Ctx& c)
{
    using RN = RatNum<T>;
    using C = typename RN::C;
    size_t n;
    std::vector<EdgeRec> es;
    std::vector<const Step*> recs;
    read_graph(sc, n, es, recs, true);
    const G g = make_graph<G>(n, es);
    const size_t m = es.size();
    const bool direct = sc.i("direct") != 0; // max_parametric with the caller's own functions
    const long zerot = sc.i("zerotime");
    std::vector<long> cost(m), time(m);
    for (size_t k = 0; k < m; ++k)
    {
        cost[k] = recs[k]->i(3);
        time[k] = std::max<long>(recs[k]->i(4), 1);
        if (direct && zerot && es[k].u < es[k].v && recs[k]->i(4) == 0)
            time[k] = 0; // every cycle has an edge that goes down, so its time stays positive
    }
    bool have = false;
    long on = 0, od = 1; // optimum on/od
    if (n <= 6)
    {
        Cycles cy(n, es);
        if (!cy.full)
            throw EndRun {};
        for (auto& q : cy.c)
        {
            long a = 0, b = 0;
            for (auto k : q)
            {
                a += cost[k];
                b += time[k];
            }
            if (!have || a * od < on * b)
            {
                on = a;
                od = b;
                have = true;
            }
        }
    }
    else
        have = best_ratio(n, es, cost, time, on, od);
    const long double opt = have ? (long double)on / od : -1e9L;
    Source src;
    auto get_cost = [&](const auto& e) -> C {
        src.read();
        return RN::num(cost[eid(g, e)]);
    };
    auto get_time = [&](const auto& e) -> C {
        src.read();
        return RN::num(time[eid(g, e)]);
    };
    std::vector<T> dist(n, RN::of(0, 1));
    const T start = sc.i("atopt") && have ? RN::of(on, od) : (have ? RN::of(on, od) + RN::of(sc.i("up", 1), 2) : RN::of(sc.i("up", 1), 2));
    T r = start;
    auto same = [&](long double a, long double b) { return RN::exact ? a == b : std::fabs(a - b) <= 1e-9L * (1 + std::fabs(b)); };
    auto eqT = [&](const T& a, const T& b) {
        if constexpr (RN::exact)
            return a == b;
        else
            return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b));
    };
    (void)same;
    auto query = [&](long iters, long fail, bool deflt) {
        src.arm(fail);
        const T before = r;
        c.simtime += 1;
        std::vector<typename G::edge_t> res;
        bool failed = false;
        auto d = [&](const T& rr, const auto& e) -> T { return get_cost(e) - rr * get_time(e); };
        long rounds = 0;
        auto zc = [&](const auto& Cc) -> T {
            ++rounds;
            C a = RN::num(0), b = RN::num(0);
            for (auto&& e : Cc)
            {
                a += get_cost(e);
                b += get_time(e);
            }
            return T(a) / b;
        };
        try
        {
            if (direct)
                res = deflt ? max_parametric(g, r, d, zc, dist) : max_parametric(g, r, d, zc, dist, size_t(iters));
            else
                res = deflt ? min_cycle_ratio(g, r, get_cost, get_time, dist) : min_cycle_ratio(g, r, get_cost, get_time, dist, size_t(iters));
        }
        catch (const Boom&)
        {
            failed = true;
            c.fault("edge-source-failed");
        }
        if (src.fired && !failed)
            c.violate("failure-swallowed", "the edge source failed at read %ld and the search answered all the same", fail);
        const auto cyc = ids(g, res);
        if (!failed && !deflt)
            c.fault("iteration-budget");
        if (!deflt && rounds > iters)
            c.violate("budget-exceeded", "%ld cycles were evaluated, the budget is %ld", rounds, iters);
        c.ev("search iters %ld fail %ld: value %.12Lg -> %.12Lg cycle [%s] reads %ld%s", deflt ? -1L : iters, fail, RN::ld(before), RN::ld(r),
            show(cyc).c_str(), src.reads, failed ? " (failed)" : "");
        c.token(fmt("%d%zu", int(failed), cyc.size()));
        ++c.checks;
        const long double eps = RN::exact ? 1e-15L * (1 + std::fabs(opt)) : 1e-9L * (1 + std::fabs(opt));
        if (r > before)
            c.violate("value-increased", "the value went from %.12Lg up to %.12Lg", RN::ld(before), RN::ld(r));
        if (have ? RN::ld(r) < opt - eps : !(r == before))
            c.violate("below-optimum", "the value %.12Lg is below the smallest cycle ratio %.12Lg", RN::ld(r), opt);
        if (failed)
            return;
        if (!cyc.empty())
        {
            c.probe("cycle-returned");
            if (!closed_chain(cyc, es) || cyc.size() > n)
                c.violate("not-a-cycle", "the edges [%s] are no cycle", show(cyc).c_str());
            long a = 0, b = 0;
            for (auto k : cyc)
            {
                a += cost[k];
                b += time[k];
            }
            if (!eqT(r, RN::of(a, b)))
                c.violate("ratio-mismatch", "the returned cycle has ratio %ld/%ld, the value is %.12Lg", a, b, RN::ld(r));
        }
        else if (!(r == before))
            c.violate("no-cycle-for-value", "the value changed from %.12Lg to %.12Lg but no cycle came with it", RN::ld(before), RN::ld(r));
        else
            c.probe("nothing-smaller");
        if (!cyc.empty() && !(r < before))
            c.violate("cycle-without-gain", "a cycle was returned although the value stayed %.12Lg", RN::ld(r));
        if (deflt)
        {
            if (have && !eqT(r, RN::of(on, od)) && RN::ld(r) > opt)
                c.violate("optimum-missed", "the search ended at %.12Lg, the smallest cycle ratio is %ld/%ld = %.12Lg", RN::ld(r), on, od, opt);
        }
        else if (iters > 0 && cyc.empty() && have && RN::ld(r) > opt + eps)
            c.violate("optimum-missed", "the search reports nothing smaller than %.12Lg, the smallest cycle ratio is %.12Lg", RN::ld(r), opt);
    };
    for (auto& st : sc.steps)
    {
        const auto& op = st.op();
        if (op == "d")
        {
            dist[size_t(st.i(1)) % n] = RN::of(st.i(2), 1);
            c.fault("potential-changed");
        }
        else if (op == "restart")
        {
            r = start;
            c.fault("started-over");
        }
        else if (op == "q")
            query(st.i(1), st.i(2), false);
    }
    query(0, 0, true);
    query(0, 0, true);
}

// ------------------------------------------------------------ C11: the oracles
// h(e,x) = c + a.x - t b - q (x0)^2, concave in x
struct HData
{
    std::vector<double> c, b, q;
    std::vector<std::vector<double>> a;
    Source* src;
    const void* g;
};
static double hval(const HData& h, size_t k, const std::vector<double>& x, double t)
{
    double s = h.c[k] - t * h.b[k] - h.q[k] * x[0] * x[0];
    for (size_t i = 0; i < x.size(); ++i)
        s += h.a[k][i] * x[i];
    return s;
}
static std::vector<double> vec(const Arr& x) { return {x.begin(), x.end()}; }
static std::vector<double> vec(double x) { return {x}; }
template <typename X>
static X mk(const std::vector<double>& v)
{
    if constexpr (std::is_same<X, double>::value)
        return v[0];
    else
    {
        Arr a = xt::zeros<double>({v.size()});
        for (size_t i = 0; i < v.size(); ++i)
            a(i) = v[i];
        return a;
    }
}
template <typename G, typename X>
struct HFn
{
    const HData* d;
    double t = 0;
    void update(double tt) { t = tt; }
    double eval(const typename G::edge_t& e, const X& x) const
    {
        d->src->read();
        return hval(*d, eid(*static_cast<const G*>(d->g), e), vec(x), t);
    }
    X grad(const typename G::edge_t& e, const X& x) const
    {
        d->src->read();
        const size_t k = eid(*static_cast<const G*>(d->g), e);
        auto v = d->a[k];
        v[0] -= 2. * d->q[k] * vec(x)[0];
        return mk<X>(v);
    }
};

// what an oracle under test looks like to the world
struct Service
{
    virtual ~Service() { }
    // cut: (g,f); improved
    virtual bool ask(const std::vector<double>& x, double& t, std::vector<double>& g, double& f, bool& improved) = 0; // false: no cut
    virtual std::unique_ptr<Service> copy() { return nullptr; }
    virtual void update(double) { }
    double thr = 0;
};
template <typename G, typename X>
struct NetSvc : Service
{
    using O = network_oracle<G, std::vector<double>, HFn<G, X>>;
    O o;
    NetSvc(const G& g, std::vector<double>& u, const HData& d)
        : o(g, u, HFn<G, X> {&d})
    {
    }
    NetSvc(const NetSvc& s)
        : o(s.o)
    {
        thr = s.thr;
    }
    bool ask(const std::vector<double>& x, double&, std::vector<double>& g, double& f, bool& improved) override
    {
        improved = false;
        auto c = o(mk<X>(x));
        if (!c)
            return false;
        g = vec(std::get<0>(*c));
        f = std::get<1>(*c);
        return true;
    }
    std::unique_ptr<Service> copy() override { return std::unique_ptr<Service>(new NetSvc(*this)); }
    void update(double t) override
    {
        thr = t;
        o.update(t);
    }
};
template <typename G, typename F1, typename F2>
struct CrSvc : Service
{
    using O = cycle_ratio_oracle<G, std::vector<double>, F1, F2>;
    O o;
    CrSvc(const G& g, std::vector<double>& u, F1 a, F2 b)
        : o(g, u, a, b)
    {
    }
    bool ask(const std::vector<double>& x, double& t, std::vector<double>& g, double& f, bool& improved) override
    {
        auto [cut, s] = o(x[0], t);
        g = {std::get<0>(cut)};
        f = std::get<1>(cut);
        improved = s;
        return true;
    }
};
template <typename G, typename F1>
struct OsSvc : Service
{
    using O = optscaling_oracle<G, std::vector<double>, F1>;
    O o;
    OsSvc(const G& g, std::vector<double>& u, F1 a)
        : o(g, u, a)
    {
    }
    bool ask(const std::vector<double>& x, double& t, std::vector<double>& g, double& f, bool& improved) override
    {
        auto [cut, s] = o(mk<Arr>(x), t);
        g = vec(std::get<0>(cut));
        f = std::get<1>(cut);
        improved = s;
        return true;
    }
};

template <typename G>
static void run_oracles(const Scenario& sc, Ctx& c)
{
    const std::string kind = sc.s("kind");
    size_t n;
    std::vector<EdgeRec> es;
    std::vector<const Step*> recs;
    read_graph(sc, n, es, recs, kind != "os");
    const G g = make_graph<G>(n, es);
    const size_t m = es.size();
    const size_t dim = kind == "os" ? 2 : kind == "net" ? size_t(sc.i("dim", 2)) : 1;
    // hidden feasible point with hidden potentials
    std::vector<double> hid(dim);
    for (size_t i = 0; i < dim; ++i)
        hid[i] = double(long(sc.i("h" + std::to_string(i)))) / 16.;
    if (kind == "os")
        hid = {8, -8};
    const bool feasible = sc.i("feas", 1) != 0;
    Source src;
    HData h;
    h.src = &src;
    h.g = &g;
    std::vector<double> cost(m), tim(m);
    for (size_t k = 0; k < m; ++k)
    {
        const double s = double(std::labs(recs[k]->i(3))) / 16., pu = double((es[k].u * 7 + sc.u("pot")) % 11), pv = double((es[k].v * 7 + sc.u("pot")) % 11);
        std::vector<double> a(dim);
        for (size_t i = 0; i < dim; ++i)
            a[i] = double(recs[k]->i(4 + i)) / 4.;
        const double q = kind == "net" || kind == "net1" ? double(std::labs(recs[k]->i(8))) / 8. : 0., b = double(std::labs(recs[k]->i(7))) / 4.;
        double lin = 0;
        if (kind == "os")
        { // x0 - cost resp. cost - x1; hidden bounds hold by |cost| <= 8 with potentials 0
            cost[k] = double(recs[k]->i(3) % 128) / 16.;
            const bool up = es[k].u < es[k].v;
            a = up ? std::vector<double> {1., 0.} : std::vector<double> {0., -1.};
            h.c.push_back(up ? -cost[k] : cost[k]);
            h.a.push_back(a);
            h.b.push_back(0);
            h.q.push_back(0);
            continue;
        }
        for (size_t i = 0; i < dim; ++i)
            lin += a[i] * hid[i];
        double cc = pv - pu - lin + q * hid[0] * hid[0] + s;
        if (!feasible)
            cc = double(recs[k]->i(3)) / 16.;
        // the hidden potentials must satisfy u[v] - u[u] <= h
        h.c.push_back(cc);
        h.a.push_back(a);
        h.b.push_back(kind == "cr" ? 0. : b);
        h.q.push_back(q);
        cost[k] = cc;
        tim[k] = -a[0];
    }
    const Cycles cy(n, es);
    if (!cy.full)
        throw EndRun {};
    auto worst = [&](const std::vector<double>& x, double thr, size_t* which = nullptr) {
        double w = 1e100;
        for (size_t j = 0; j < cy.c.size(); ++j)
        {
            double s = 0;
            for (auto k : cy.c[j])
                s += hval(h, k, x, thr);
            if (s < w)
            {
                w = s;
                if (which)
                    *which = j;
            }
        }
        return w;
    };
    std::vector<double> u(n, 0.);
    double t = kind == "os" ? double(sc.i("t0", 1600)) / 16. : double(sc.i("t0", -1600)) / 16.;
    auto gc = [&](const auto& e) -> double {
        src.read();
        return cost[eid(g, e)];
    };
    auto gt = [&](const auto& e) -> double {
        src.read();
        return tim[eid(g, e)];
    };
    std::vector<std::unique_ptr<Service>> S;
    auto fresh = [&]() -> std::unique_ptr<Service> {
        if (kind == "net")
            return std::make_unique<NetSvc<G, Arr>>(g, u, h);
        if (kind == "net1")
            return std::make_unique<NetSvc<G, double>>(g, u, h);
        if (kind == "cr")
            return std::make_unique<CrSvc<G, decltype(gc), decltype(gt)>>(g, u, gc, gt);
        return std::make_unique<OsSvc<G, decltype(gc)>>(g, u, gc);
    };
    S.push_back(fresh());
    Rng ray(sc.u("rays", 7));

    auto query = [&](size_t o, std::vector<double> x, long fail) {
        auto& s = *S[o];
        src.arm(fail);
        const double tb = t;
        std::vector<double> gr;
        double f = 0;
        bool improved = false, cut = false;
        c.simtime += 1;
        try
        {
            cut = s.ask(x, t, gr, f, improved);
        }
        catch (const Boom&)
        {
            c.fault("edge-source-failed");
            c.ev("oracle %zu at %.6g..: edge source failed at read %ld", o, x[0], fail);
            if (t != tb)
                c.violate("best-moved-by-failure", "the query failed and the best value went from %.9g to %.9g", tb, t);
            return;
        }
        if (src.fired)
            c.violate("failure-swallowed", "the edge source failed at read %ld and the oracle answered all the same", fail);
        ++c.checks;
        const double w = worst(x, s.thr);
        const bool feas = !(w < 0);
        c.ev("oracle %zu at %.9g..: cut %d improved %d offset %.12g t %.12g (worst cycle %.9g)", o, x[0], int(cut), int(improved), f, t, w);
        c.token(fmt("%d%d%d", int(cut), int(improved), int(feas)));
        if (cut && gr.size() != dim)
            c.violate("cut-shape", "the cut has %zu entries for a point of %zu", gr.size(), dim);
        std::function<bool(const std::vector<double>&)> better; // the points the cut has to keep
        if (kind == "net" || kind == "net1")
        {
            if (cut == feas)
                c.violate(feas ? "feasible-point-cut" : "infeasible-point-accepted", "the worst cycle has weight %.9g at the point", w);
            if (!cut)
            {
                c.probe("accepted");
                return;
            }
            if (!(f > 0))
                c.violate("cut-not-violated", "the cut does not exclude the query point (offset %.9g)", f);
            better = [&](const std::vector<double>& y) { return worst(y, s.thr) >= 0; };
        }
        else
        {
            const double val = kind == "cr" ? x[0] : x[0] - x[1];
            const bool gain = kind == "cr" ? val > tb : val < tb;
            if (improved != (feas && gain))
                c.violate(improved ? "false-improvement" : "improvement-missed", "value %.9g, best so far %.9g, worst cycle %.9g", val, tb, w);
            if (improved)
            {
                c.probe("improved");
                if (t != val)
                    c.violate("wrong-best-value", "the best value became %.17g for a point of value %.17g", t, val);
            }
            else if (t != tb)
                c.violate("best-moved", "the best value went from %.17g to %.17g without an improvement", tb, t);
            if (!(f >= 0))
                c.violate("cut-not-violated", "the cut keeps the query point inside (offset %.9g)", f);
            if (!feas && !gain && f == 0 && gr[0] == 0)
                c.violate("cut-empty", "a cut without direction");
            const double tn = t;
            better = [&, tn](const std::vector<double>& y) { return worst(y, s.thr) >= 0 && (kind == "cr" ? y[0] > tn : y[0] - y[1] < tn); };
        }
        // every feasible (and better) point must satisfy the cut
        auto check = [&](const std::vector<double>& y) {
            double l = f, mag = std::fabs(f);
            for (size_t i = 0; i < dim; ++i)
            {
                l += gr[i] * (y[i] - x[i]);
                mag += std::fabs(gr[i] * (y[i] - x[i]));
            }
            if (l > 1e-9 * (1 + mag) && better(y))
                c.violate("good-point-removed", "the cut (offset %.9g) removes the point %.9g,%.9g by %.9g although it is feasible%s", f, y[0],
                    dim > 1 ? y[1] : 0., l, kind == "net" || kind == "net1" ? "" : " and better");
        };
        std::vector<std::vector<double>> bases;
        if (feasible || kind == "os")
            bases.push_back(hid);
        if (kind == "os")
            bases.push_back({t / 2 - 0.01, -t / 2 + 0.01});
        if (kind == "cr")
        {
            bases.push_back({t + 1e-3});
            bases.push_back({t + 1});
        }
        for (auto& y0 : bases)
        {
            if (!better(y0))
            {
                if (worst(y0, s.thr) < 0)
                    continue;
            }
            else
                check(y0);
            for (int k = 0; k < 5; ++k)
            {
                std::vector<double> dir(dim), y(dim);
                double nn = 0;
                for (size_t i = 0; i < dim; ++i)
                {
                    dir[i] = k == 0 ? gr[i] : k == 1 ? x[i] - y0[i] : ray.normal();
                    nn += dir[i] * dir[i];
                }
                if (nn < 1e-12)
                    continue;
                double lo = 0, hi = 64. / std::sqrt(nn);
                for (int it = 0; it < 50; ++it)
                {
                    const double mid = (lo + hi) / 2;
                    for (size_t i = 0; i < dim; ++i)
                        y[i] = y0[i] + mid * dir[i];
                    (better(y) ? lo : hi) = mid;
                }
                for (size_t i = 0; i < dim; ++i)
                    y[i] = y0[i] + lo * dir[i];
                check(y);
            }
        }
    };
    std::vector<double> last = hid;
    for (auto& st : sc.steps)
    {
        const auto& op = st.op();
        if (op == "q")
        {
            std::vector<double> x(dim);
            for (size_t i = 0; i < dim; ++i)
                x[i] = double(st.i(3 + i)) / 16.;
            if (st.i(3 + 4))
            {
                x = last;
                c.fault("query-duplicated");
            }
            last = x;
            query(size_t(st.i(1)) % S.size(), x, st.i(2));
        }
        else if (op == "u")
        {
            u[size_t(st.i(1)) % n] = double(st.i(2)) / 16.;
            c.fault("potential-changed");
        }
        else if (op == "t" && (kind == "cr" || kind == "os"))
        {
            t = double(st.i(1)) / 16.;
            c.fault("best-value-set-by-another");
        }
        else if (op == "th" && (kind == "net" || kind == "net1"))
        {
            S[size_t(st.i(1)) % S.size()]->update(double(st.i(2)) / 8.);
            c.fault("threshold-update");
        }
        else if (op == "new")
        {
            if (S.size() < 5)
                S.push_back(fresh());
            c.fault("another-oracle-on-the-same-potentials");
        }
        else if (op == "cp")
        {
            if (S.size() < 5)
                if (auto p = S[size_t(st.i(1)) % S.size()]->copy())
                {
                    S.push_back(std::move(p));
                    c.fault("oracle-copied");
                }
        }
    }
    for (size_t o = 0; o < S.size(); ++o)
        query(o, hid, 0);
}

// ------------------------------------------------------------
struct NetWorld : World
{
    Scenario gen(Rng& r, const std::string& prop, bool thorough) override
    {
        Scenario sc;
        const bool large = r.p(0.04); // now and then a graph that is no toy
        const long n = large ? r.i(7, prop == "C14" ? 40 : prop == "C15" ? 16 : 9) : r.i(1, prop == "C14" ? 9 : 6);
        sc.set("n", fmt("%ld", n));
        sc.set("graph", r.pick<std::string>({"v", "v", "v", "x", "x", "l"}));
        const long m = n == 1 ? r.i(0, 2) : std::min<long>(r.i(n / 2, 3 * n), large ? (prop == "C11" ? n + 4 : 3 * n) : prop == "C14" ? 24 : 13);
        const bool ring = r.p(0.5);
        auto edge = [&](const std::string& rest) {
            long u = r.i(0, n - 1), v = r.i(0, n - 1);
            if (u == v && !r.p(0.15))
                v = (u + 1) % n;
            sc.add(fmt("e %ld %ld ", u, v) + rest);
        };
        const long scale = r.pick({1L, 3L, 10L, 40L});
        if (prop == "C14")
        {
            sc.set("num", r.pick({"int", "long", "dbl", "frac", "rough"}));
            sc.set("dict", r.p(0.2) ? "1" : "0");
            const long bias = r.pick({-scale / 2, 0L, scale / 3, scale});
            auto wt = [&] { return r.i(-scale, scale) + bias; };
            if (ring)
                for (long v = 0; v < n; ++v)
                    sc.add(fmt("e %ld %ld %ld", v, (v + 1) % n, wt()));
            for (long k = 0; k < m; ++k)
                edge(fmt("%ld", wt()));
            const long ops = r.i(2, thorough ? 60 : 25), nf = r.i(0, 2);
            for (long k = 0; k < nf; ++k)
                sc.add("nf");
            const double pf = r.pick({0., 0.2, 0.6});
            for (long k = 0; k < ops; ++k)
            {
                const long z = r.i(0, 9);
                if (z < 3)
                    sc.add(fmt("w %ld %ld", r.i(0, large ? 160 : 40), wt()));
                else if (z < 5)
                    sc.add(fmt("d %ld %ld", r.i(0, large ? 39 : 9), r.p(0.2) ? r.i(-100000, 100000) : r.i(-4 * scale, 4 * scale)));
                else if (z == 5 && r.p(0.25))
                    sc.add(fmt("D %ld %ld %ld", r.pick({1L, -1L}) * r.pick({100000L, 10000000L, 100000000L}), r.i(0, 100000), r.pick({0L, 1L, 4 * scale})));
                else if (z == 5 && r.p(0.25))
                    sc.add(fmt("cf %ld", r.i(0, 4)));
                else
                    sc.add(fmt("q %ld %ld", r.i(0, 4), r.p(pf) ? r.i(1, 3 * (m + n)) : 0L));
            }
        }
        else if (prop == "C15")
        {
            const std::string num = r.pick({"fi", "fl", "dbl"});
            sc.set("num", num);
            if (num == "fi")
                sc.set("n", fmt("%ld", std::min(n, 4L)));
            else if (num == "fl")
                sc.set("n", fmt("%ld", std::min(n, 8L))); // the fractions stay within their type
            const long maxt = num == "fi" ? 2 : num == "fl" ? 2 : 5;
            const long cs = std::min(scale, 20L);
            sc.set("direct", r.p(0.4) ? "1" : "0");
            sc.set("zerotime", r.p(0.5) ? "1" : "0");
            sc.set("atopt", r.p(0.15) ? "1" : "0");
            sc.set("up", fmt("%ld", r.pick({1L, 2L, 3L, 10L, 100L})));
            auto ct = [&] { return fmt("%ld %ld", r.i(-cs, cs), r.i(r.p(0.3) ? 0 : 1, maxt)); };
            if (ring)
                for (long v = 0; v < n; ++v)
                    sc.add(fmt("e %ld %ld ", v, (v + 1) % n) + ct());
            for (long k = 0; k < m; ++k)
                edge(ct());
            const long ops = r.i(0, thorough ? 30 : 12);
            const double pf = r.pick({0., 0.3, 0.7});
            for (long k = 0; k < ops; ++k)
            {
                const long z = r.i(0, 9);
                if (z < 2)
                    sc.add(fmt("d %ld %ld", r.i(0, 9), r.i(-3 * cs, 3 * cs)));
                else if (z == 2)
                    sc.add("restart");
                else
                    sc.add(fmt("q %ld %ld", r.pick({0L, 1L, 1L, 1L, 2L, 3L, 50L}), r.p(pf) ? r.i(1, 8 * (m + n)) : 0L));
            }
        }
        else
        {
            const std::string kind = r.pick({"net", "net1", "cr", "os"});
            sc.set("kind", kind);
            const long dim = kind == "net" ? r.i(1, 3) : kind == "os" ? 2 : 1;
            sc.set("dim", fmt("%ld", dim));
            for (long i = 0; i < dim; ++i)
                sc.set(fmt("h%ld", i), fmt("%ld", r.i(-32, 32)));
            sc.set("pot", fmt("%ld", r.i(0, 100)));
            sc.set("feas", r.p(0.85) ? "1" : "0");
            sc.set("rays", fmt("%ld", r.i(1, 1000000)));
            sc.set("t0", kind == "os" ? fmt("%ld", r.pick({200L, 1600L})) : fmt("%ld", r.pick({-200L, -1600L})));
            const bool quad = r.p(0.4);
            auto ed = [&] {
                return fmt("%ld %ld %ld %ld %ld %ld", r.i(-scale, scale), r.i(-8, 8), r.i(-8, 8), r.i(-8, 8), r.i(0, 4), quad ? r.i(0, 4) : 0L);
            };
            if (ring)
                for (long v = 0; v < n; ++v)
                    sc.add(fmt("e %ld %ld ", v, (v + 1) % n) + ed());
            for (long k = 0; k < m; ++k)
                edge(ed());
            const long ops = r.i(3, thorough ? 50 : 20);
            const double pf = r.pick({0., 0.2, 0.5});
            const long spread = r.pick({4L, 20L, 120L});
            for (long k = 0; k < ops; ++k)
            {
                const long z = r.i(0, 19);
                if (z < 3)
                    sc.add(fmt("u %ld %ld", r.i(0, 9), r.p(0.3) ? r.i(-1000000, 1000000) : r.i(-200, 200)));
                else if (z == 3)
                    sc.add(fmt("t %ld", r.i(-200, 200)));
                else if (z == 4)
                    sc.add(fmt("th %ld %ld", r.i(0, 4), r.i(-16, 16)));
                else if (z == 5)
                    sc.add("new");
                else if (z == 6)
                    sc.add(fmt("cp %ld", r.i(0, 4)));
                else
                    sc.add(fmt("q %ld %ld %ld %ld %ld 0 %d", r.i(0, 4), r.p(pf) ? r.i(1, 4 * (m + n)) : 0L, r.i(-spread, spread), r.i(-spread, spread),
                        r.i(-spread, spread), r.p(0.15) ? 1 : 0));
            }
        }
        return sc;
    }
    template <typename G>
    void go(const Scenario& sc, Ctx& c)
    {
        const auto prop = sc.s("prop");
        if (prop == "C14")
        {
            const auto num = sc.s("num");
            const bool dict = sc.i("dict") != 0;
            if (num == "int")
                dict ? run_finder<G, int, int, py::dict<size_t, int>>(sc, c) : run_finder<G, int, int, std::vector<int>>(sc, c);
            else if (num == "long")
                run_finder<G, long, int, std::vector<long>>(sc, c);
            else if (num == "dbl")
                dict ? run_finder<G, double, int, py::dict<size_t, double>>(sc, c) : run_finder<G, double, int, std::vector<double>>(sc, c);
            else if (num == "frac")
                run_finder<G, fun::Fraction<long>, int, std::vector<fun::Fraction<long>>>(sc, c);
            else
                run_finder<G, double, Rough, std::vector<double>>(sc, c);
        }
        else if (prop == "C15")
        {
            const auto num = sc.s("num");
            if (num == "fi")
                run_ratio<G, fun::Fraction<int>>(sc, c);
            else if (num == "fl")
                run_ratio<G, fun::Fraction<long>>(sc, c);
            else
                run_ratio<G, double>(sc, c);
        }
        else
            run_oracles<G>(sc, c);
    }
    void run(const Scenario& sc, Ctx& c) override
    {
        if (sc.s("graph", "v") == "v")
            go<GV>(sc, c);
        else if (sc.s("graph") == "x")
            go<GX>(sc, c);
        else
            go<GL>(sc, c);
    }
};

int main(int argc, char** argv)
{
    NetWorld w;
    return sim_main(argc, argv, w);
}
