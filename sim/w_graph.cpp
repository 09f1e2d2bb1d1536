// World "graph": several native graphs are filled, walked, searched, moved and cleared by
// clients that take turns.  Walks over the edges are coroutines: the seed decides which one runs
// next and where one is abandoned; allocations and the source of a bulk load fail where it says.
// Real: xn::Graph, xn::DiGraphS, their views, boost.coroutine2, py::dict, py::set, py::range,
//       negCycleFinder, xn::grAdaptor and its views over two boost graph types.
// Simulated: clients, edge source (may fail at any read), allocator.
#include "core.hpp"
#include "alloc.hpp"
#include <algorithm>
#include <memory>
#include <netoptim/neg_cycle.hpp>
#include <py2cpp/nx2bgl.hpp>
#include <optional>
#include <py2cpp/py2cpp.hpp>
#include <xnetwork/classes/digraphs.hpp>
#include <xnetwork/classes/graph.hpp>

using namespace sim;
struct Boom
{
};
// a container whose elements arrive from outside
template <typename T>
struct Feed
{
    std::vector<T> v;
    long* left; // reads until it fails (0: never)
    long* last; // index of the last element asked for
    Feed(std::vector<T> w, long* l, long* k)
        : v(std::move(w))
        , left(l)
        , last(k)
    {
    }
    size_t size() const { return v.size(); }
    const T& operator[](size_t i) const
    {
        *last = long(i);
        if (*left > 0 && --*left == 0)
            throw Boom();
        return v.at(i);
    }
};
using Pair = std::pair<long, long>;
struct Walker
{
    virtual ~Walker() { }
    virtual std::optional<std::vector<Pair>> next() = 0; // the next edge, or all edges at the next node
};
using Nbrs = std::vector<Pair>; // neighbour, data (0 where there is none), sorted

struct Box
{
    virtual ~Box() { }
    virtual bool directed() const = 0;
    virtual bool has_data() const = 0;
    virtual bool multi() const { return false; } // parallel edges are kept apart; no membership tests
    virtual bool failing() const { return true; } // may be failed in the middle
    virtual void add(long u, long v) = 0;
    virtual void add(long u, long v, long d) = 0;
    virtual void bulk(const std::vector<Pair>& e, const std::vector<long>& d, long& left, long& last) = 0;
    virtual bool edge(long u, long v, int how) = 0;
    virtual bool node(long u, int how) = 0;
    virtual size_t nn(int how) = 0;
    virtual size_t ne() = 0;
    virtual size_t degree(long u) = 0;
    virtual Nbrs nbrs(long u, int how) = 0;
    virtual std::vector<long> nodes() = 0;
    virtual std::unique_ptr<Walker> walk() = 0;
    virtual std::unique_ptr<Box> moved() = 0;
    virtual void clear() = 0;
    virtual void name(const std::string& s) = 0;
    virtual std::string name() = 0;
    virtual bool says_directed() = 0;
    virtual bool says_multi() = 0;
    virtual int negcycle(std::vector<Pair>&) { return -1; }
};

template <typename A>
struct IsDict : std::false_type
{
};
template <typename K, typename V>
struct IsDict<py::dict<K, V>> : std::true_type
{
};

template <typename G, bool Dir>
struct TBox : Box
{
    using Adj = typename G::adjlist_inner_dict_factory;
    static constexpr bool D = IsDict<Adj>::value;
    G g;
    TBox(G&& h)
        : g(std::move(h))
    {
    }
    template <typename X, typename std::enable_if<!std::is_same<std::decay_t<X>, G>::value && !std::is_base_of<Box, std::decay_t<X>>::value, int>::type = 0>
    explicit TBox(const X& x)
        : g(x)
    {
    }
    bool directed() const override { return Dir; }
    bool has_data() const override { return D; }
    void add(long u, long v) override { g.add_edge(int(u), int(v)); }
    void add(long u, long v, long d) override
    {
        if constexpr (D)
            g.add_edge(int(u), int(v), typename Adj::mapped_type(d));
    }
    void bulk(const std::vector<Pair>& e, const std::vector<long>& d, long& left, long& last) override
    {
        if constexpr (D)
        {
            std::vector<std::pair<int, int>> ee;
            std::vector<typename Adj::mapped_type> dd;
            long dummy = 0;
            std::unique_ptr<Feed<std::pair<int, int>>> fe;
            std::unique_ptr<Feed<typename Adj::mapped_type>> fd;
            {
                simalloc::Pause p;
                for (auto& x : e)
                    ee.push_back({int(x.first), int(x.second)});
                for (auto x : d)
                    dd.push_back(typename Adj::mapped_type(x));
                fe.reset(new Feed<std::pair<int, int>>(ee, &left, &last));
                fd.reset(new Feed<typename Adj::mapped_type>(dd, &left, &dummy));
            }
            g.add_edges_from(*fe, *fd);
        }
    }
    bool edge(long u, long v, int how) override
    {
        if constexpr (Dir)
            if (how == 1)
                return g.has_successor(int(u), int(v));
        return g.has_edge(int(u), int(v));
    }
    bool node(long u, int how) override { return how == 0 ? g.has_node(int(u)) : g.contains(int(u)); }
    size_t nn(int how) override { return how == 0 ? size_t(g.number_of_nodes()) : size_t(g.order()); }
    size_t ne() override { return size_t(g.number_of_edges()); }
    size_t degree(long u) override { return size_t(static_cast<const G&>(g).degree(int(u))); }
    template <typename X>
    static Nbrs list(const X& a)
    {
        Nbrs r;
        if constexpr (D)
            for (auto k : a)
                r.push_back({long(k), long(a.at(k))});
        else
            for (auto k : a)
                r.push_back({long(k), 0});
        std::sort(r.begin(), r.end());
        return r;
    }
    Nbrs nbrs(long u, int how) override
    {
        const G& cg = g;
        if constexpr (Dir)
        {
            if (how == 3)
                return list(g.successors(int(u)));
            if (how == 4)
                return list(cg.successors(int(u)));
            if (how == 5)
                return list(g.succ()[size_t(u)]);
        }
        if (how == 1)
            return list(g.adj()[size_t(u)]);
        if (how == 2)
            return list(g._adj[size_t(u)]);
        return list(g[int(u)]);
    }
    std::vector<long> nodes() override
    {
        std::vector<long> r;
        for (auto v : g)
            r.push_back(long(v));
        std::sort(r.begin(), r.end());
        return r;
    }
    template <typename P>
    struct PullWalker : Walker
    {
        P p;
        explicit PullWalker(const G& g)
            : p(g.edges())
        {
        }
        std::optional<std::vector<Pair>> next() override
        {
            if (!p)
                return {};
            auto e = p.get();
            p();
            return std::vector<Pair> {{long(e.first), long(e.second)}};
        }
    };
    template <typename En>
    struct NodeWalker : Walker
    {
        En en;
        decltype(std::declval<En&>().begin()) it;
        decltype(std::declval<En&>().end()) stop;
        explicit NodeWalker(const G& g)
            : en(g._nodes_nbrs())
            , it(en.begin())
            , stop(en.end())
        {
        }
        std::optional<std::vector<Pair>> next() override
        {
            if (!(it != stop))
                return {};
            std::vector<Pair> r;
            auto x = *it;
            for (auto k : std::get<1>(x))
                r.push_back({long(std::get<0>(x)), long(k)});
            ++it;
            return r;
        }
    };
    std::unique_ptr<Walker> walk() override
    {
        const G& cg = g;
        if constexpr (Dir)
            return std::make_unique<PullWalker<decltype(cg.edges())>>(cg);
        else
            return std::make_unique<NodeWalker<decltype(cg._nodes_nbrs())>>(cg);
    }
    std::unique_ptr<Box> moved() override { return std::make_unique<TBox>(std::move(g)); }
    void clear() override { g.clear(); }
    void name(const std::string& s) override
    {
        std::unique_ptr<char[]> tmp;
        {
            simalloc::Pause p;
            tmp.reset(new char[s.size() + 1]);
        }
        memcpy(tmp.get(), s.data(), s.size());
        tmp[s.size()] = '!'; // no terminator, and gone afterwards
        struct Wipe
        {
            char* p;
            size_t n;
            ~Wipe() { memset(p, '#', n); }
        } w {tmp.get(), s.size()};
        g.set_name(boost::string_view(tmp.get(), s.size()));
    }
    std::string name() override { return g.get_name(); }
    bool says_directed() override { return g.is_directed(); }
    bool says_multi() override { return g.is_multigraph(); }
    int negcycle(std::vector<Pair>& cyc) override
    {
        if constexpr (Dir && D && std::is_same<typename G::nodeview_t, decltype(py::range<int>(1))>::value)
        {
            negCycleFinder<G> s(g);
            std::vector<double> dist(size_t(g.number_of_nodes()), 0.);
            auto w = [&](const auto& e) -> double { return double(static_cast<const G&>(g).successors(e.first).at(e.second)); };
            auto c = s.find_neg_cycle(dist, w);
            for (auto& e : c)
                cyc.push_back({long(e.first), long(e.second)});
            return !c.empty();
        }
        else
            return -1;
    }
};

// a boost graph behind the library's adaptor
template <typename BG, bool Dir, bool Fail>
struct BBox : Box
{
    using G = xn::grAdaptor<BG>;
    G g;
    explicit BBox(G&& h)
        : g(std::move(h))
    {
    }
    explicit BBox(long n)
        : g(BG(size_t(n)))
    {
    }
    bool directed() const override { return Dir; }
    bool has_data() const override { return false; }
    bool multi() const override { return true; }
    bool failing() const override { return Fail; }
    void add(long u, long v) override { g.add_edge(size_t(u), size_t(v)); }
    void add(long u, long v, long) override { add(u, v); }
    void bulk(const std::vector<Pair>&, const std::vector<long>&, long&, long&) override { }
    bool edge(long, long, int) override { return false; }
    bool node(long, int) override { return false; }
    size_t nn(int) override { return size_t(g.number_of_nodes()); }
    size_t ne() override { return size_t(g.number_of_edges()); }
    size_t degree(long u) override
    {
        size_t k = 0;
        auto nb = g.neighbors(size_t(u));
        for (auto it = nb.cbegin(); it != nb.cend(); ++it)
            ++k;
        return k;
    }
    Nbrs nbrs(long u, int) override
    {
        Nbrs r;
        for (auto e : g.neighbors(size_t(u)))
        {
            auto p = g.end_points(e);
            if (p.first != g.source(e) || p.second != g.target(e))
                r.push_back({-1, -1});
            r.push_back({long(p.second), long(p.first) - u}); // comes from u
        }
        std::sort(r.begin(), r.end());
        return r;
    }
    std::vector<long> nodes() override
    {
        std::vector<long> r;
        for (auto v : g)
            r.push_back(long(v));
        size_t k = 0;
        for (auto it = g.cbegin(); it != g.cend(); ++it)
            ++k;
        if (k != r.size())
            r.push_back(-1);
        std::sort(r.begin(), r.end());
        return r;
    }
    struct EdgeWalker : Walker
    {
        const G& g;
        decltype(std::declval<const G&>().edges()) view;
        decltype(view.begin()) it;
        explicit EdgeWalker(const G& h)
            : g(h)
            , view(h.edges())
            , it(view.begin())
        {
        }
        std::optional<std::vector<Pair>> next() override
        {
            if (it == view.end() || it == view.cend())
                return {};
            auto p = g.end_points(*it);
            ++it;
            return std::vector<Pair> {{long(p.first), long(p.second)}};
        }
    };
    std::unique_ptr<Walker> walk() override { return std::make_unique<EdgeWalker>(g); }
    std::unique_ptr<Box> moved() override { return std::make_unique<BBox>(std::move(g)); }
    void clear() override { g.clear(); }
    void name(const std::string&) override { }
    std::string name() override { return ""; }
    bool says_directed() override { return Dir; }
    bool says_multi() override { return false; }
};
using B1 = boost::adjacency_list<boost::vecS, boost::vecS, boost::directedS, boost::no_property, boost::property<boost::edge_weight_t, int>>;
using B2 = boost::adjacency_list<boost::listS, boost::vecS, boost::undirectedS>;
using B3 = boost::adjacency_list<boost::vecS, boost::vecS, boost::bidirectionalS>;

using Range = decltype(py::range<int>(1));
using D1 = xn::SimpleDiGraphS;
using D2 = xn::DiGraphS<Range, py::set<int>>;
using D3 = xn::DiGraphS<py::set<int>, py::dict<int, double>>;
using U1 = xn::SimpleGraph;
using U2 = xn::Graph<Range, py::dict<int, double>>;
using U3 = xn::Graph<py::set<int>, py::set<int>>;

static std::unique_ptr<Box> make(const std::string& kind, long n)
{
    py::set<int> s {};
    for (long k = 0; k < n; ++k)
        s.insert(int(k));
    if (kind == "D1")
        return std::make_unique<TBox<D1, true>>(int(n));
    if (kind == "B1")
        return std::make_unique<BBox<B1, true, true>>(n);
    if (kind == "B2")
        return std::make_unique<BBox<B2, false, false>>(n);
    if (kind == "B3")
        return std::make_unique<BBox<B3, true, false>>(n);
    if (kind == "D1r")
        return std::make_unique<TBox<D1, true>>(py::range<int>(int(n)));
    if (kind == "D2")
        return std::make_unique<TBox<D2, true>>(int(n));
    if (kind == "D3")
        return std::make_unique<TBox<D3, true>>(s);
    if (kind == "U1")
        return std::make_unique<TBox<U1, false>>(int(n));
    if (kind == "U2")
        return std::make_unique<TBox<U2, false>>(int(n));
    return std::make_unique<TBox<U3, false>>(s);
}

struct Model
{
    bool dir = true, data = true, multi = false;
    long n = 0;
    size_t total = 0; // edges, parallel ones counted apart
    std::map<Pair, long> e;
    std::string name;
    Pair key(long u, long v) const { return dir || u <= v ? Pair {u, v} : Pair {v, u}; }
    void add(long u, long v, bool withdata, long d)
    {
        auto k = key(u, v);
        if (multi)
            e[k] += 1; // how many
        else if (withdata && data)
            e[k] = d;
        else
            e.insert({k, 0});
        total = multi ? total + 1 : e.size();
    }
    bool has(long u, long v) const { return e.count(key(u, v)) != 0; }
    Nbrs nbrs(long u) const
    {
        Nbrs r;
        for (long v = 0; v < n; ++v)
        {
            auto q = e.find(key(u, v));
            if (q == e.end())
                continue;
            if (!multi)
                r.push_back({v, data ? q->second : 0});
            for (long k = 0; multi && k < q->second * (!dir && u == v ? 2 : 1); ++k)
                r.push_back({v, 0}); // a boost loop has two ends
        }
        return r;
    }
    std::vector<Pair> walk() const // as a walk should yield them, sorted
    {
        std::vector<Pair> r;
        for (auto& x : e)
        {
            for (long k = 0; k < (multi ? x.second : 1); ++k)
                r.push_back(x.first);
            if (!dir && !multi && x.first.first != x.first.second)
                r.push_back({x.first.second, x.first.first});
        }
        std::sort(r.begin(), r.end());
        return r;
    }
    bool negative(const std::vector<Pair>* cyc, long& sum) const
    {
        if (cyc)
        { // is it a closed chain of edges?
            sum = 0;
            for (size_t k = 0; k < cyc->size(); ++k)
            {
                auto& x = (*cyc)[k];
                auto& y = (*cyc)[(k + 1) % cyc->size()];
                const bool fwd = x.second == y.first, bwd = x.first == y.second;
                if (!(fwd || bwd) || !e.count(x))
                    return false;
                sum += e.at(x);
            }
            return sum < 0;
        }
        std::vector<long> d(size_t(n), 0);
        for (long k = 0; k <= n; ++k)
        {
            bool ch = false;
            for (auto& x : e)
                if (d[size_t(x.first.first)] + x.second < d[size_t(x.first.second)])
                {
                    d[size_t(x.first.second)] = d[size_t(x.first.first)] + x.second;
                    ch = true;
                }
            if (!ch)
                return false;
        }
        return true;
    }
};

struct GraphWorld : World
{
    Scenario gen(Rng& r, const std::string&, bool thorough) override
    {
        Scenario sc;
        const bool large = r.p(0.03);
        const long ng = r.i(1, 3);
        for (long k = 0; k < ng; ++k)
            sc.add(fmt("new %s %ld", r.pick<std::string>({"D1", "D1", "D1r", "D2", "D3", "U1", "U2", "U3", "B1", "B2", "B3"}).c_str(), large ? r.i(9, 70) : r.i(1, 8)));
        const long len = r.i(4, thorough ? 120 : 45);
        const double pw = r.pick({0.1, 0.4, 0.6}), pfail = r.pick({0., 0.2, 0.5}), pre = r.pick({0.1, 0.5});
        const long span = large ? r.pick({12L, 69L}) : r.pick({2L, 8L}); // few or many different edges
        for (long k = 0; k < len; ++k)
        {
            const long b = r.i(0, ng - 1);
            if (r.p(pw))
            {
                const long z = r.i(0, 9);
                if (z < 2)
                    sc.add(fmt("walk %ld", b));
                else if (z < 9)
                    sc.add(fmt("step %ld", r.i(0, 5)));
                else
                    sc.add(fmt("drop %ld", r.i(0, 5)));
                continue;
            }
            const long z = r.i(0, 99);
            const long fail = r.p(pfail) ? r.i(1, 4) : 0;
            if (z < 30)
                sc.add(fmt("add %ld %ld %ld %ld", b, r.i(0, span), r.i(0, span), fail));
            else if (z < 60)
                sc.add(fmt("addd %ld %ld %ld %ld %ld", b, r.i(0, span), r.i(0, span), r.i(-20, 30), fail));
            else if (z < 70)
            {
                std::string s;
                for (long q = 0, m = r.i(0, large ? 60 : 5); q < m; ++q)
                    s += fmt(" %ld %ld %ld", r.i(0, span), r.i(0, span), r.i(-20, 30));
                // memory or source failure
                sc.add(fmt("bulk %ld %ld %ld", b, fail, r.p(pfail) ? r.i(1, large ? 100 : 10) : 0L) + s);
            }
            else if (z < 80)
                sc.add(fmt("again %ld %ld %d %ld", b, r.i(0, 20), int(r.p(pre)), r.i(-20, 30)));
            else if (z < 86)
                sc.add(fmt("move %ld", b));
            else if (z < 88)
                sc.add(fmt("clear %ld", b));
            else if (z < 93)
                sc.add(fmt("name %ld %ld %ld", b, r.i(0, 40), fail));
            else
                sc.add(fmt("search %ld", b));
        }
        return sc;
    }
    struct Live
    {
        std::unique_ptr<Box> g;
        Model m;
        std::string kind;
    };
    struct Open
    {
        size_t of;
        std::unique_ptr<Walker> w;
        std::vector<Pair> got, want;
        bool met = false; // somebody else ran in between
    };
    static void audit(Ctx& c, Live& l, size_t idx)
    {
        ++c.checks;
        auto& g = *l.g;
        auto& m = l.m;
        const char* k = l.kind.c_str();
        if (g.ne() != m.total)
            c.violate("wrong-count", "%s graph %zu: reports %zu edges, has %zu", k, idx, g.ne(), m.total);
        for (int how = 0; how < 2; ++how)
            if (g.nn(how) != size_t(m.n))
                c.violate("wrong-count", "%s graph %zu: reports %zu nodes, has %ld", k, idx, g.nn(how), m.n);
        auto nodes = g.nodes();
        if (nodes.size() != size_t(m.n))
            c.violate("wrong-nodes", "%s graph %zu: a walk over the nodes meets %zu, there are %ld", k, idx, nodes.size(), m.n);
        for (long v = 0; v < m.n; ++v)
            if (nodes[size_t(v)] != v)
                c.violate("wrong-nodes", "%s graph %zu: node %ld is not met", k, idx, v);
        if (g.says_directed() != m.dir || g.says_multi())
            c.violate("wrong-kind", "%s graph %zu: says directed %d, multi %d", k, idx, int(g.says_directed()), int(g.says_multi()));
        for (long u = -1; !m.multi && u < m.n + 2; ++u)
        {
            for (int how = 0; how < 2; ++how)
                if (g.node(u, how) != (u >= 0 && u < m.n))
                    c.violate("wrong-nodes", "%s graph %zu: says %d about node %ld of %ld", k, idx, int(g.node(u, how)), u, m.n);
            for (long v = 0; v < std::max(m.n, 1L) + 1; ++v)
            {
                const bool in = u >= 0 && u < m.n;
                const bool want = in && v < m.n && m.has(u, v);
                for (int how = 0; how < 2; ++how)
                    if (g.edge(u, v, how) != want)
                        c.violate("wrong-edge", "%s graph %zu: says %d about edge %ld-%ld", k, idx, int(!want), u, v);
            }
        }
        for (long u = 0; u < m.n; ++u)
        {
            auto want = m.nbrs(u);
            if (g.degree(u) != want.size())
                c.violate("wrong-neighbours", "%s graph %zu: degree %zu of node %ld, it has %zu neighbours", k, idx, g.degree(u), u, want.size());
            for (int how = 0; how < (m.multi ? 1 : 6); ++how)
                if (g.nbrs(u, how) != want)
                    c.violate("wrong-neighbours", "%s graph %zu: way %d gives node %ld other neighbours or data than it has (%zu)", k, idx, how, u, want.size());
        }
        if (g.name() != m.name)
            c.violate("name-lost", "%s graph %zu: is called '%s', was named '%s'", k, idx, g.name().c_str(), m.name.c_str());
    }
    void run(const Scenario& sc, Ctx& c) override
    {
        simalloc::Disarm at_end;
        std::vector<Live> gs;
        std::vector<Open> ws;
        auto close = [&](size_t b) { // nobody may walk a graph whose edges change
            for (size_t k = ws.size(); k-- > 0;)
                if (ws[k].of == b)
                {
                    ws.erase(ws.begin() + long(k));
                    c.fault("walk-abandoned");
                }
        };
        auto guarded = [&](long fail, auto&& f) { // 0 done, 1 failed
            int rc = 0;
            if (fail > 0)
                simalloc::arm(fail);
            try
            {
                f();
            }
            catch (const std::bad_alloc&)
            {
                rc = 1;
            }
            catch (const Boom&)
            {
                rc = 2;
            }
            const long fired = simalloc::fired;
            simalloc::disarm();
            if (fail > 0 && fired > 0)
            {
                c.fault("allocation-failed");
                if (rc == 0)
                    c.violate("failure-swallowed", "an allocation failed and the call reports success");
            }
            else if (rc == 1)
                c.violate("failure-invented", "the call reports a failed allocation, none failed");
            if (rc == 2)
                c.fault("edge-source-failed");
            return rc;
        };
        for (auto& st : sc.steps)
        {
            c.simtime += 1;
            const auto op = st.op();
            if (op == "new")
            {
                Live l;
                l.kind = st.str(1);
                l.m.n = std::max(1L, st.i(2));
                l.g = make(l.kind, l.m.n);
                l.m.dir = l.g->directed();
                l.m.data = l.g->has_data();
                l.m.multi = l.g->multi();
                gs.push_back(std::move(l));
                c.ev("new %s %ld", gs.back().kind.c_str(), gs.back().m.n);
                audit(c, gs.back(), gs.size() - 1);
                continue;
            }
            if (gs.empty())
                continue;
            if (op == "step" || op == "drop")
            {
                if (ws.empty())
                    continue;
                const size_t k = size_t(st.i(1)) % ws.size();
                if (op == "drop")
                {
                    ws.erase(ws.begin() + long(k));
                    c.fault("walk-abandoned");
                    c.ev("drop %zu", k);
                    continue;
                }
                auto& w = ws[k];
                if (ws.size() > 1)
                    c.fault("walks-interleaved");
                auto x = w.w->next();
                ++c.checks;
                if (x)
                {
                    for (auto& p : *x)
                    {
                        w.got.push_back(gs[w.of].m.multi ? gs[w.of].m.key(p.first, p.second) : p);
                        c.ev("walk %zu: %ld-%ld", k, p.first, p.second);
                    }
                    if (w.got.size() > w.want.size())
                        c.violate("wrong-walk", "%s graph %zu: a walk yields more than the %zu edges there are", gs[w.of].kind.c_str(), w.of, w.want.size());
                }
                else
                {
                    c.ev("walk %zu ends after %zu", k, w.got.size());
                    auto got = w.got;
                    std::sort(got.begin(), got.end());
                    if (got != w.want)
                        c.violate("wrong-walk", "%s graph %zu: a walk of %zu edges is not that over the %zu edges there are", gs[w.of].kind.c_str(), w.of, got.size(),
                            w.want.size());
                    c.probe("walk-finished");
                    ws.erase(ws.begin() + long(k));
                }
                c.token(fmt("s%d", int(bool(x))));
                continue;
            }
            const size_t b = size_t(st.i(1)) % gs.size();
            auto& l = gs[b];
            auto& m = l.m;
            if (op == "walk")
            {
                if (ws.size() < 6)
                {
                    Open o;
                    o.of = b;
                    o.w = l.g->walk();
                    o.want = m.walk();
                    ws.push_back(std::move(o));
                    c.ev("walk over %zu opened", b);
                    c.token("w");
                }
                continue;
            }
            if (op == "add" || op == "addd" || op == "again")
            {
                if (m.n == 0)
                    continue;
                long u = st.i(2) % m.n, v = st.i(3) % m.n, d = 0, fail = st.i(4);
                bool with = op == "addd" && m.data;
                if (op == "addd")
                {
                    d = st.i(4);
                    fail = st.i(5);
                }
                if (op == "again")
                {
                    if (m.e.empty())
                        continue;
                    auto it = m.e.begin();
                    std::advance(it, st.i(2) % long(m.e.size()));
                    u = it->first.first;
                    v = it->first.second;
                    if (st.i(4) % 2)
                        std::swap(u, v);
                    with = st.i(3) != 0 && m.data;
                    d = st.i(4);
                    fail = 0;
                    c.fault("edge-added-again");
                }
                if (!l.g->failing())
                    fail = 0;
                const bool had = m.has(u, v);
                if (!had || m.multi)
                    close(b);
                else
                    for (auto& w : ws)
                        if (w.of == b)
                            c.probe("data-changed-under-walk");
                const int rc = guarded(fail, [&] { with ? l.g->add(u, v, d) : l.g->add(u, v); });
                if (rc == 0)
                    m.add(u, v, with, d);
                c.ev("add %zu %ld-%ld %d had=%d rc=%d", b, u, v, int(with), int(had), rc);
                c.token(fmt("a%d%d%d", int(had), int(with), rc));
            }
            else if (op == "bulk")
            {
                if (m.n == 0 || !m.data)
                    continue;
                close(b);
                std::vector<Pair> e;
                std::vector<long> d;
                for (size_t k = 4; k + 2 < st.w.size(); k += 3)
                {
                    e.push_back({st.i(k) % m.n, st.i(k + 1) % m.n});
                    d.push_back(st.i(k + 2));
                }
                long left = st.i(3), last = -1;
                const int rc = guarded(st.i(2), [&] { l.g->bulk(e, d, left, last); });
                const size_t full = rc == 0 ? e.size() : size_t(std::max(last, 0L));
                for (size_t k = 0; k < full; ++k)
                    m.add(e[k].first, e[k].second, true, d[k]);
                c.ev("bulk %zu of %zu rc=%d", full, e.size(), rc);
                c.token(fmt("b%d", rc));
            }
            else if (op == "move")
            {
                close(b);
                auto q = l.g->moved();
                l.g = std::move(q); // the old object is gone
                c.fault("graph-moved");
                c.ev("move %zu", b);
            }
            else if (op == "clear")
            {
                close(b);
                l.g->clear();
                m.e.clear();
                m.total = 0;
                m.n = 0;
                m.name.clear();
                c.fault("graph-cleared");
                c.ev("clear %zu", b);
            }
            else if (op == "name")
            {
                std::string s(size_t(st.i(2)), char('a' + st.i(2) % 26));
                const int rc = guarded(st.i(3), [&] { l.g->name(s); });
                if (rc == 0)
                    m.name = m.multi ? "" : s;
                c.ev("name %zu %s rc=%d", b, s.c_str(), rc);
            }
            else if (op == "search")
            {
                if (m.n == 0)
                    continue;
                std::vector<Pair> cyc;
                const int rc = l.g->negcycle(cyc);
                if (rc < 0)
                    continue;
                long sum = 0;
                ++c.checks;
                const bool want = m.negative(nullptr, sum);
                c.ev("search %zu: %d of %d, %zu edges", b, rc, int(want), cyc.size());
                c.token(fmt("q%d", rc));
                if (bool(rc) != want)
                    c.violate("wrong-search", "%s graph %zu: a search finds %s negative cycle, there is %s", l.kind.c_str(), b, rc ? "a" : "no", want ? "one" : "none");
                if (rc && !m.negative(&cyc, sum))
                    c.violate("wrong-search", "%s graph %zu: the cycle found has weight %ld or is none", l.kind.c_str(), b, sum);
            }
            else
                continue;
            for (size_t k = 0; k < gs.size(); ++k)
                audit(c, gs[k], k);
        }
        // all open walks run to their end, one edge each in turn
        for (bool more = true; more;)
        {
            more = false;
            for (size_t k = 0; k < ws.size(); ++k)
            {
                auto& w = ws[k];
                if (!w.w)
                    continue;
                auto x = w.w->next();
                if (x)
                {
                    more = true;
                    for (auto& p : *x)
                        w.got.push_back(gs[w.of].m.multi ? gs[w.of].m.key(p.first, p.second) : p);
                    if (w.got.size() > w.want.size())
                        c.violate("wrong-walk", "graph %zu: a walk yields more than the %zu edges there are", w.of, w.want.size());
                    continue;
                }
                std::sort(w.got.begin(), w.got.end());
                ++c.checks;
                if (w.got != w.want)
                    c.violate("wrong-walk", "graph %zu: a walk of %zu edges is not that over the %zu edges there are", w.of, w.got.size(), w.want.size());
                w.w.reset();
            }
        }
    }
};

int main(int argc, char** argv)
{
    GraphWorld w;
    return sim_main(argc, argv, w);
}
