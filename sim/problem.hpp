// A family of problem data shared by several worlds.
#pragma once
#include "core.hpp"
#include <boost/graph/adjacency_list.hpp>
#include <boost/graph/properties.hpp>
#include <ellcpp/utility.hpp>
#include <py2cpp/nx2bgl.hpp>
#include <xnetwork/classes/digraphs.hpp>
#include <xtensor/xarray.hpp>

namespace boost
{
enum edge_id_tag_t
{
    id_tag
};
BOOST_INSTALL_PROPERTY(edge, id_tag);
} // namespace boost

using Arr = xt::xarray<double, xt::layout_type::row_major>;
using sim::Rng;
using Mats = std::vector<Arr>;
using G = xn::grAdaptor<
    boost::adjacency_list<boost::vecS, boost::vecS, boost::directedS, boost::no_property, boost::property<boost::edge_id_tag_t, size_t>>>;

struct Problem
{
    size_t n, m;
    Mats F, S;
    Arr B, C, Y, Ap, As, Anr;
    Arr pa, pv, pe;
    double pp, pA, pk;
    std::vector<double> cost; // before the graph that is built with it
    G graph;
    xn::SimpleDiGraphS xgraph; // the same edges without parallels; the data of an edge is its number
    static Arr sym(Rng& q, size_t m, double diag, double scale)
    {
        Arr a = xt::zeros<double>({m, m});
        for (size_t i = 0; i < m; ++i)
            for (size_t j = 0; j <= i; ++j)
                a(i, j) = a(j, i) = scale * q.normal() + (i == j ? diag : 0.);
        return a;
    }
    static G mkgraph(Rng& q, size_t nodes, std::vector<double>& cost)
    {
        boost::adjacency_list<boost::vecS, boost::vecS, boost::directedS, boost::no_property, boost::property<boost::edge_id_tag_t, size_t>> g(nodes);
        for (size_t i = 0; i < nodes; ++i)
        {
            boost::add_edge(i, (i + 1) % nodes, boost::property<boost::edge_id_tag_t, size_t>(cost.size()), g);
            cost.push_back(q.u(-2, 2));
            if (q.p(0.5))
            {
                boost::add_edge(i, (i + 2) % nodes, boost::property<boost::edge_id_tag_t, size_t>(cost.size()), g);
                cost.push_back(q.u(-2, 2));
            }
        }
        return G {std::move(g)};
    }
    static xn::SimpleDiGraphS mknative(const G& g)
    {
        xn::SimpleDiGraphS x(int(g.number_of_nodes()));
        for (const auto e : g.edges())
        {
            const auto uv = g.end_points(e);
            x.add_edge(int(uv.first), int(uv.second), int(boost::get(boost::id_tag, g, e)));
        }
        return x;
    }
    explicit Problem(Rng q, size_t nn, size_t mm)
        : n(nn)
        , m(mm)
        , graph(mkgraph(q, 5, cost))
        , xgraph(mknative(graph))
    {
        for (size_t k = 0; k < n; ++k)
            F.push_back(sym(q, m, 0, 1));
        B = sym(q, m, 3. + double(m), 0.4);
        C = xt::zeros<double>({m, m});
        for (auto& v : C)
            v = q.normal();
        for (size_t k = 0; k < n; ++k)
            S.push_back(sym(q, m, k ? 0. : 2.5 + 0.5 * double(m), 0.3));
        Y = sym(q, m, 2. + 0.5 * double(m), 0.3);
        auto table = [&](size_t rows, double lo, double hi) {
            Arr a = xt::zeros<double>({rows, n});
            for (size_t i = 0; i < rows; ++i)
                for (size_t j = 0; j < n; ++j)
                    a(i, j) = j ? 2. * std::cos((lo + (hi - lo) * double(i) / double(rows)) * M_PI * double(j)) : 1.;
            return a;
        };
        Ap = table(5, 0, .2);
        As = table(6, .4, 1);
        Anr = table(3, .2, .4);
        pp = q.u(10, 40);
        pA = q.u(15, 60);
        pk = q.u(3, 60);
        pa = Arr {q.u(0.05, 0.45), q.u(0.05, 0.45)};
        pv = Arr {q.u(2, 60), q.u(2, 60)};
        pe = Arr {q.u(0, .03), q.u(0, .03)};
    }
    size_t dim(const std::string& k) const
    {
        if (k[0] == 'p' || k == "os")
            return 2;
        return k == "lsq" ? n + 1 : n;
    }
};

struct CostFn
{
    const Problem* p;
    template <typename E>
    double operator()(const E& e) const
    {
        return p->cost[boost::get(boost::id_tag, p->graph, e)];
    }
};
