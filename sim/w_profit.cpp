// World "profit": several searches for the best profit share one incumbent value and are
// interleaved by the seed; queries repeat, come late, ask for alternatives, or die for lack
// of memory.  Real: profit_oracle, profit_rb_oracle, profit_q_oracle, ell (as a source of
// query points).  Simulated: clients, shared incumbent, allocator.
#include "alloc.hpp"
#include "core.hpp"
#include <ellcpp/cut_config.hpp>
#include <ellcpp/ell.hpp>
#include <ellcpp/oracles/profit_oracle.hpp>
#include <memory>
#include <xtensor/xarray.hpp>

using namespace sim;
using Arr = xt::xarray<double, xt::layout_type::row_major>;
using R = long double;

struct Prob
{
    double p, A, k, a0, a1, v0, v1, e0, e1, e3;
    bool rb;
    R pp() const { return rb ? R(p) - R(e3) : R(p); }
    R kk() const { return rb ? R(k) - R(e3) : R(k); }
    R vv(int i) const { return (i ? R(v1) : R(v0)) + (rb ? R(e3) : 0.L); }
    R aa(int i, R y) const
    {
        const R a = i ? a1 : a0, e = i ? e1 : e0;
        return rb ? a + (y > 0 ? -e : e) : a;
    }
    R logk() const { return std::log(kk()); }
    R logcobb(R y0, R y1) const { return std::log(pp() * R(A)) + aa(0, y0) * y0 + aa(1, y1) * y1; }
    R vx(R y0, R y1) const { return vv(0) * std::exp(y0) + vv(1) * std::exp(y1); }
    R profit(R y0, R y1) const { return std::exp(logcobb(y0, y1)) - vx(y0, y1); }
    bool in(R y0) const { return y0 <= logk(); }
    // best continuous point (pattern search on a quasi-concave function)
    void best(R& y0, R& y1) const
    {
        y0 = std::min<R>(logk(), 1.L);
        y1 = 1.L;
        R h = 2, f = profit(y0, y1);
        while (h > 1e-9L)
        {
            bool up = false;
            for (int d = 0; d < 8; ++d)
            {
                static const int dx[8] = {1, -1, 0, 0, 1, 1, -1, -1}, dy[8] = {0, 0, 1, -1, 1, -1, 1, -1};
                R a = std::min<R>(logk(), y0 + h * dx[d]), b = y1 + h * dy[d], g = profit(a, b);
                if (g > f)
                {
                    f = g;
                    y0 = a;
                    y1 = b;
                    up = true;
                }
            }
            if (!up)
                h /= 2;
        }
    }
};

struct Client
{
    char kind; // p plain, r robust, q discrete
    std::unique_ptr<profit_oracle> P;
    std::unique_ptr<profit_rb_oracle> Rb;
    std::unique_ptr<profit_q_oracle> Q;
    bool asked = false;
    double ly0 = 0, ly1 = 0; // point the kept integer point belongs to
    std::unique_ptr<ell> E;
};

struct ProfitWorld : World
{
    Scenario gen(Rng& r, const std::string& prop, bool thorough) override
    {
        Scenario sc;
        sc.set("p", r.u(10, 40));
        sc.set("A", r.u(15, 60));
        sc.set("k", r.p(0.7) ? r.u(3, 60) : double(r.i(2, 40)));
        const double s = r.u(0.3, 0.95), w = r.u(0.1, 0.9);
        sc.set("a0", s * w);
        sc.set("a1", s * (1 - w));
        sc.set("v0", r.u(2, 60));
        sc.set("v1", r.u(2, 60));
        const bool nul = r.p(0.2);
        sc.set("e0", nul ? 0. : r.u(0, 0.03));
        sc.set("e1", nul ? 0. : r.u(0, 0.03));
        sc.set("e3", nul ? 0. : r.u(0, 1.2));
        sc.set("t0", r.pick({0., 0., 0.1, 0.7, 0.95}));
        sc.set("rays", r.i(1, 1000000));
        const long nc = r.i(1, 4);
        for (long i = 0; i < nc; ++i)
            sc.add(fmt("c %s", r.pick({"p", "r", "q", "q"})));
        const long ops = r.i(3, thorough ? 60 : 25);
        const double pf = r.pick({0., 0.1, 0.3});
        const bool driven = r.p(0.5);
        for (long i = 0; i < ops; ++i)
        {
            const long z = r.i(0, 19);
            if (z == 0)
                sc.add(fmt("t %.17g", r.pick({r.u(0, 1.1), r.u(0, 1), r.u(0.9, 1), 0., 1.})));
            else if (z == 1 && r.p(0.4))
                sc.add(fmt("cp %ld", r.i(0, 5)));
            else if (z == 2)
                sc.add(fmt("rep %ld %ld", r.i(0, 5), r.p(pf) ? r.i(1, 30) : 0L));
            else if (z <= 5)
                sc.add(fmt("alt %ld %.17g %.17g %ld", r.i(0, 5), r.p(0.5) ? 0. : r.normal() * 0.3, r.p(0.5) ? 0. : r.normal() * 0.3, r.p(pf) ? r.i(1, 30) : 0L));
            else if (driven && r.p(0.7))
                sc.add(fmt("step %ld %ld", r.i(0, 5), r.p(pf) ? r.i(1, 30) : 0L));
            else
            {
                const double sp = r.pick({0.1, 0.5, 2., 6.});
                if (r.p(0.2))
                    sc.add(fmt("x %ld %ld %ld %ld", r.i(0, 5), r.i(1, 60), r.i(1, 60), r.p(pf) ? r.i(1, 30) : 0L));
                else
                    sc.add(fmt("y %ld %.17g %.17g %ld", r.i(0, 5), r.normal() * sp, r.normal() * sp, r.p(pf) ? r.i(1, 30) : 0L));
            }
        }
        return sc;
    }

    void run(const Scenario& sc, Ctx& c) override
    {
        Prob pl {sc.d("p", 20), sc.d("A", 40), sc.d("k", 30.5), sc.d("a0", .1), sc.d("a1", .4), sc.d("v0", 10), sc.d("v1", 35), sc.d("e0"), sc.d("e1"),
            sc.d("e3"), false};
        Prob rb = pl;
        rb.rb = true;
        R by0, by1, ry0, ry1;
        pl.best(by0, by1);
        rb.best(ry0, ry1);
        const double top = double(pl.profit(by0, by1));
        double t = top > 0 ? sc.d("t0") * top : 0.;
        const Arr av {pl.a0, pl.a1}, vv {pl.v0, pl.v1}, ev {pl.e0, pl.e1};
        std::vector<std::unique_ptr<Client>> cl;
        auto make = [&](char kind) {
            auto p = std::make_unique<Client>();
            p->kind = kind;
            if (kind == 'p')
                p->P = std::make_unique<profit_oracle>(pl.p, pl.A, pl.k, av, vv);
            else if (kind == 'r')
                p->Rb = std::make_unique<profit_rb_oracle>(pl.p, pl.A, pl.k, av, vv, ev, pl.e3);
            else
                p->Q = std::make_unique<profit_q_oracle>(pl.p, pl.A, pl.k, av, vv);
            p->E = std::make_unique<ell>(Arr {100., 100.}, Arr {double(by0) * 0.5, double(by1) * 0.5});
            return p;
        };
        Rng ray(sc.u("rays", 7));

        // one query; returns the cut through g,f; false when it died
        auto query = [&](Client& k, double y0, double y1, bool retry, long fail, double g[2], double& f) -> bool {
            const Prob& pr = k.kind == 'r' ? rb : pl;
            const Arr y {y0, y1};
            const double tb = t;
            bool shrunk = false, more = false;
            Arr yd {y0, y1};
            c.simtime += 1;
            try
            {
                std::tuple<Arr, double> cut;
                simalloc::arm(fail, false);
                if (k.kind == 'p')
                    std::tie(cut, shrunk) = (*k.P)(y, t);
                else if (k.kind == 'r')
                    std::tie(cut, shrunk) = (*k.Rb)(y, t);
                else
                    std::tie(cut, yd, shrunk, more) = (*k.Q)(y, t, retry);
                simalloc::disarm();
                if (std::get<0>(cut).size() != 2)
                    c.violate("cut-shape", "the cut has %zu entries", std::get<0>(cut).size());
                g[0] = std::get<0>(cut)(0);
                g[1] = std::get<0>(cut)(1);
                f = std::get<1>(cut);
            }
            catch (const std::bad_alloc&)
            {
                simalloc::disarm();
                c.fault("query-died-no-memory");
                c.ev("client %c at %.12g,%.12g: no memory at allocation %ld", k.kind, y0, y1, fail);
                if (t < tb)
                    c.violate("best-lowered", "a query that failed lowered the best value from %.12g to %.12g", tb, t);
                if (k.kind == 'q' && !retry)
                    k.asked = false; // which point is kept now is open
                return false;
            }
            ++c.checks;
            c.ev("client %c at %.12g,%.12g%s: cut %.12g,%.12g offset %.12g improved %d t %.12g -> %.12g", k.kind, y0, y1, retry ? " (alternative)" : "",
                g[0], g[1], f, int(shrunk), tb, t);
            c.token(fmt("%c%d%d", k.kind, int(shrunk), int(retry)));
            // the point evaluated
            R z0 = y0, z1 = y1;
            if (k.kind == 'q')
            {
                const R b0 = retry ? R(k.ly0) : R(y0), b1 = retry ? R(k.ly1) : R(y1);
                if (!retry)
                {
                    k.asked = true;
                    k.ly0 = y0;
                    k.ly1 = y1;
                }
                else
                    c.fault("alternative-asked");
                if (yd.size() != 2)
                    c.violate("wrong-point", "the point returned has %zu entries", yd.size());
                const R b[2] = {b0, b1};
                for (int i = 0; i < 2; ++i)
                {
                    const R x = std::exp(R(yd(i))), xr = std::round(x), want = std::exp(b[i]);
                    if (xr < 1 || std::fabs(x - xr) > 1e-9L * xr)
                        c.violate("wrong-point", "entry %d of the point returned is %.12Lg, no positive integer", i, x);
                    const R near = std::max<R>(1, std::round(want));
                    if (std::fabs(xr - want) > std::fabs(near - want) + 1e-9L * want)
                        c.violate("wrong-point", "the oracle evaluated %.0Lf for %.12Lg in entry %d%s", xr, want, i, retry ? " when asked for an alternative" : "");
                }
                if (more != !retry)
                    c.violate("wrong-offer", "alternative %s after %s query", more ? "offered" : "not offered", retry ? "an alternative" : "a normal");
                z0 = yd(0);
                z1 = yd(1);
            }
            const R prof = pr.profit(z0, z1), scale = std::exp(pr.logcobb(z0, z1)) + pr.vx(z0, z1) + std::fabs(R(tb));
            const bool nearcap = std::fabs(z0 - pr.logk()) < 1e-9L, in = pr.in(z0);
            const bool neart = std::fabs(prof - R(tb)) < 1e-9L * scale;
            if (!nearcap && !neart)
            {
                if (shrunk != (in && prof > R(tb)))
                    c.violate(shrunk ? "false-improvement" : "improvement-missed", "profit %.12Lg at the point, best so far %.12g, capacity %s", prof, tb,
                        in ? "kept" : "exceeded");
            }
            if (shrunk)
            {
                c.probe("improved");
                if (!(in || nearcap))
                    c.violate("infeasible-improvement", "the point of the improvement exceeds the capacity");
                if (t < tb)
                    c.violate("best-lowered", "the best value went from %.17g down to %.17g", tb, t);
                if (std::fabs(R(t) - prof) > 1e-9L * scale)
                    c.violate("wrong-best-value", "the best value became %.12g, the profit of the point is %.12Lg", t, prof);
            }
            else if (memcmp(&t, &tb, 8))
                c.violate("best-moved", "the best value went from %.17g to %.17g without an improvement", tb, t);
            if (!std::isfinite(f) || !std::isfinite(g[0]) || !std::isfinite(g[1]))
                c.violate("cut-not-finite", "cut %g,%g offset %g", g[0], g[1], f);
            if (k.kind != 'q' && f < -1e-12)
                c.violate("cut-keeps-point", "the cut keeps the query point inside (offset %.9g)", f);
            // everything better must satisfy the cut
            const R tn = t;
            auto good = [&](R w0, R w1) { return pr.in(w0) && pr.profit(w0, w1) > tn; };
            auto check = [&](R w0, R w1) {
                const R l = R(f) + R(g[0]) * (w0 - R(y0)) + R(g[1]) * (w1 - R(y1));
                const R mag = std::fabs(R(f)) + std::fabs(R(g[0]) * (w0 - R(y0))) + std::fabs(R(g[1]) * (w1 - R(y1)));
                if (l > 1e-8L * (1 + mag) && good(w0, w1))
                {
                    if (k.kind == 'q')
                    { // offset taken with the wrong sign: recorded defect
                        R G0, G1, F0;
                        if (z0 > pr.logk() + (nearcap && !(g[0] == 1 && g[1] == 0) ? 1e-8L : 0.L))
                        {
                            G0 = 1;
                            G1 = 0;
                            F0 = z0 - pr.logk();
                        }
                        else
                        {
                            const R te = shrunk ? std::exp(pr.logcobb(z0, z1)) : R(tb) + pr.vx(z0, z1);
                            G0 = pr.vv(0) * std::exp(z0) / te - pr.aa(0, z0);
                            G1 = pr.vv(1) * std::exp(z1) / te - pr.aa(1, z1);
                            F0 = shrunk ? 0 : std::log(te) - pr.logcobb(z0, z1);
                        }
                        const R F = F0 + G0 * (z0 - R(y0)) + G1 * (z1 - R(y1));
                        if (std::fabs(F - R(f)) < 1e-9L * (1 + mag) && std::fabs(G0 - R(g[0])) < 1e-9L * (1 + std::fabs(G0))
                            && std::fabs(G1 - R(g[1])) < 1e-9L * (1 + std::fabs(G1)))
                        {
                            c.known_finding("profit-q-offset");
                            return;
                        }
                    }
                    c.violate("better-point-removed", "the cut removes %s %.9Lg,%.9Lg (profit %.9Lg, best so far %.9Lg) by %.6Lg",
                        k.kind == 'q' ? "the integer point with logarithms" : "the point", w0, w1, pr.profit(w0, w1), tn, l);
                }
            };
            const R c0 = k.kind == 'r' ? ry0 : by0, c1 = k.kind == 'r' ? ry1 : by1;
            if (k.kind == 'q')
            {
                const R kk = std::floor(pr.kk());
                const R u0 = std::round(std::exp(c0)), u1 = std::round(std::exp(c1));
                for (int i = -1; i <= 2; ++i)
                    for (int j = -1; j <= 2; ++j)
                        if (u0 + i >= 1 && u0 + i <= kk && u1 + j >= 1)
                            check(std::log(u0 + i), std::log(u1 + j));
                for (int n = 0; n < 24; ++n)
                {
                    const R a = std::max<R>(1, std::min<R>(kk, std::round(u0 * std::exp(R(ray.normal()) * (n % 3 + 0.3L)))));
                    const R b = std::max<R>(1, std::round(u1 * std::exp(R(ray.normal()) * (n % 3 + 0.3L))));
                    check(std::log(a), std::log(b));
                }
            }
            else if (good(c0, c1))
            {
                c.probe("better-points-exist");
                check(c0, c1);
                for (int n = 0; n < 6; ++n)
                {
                    R d0 = n == 0 ? R(g[0]) : n == 1 ? R(y0) - c0 : R(ray.normal()), d1 = n == 0 ? R(g[1]) : n == 1 ? R(y1) - c1 : R(ray.normal());
                    const R nn = std::sqrt(d0 * d0 + d1 * d1);
                    if (nn < 1e-9L)
                        continue;
                    R lo = 0, hi = 40 / nn;
                    for (int it = 0; it < 60; ++it)
                    {
                        const R m = (lo + hi) / 2;
                        (good(c0 + m * d0, c1 + m * d1) ? lo : hi) = m;
                    }
                    check(c0 + lo * d0, c1 + lo * d1);
                }
            }
            return true;
        };
        double last[2] = {double(by0), double(by1)};
        for (auto& st : sc.steps)
        {
            const auto& op = st.op();
            if (op == "c")
            {
                cl.push_back(make(st.str(1)[0]));
                continue;
            }
            if (cl.empty())
                cl.push_back(make('p'));
            if (op == "t")
            {
                if (top > 0)
                {
                    t = st.d(1) * top;
                    c.fault("best-value-set-by-another");
                    c.ev("best value set to %.17g", t);
                }
                continue;
            }
            Client& k = *cl[size_t(st.i(1)) % cl.size()];
            double g[2], f;
            if (op == "cp" && cl.size() < 6)
            {
                auto p = std::make_unique<Client>();
                p->kind = k.kind;
                if (k.kind == 'p')
                    p->P = std::make_unique<profit_oracle>(*k.P);
                else if (k.kind == 'r')
                    p->Rb = std::make_unique<profit_rb_oracle>(pl.p, pl.A, pl.k, av, vv, ev, pl.e3);
                else
                    p->Q = std::make_unique<profit_q_oracle>(pl.p, pl.A, pl.k, av, vv);
                p->E = std::make_unique<ell>(*k.E);
                c.fault("client-joined");
                cl.push_back(std::move(p));
            }
            else if (op == "y" || op == "x" || op == "rep")
            {
                const R c0 = k.kind == 'r' ? ry0 : by0, c1 = k.kind == 'r' ? ry1 : by1;
                if (op == "y")
                {
                    last[0] = double(c0) + st.d(2);
                    last[1] = double(c1) + st.d(3);
                }
                else if (op == "x")
                {
                    last[0] = std::log(double(std::max(1L, st.i(2))));
                    last[1] = std::log(double(std::max(1L, st.i(3))));
                }
                else
                    c.fault("query-duplicated");
                query(k, last[0], last[1], false, op == "rep" ? st.i(2) : st.i(4), g, f);
            }
            else if (op == "alt")
            {
                if (k.kind != 'q' || !k.asked)
                    continue;
                query(k, k.ly0 + st.d(2), k.ly1 + st.d(3), true, st.i(4), g, f);
            }
            else if (op == "step")
            {
                const Arr xc = k.E->xc();
                if (!(std::fabs(xc(0)) < 30 && std::fabs(xc(1)) < 30))
                    continue;
                if (query(k, xc(0), xc(1), false, st.i(2), g, f))
                {
                    const auto [status, tsq] = k.E->update(std::make_tuple(Arr {g[0], g[1]}, f));
                    c.ev("cut applied: status %d size %.9g", int(status), tsq);
                    if (tsq < 1e-8)
                        throw EndRun {};
                }
            }
        }
    }
};

int main(int argc, char** argv)
{
    ProfitWorld w;
    return sim_main(argc, argv, w);
}
