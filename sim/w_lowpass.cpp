// World "lowpass": filter-design oracles whose rotating scans are advanced, repeated, cut off
// by failing allocations and shared by several clients with one best value.
// Real: lowpass_oracle.  Simulated: clients, host of the best value, allocator.
#include "alloc.hpp"
#include "core.hpp"
#include <ellcpp/oracles/lowpass_oracle.hpp>
#include <memory>
#include <xtensor/xarray.hpp>

using namespace sim;
using Arr = xt::xarray<double, xt::layout_type::row_major>;
using R = long double;
using Row = std::vector<double>;

struct LowWorld : World
{
    Scenario gen(Rng& r, const std::string&, bool thorough) override
    {
        Scenario sc;
        const bool large = r.p(0.03);
        const long rows = large ? 70 : 12;
        sc.set("n", large ? r.i(8, 20) : r.i(2, 7));
        sc.set("np", r.p(0.1) ? 0L : r.i(1, rows));
        sc.set("ns", r.i(1, rows));
        sc.set("nr", r.p(0.15) ? 0L : r.i(1, rows));
        sc.set("kind", r.pick({"cos", "rand", "unit"}));
        sc.set("data", r.i(1, 1000000000));
        sc.set("width", r.pick({0.05, 0.3, 1.}));
        sc.set("slack", r.pick({0., 0.1, 1.}));
        const long ops = r.i(3, thorough ? 60 : 25);
        const double pf = r.pick({0., 0.15, 0.4});
        const long no = r.i(1, 3);
        for (long k = 1; k < no; ++k)
            sc.add("new");
        for (long k = 0; k < ops; ++k)
        {
            const long z = r.i(0, 15);
            const long fail = r.p(pf) ? r.i(1, 25) : 0;
            if (z == 0)
                sc.add(fmt("S %.17g", r.pick({1., 1.0001, 0.99, 2., 10., 1e6})));
            else if (z == 1)
                sc.add(fmt("cp %ld", r.i(0, 4)));
            else if (z < 6)
                sc.add(fmt("rep %ld %ld %ld", r.i(0, 4), r.i(1, 14), fail));
            else
                sc.add(fmt("q %ld %ld %.17g %ld", r.i(0, 4), r.i(1, 1000000000), r.pick({0., 1e-3, 0.05, 0.3, 1., 4.}), fail));
        }
        return sc;
    }
    void run(const Scenario& sc, Ctx& c) override
    {
        const size_t n = size_t(sc.i("n", 3)), np = size_t(sc.i("np", 3)), ns = size_t(sc.i("ns", 3)), nr = size_t(sc.i("nr", 2));
        const auto kind = sc.s("kind");
        Rng d(sc.u("data", 1));
        auto table = [&](size_t m, double lo, double hi) {
            std::vector<Row> t(m, Row(n));
            for (size_t i = 0; i < m; ++i)
            {
                const double w = (lo + (hi - lo) * (double(i) + 0.5 * d.u()) / double(m)) * M_PI;
                for (size_t j = 0; j < n; ++j)
                    t[i][j] = kind == "cos" ? (j ? 2. * std::cos(w * double(j)) : 1.) : kind == "rand" ? d.normal() : (j == size_t(d.i(0, long(n) - 1)) ? d.u(0.5, 2) : d.u(-0.1, 0.1));
            }
            return t;
        };
        auto tp = table(np, 0., 0.25), ts = table(ns, 0.4, 1.), tr = table(nr, 0.25, 0.4);
        // hidden feasible design
        Row hid(n);
        for (size_t j = 0; j < n; ++j)
            hid[j] = kind == "cos" ? (j ? 0.3 / double(j + 1) * d.u(0.2, 1) : 1.) : d.normal();
        hid[0] = std::fabs(hid[0]) + 0.5;
        auto dotr = [&](const Row& a, const Row& x) {
            R s = 0;
            for (size_t j = 0; j < n; ++j)
                s += R(a[j]) * R(x[j]);
            return s;
        };
        auto flip = [&](Row& a) {
            for (auto& v : a)
                v = -v;
        };
        for (auto& a : ts)
            if (dotr(a, hid) < 0)
                flip(a);
        for (auto& a : tr)
            if (dotr(a, hid) < 0)
                flip(a);
        double Lp = 0, Up = 1;
        if (np)
        { // scale rows so that the hidden design lies in the band
            const double w = sc.d("width", .3);
            Lp = 1 - w / 2;
            Up = 1 + w / 2;
            for (auto& a : tp)
            {
                R v = dotr(a, hid);
                if (std::fabs(v) < 0.05L)
                {
                    a[0] += 1.;
                    v = dotr(a, hid);
                }
                const double want = Lp + (Up - Lp) * d.u(0.02, 0.98);
                for (auto& q : a)
                    q = double(R(q) * want / v);
            }
        }
        R hs = 0;
        for (auto& a : ts)
            hs = std::max(hs, dotr(a, hid));
        auto mat = [&](const std::vector<Row>& t) {
            Arr m = xt::zeros<double>({t.size(), n});
            for (size_t i = 0; i < t.size(); ++i)
                for (size_t j = 0; j < n; ++j)
                    m(i, j) = t[i][j];
            return m;
        };
        const Arr Ap = mat(tp), As = mat(ts), Anr = mat(tr);
        double S = double(hs) * (1 + sc.d("slack", .1)) + 1e-6;
        const double S0 = S;
        struct Client
        {
            std::unique_ptr<lowpass_oracle> o;
            bool run = false; // a series of queries at one point with one best value is going on
            Row x;
            double S = 0;
            long asked = 0;
            std::set<size_t> seen;
        };
        std::vector<Client> cl;
        cl.emplace_back();
        cl[0].o = std::make_unique<lowpass_oracle>(Ap, As, Anr, Lp, Up);
        Rng ray(sc.u("data", 1) + 17);
        Row last = hid;

        auto query = [&](Client& k, const Row& x, long fail) {
            Arr xa = xt::zeros<double>({n});
            for (size_t j = 0; j < n; ++j)
                xa(j) = x[j];
            const double Sb = S;
            c.simtime += 1;
            Row g;
            std::vector<double> f;
            bool shrunk = false;
            try
            {
                simalloc::arm(fail, false);
                auto [cut, sh] = (*k.o)(xa, S);
                simalloc::disarm();
                shrunk = sh;
                g.assign(std::get<0>(cut).begin(), std::get<0>(cut).end());
                f.assign(std::get<1>(cut).begin(), std::get<1>(cut).end());
            }
            catch (const std::bad_alloc&)
            {
                simalloc::disarm();
                c.fault("query-died-no-memory");
                c.ev("query died at allocation %ld", fail);
                k.run = false;
                return;
            }
            ++c.checks;
            if (g.size() != n || f.empty() || f.size() > 2)
                c.violate("cut-shape", "gradient of %zu entries for %zu coefficients, %zu offsets", g.size(), n, f.size());
            for (double v : g)
                if (!std::isfinite(v))
                    c.violate("cut-not-finite", "gradient %g", v);
            c.ev("query at %.9g..: offsets %.12g %.12g improved %d best %.12g -> %.12g", x[0], f[0], f.size() > 1 ? f[1] : 0., int(shrunk), Sb, S);
            // the truth
            struct Con
            {
                size_t group, id;
                R viol;
            };
            std::vector<Con> viol, near;
            R smax = -1e300L;
            auto con = [&](size_t gr, size_t id, R v) {
                if (v > 1e-11L)
                    viol.push_back({gr, id, v});
                else if (v > -1e-11L)
                    near.push_back({gr, id, v});
            };
            con(0, 0, -R(x[0]));
            for (size_t i = 0; i < np; ++i)
            {
                const R v = dotr(tp[i], x);
                con(1, i, std::max(v - R(Up), R(Lp) - v));
            }
            for (size_t i = 0; i < ns; ++i)
            {
                const R v = dotr(ts[i], x);
                smax = std::max(smax, v);
                con(2, i, std::max(v - R(Sb), -v));
            }
            for (size_t i = 0; i < nr; ++i)
                con(3, i, -dotr(tr[i], x));
            c.token(fmt("%d%zu", int(shrunk), viol.size()));
            if (shrunk)
            {
                c.probe("improved");
                if (!viol.empty())
                    c.violate("infeasible-improvement", "a design violating %zu constraints was announced as the new best (group %zu, row %zu by %.6Lg)", viol.size(),
                        viol[0].group, viol[0].id, viol[0].viol);
                if (std::fabs(R(S) - smax) > 1e-9L * (1 + std::fabs(smax)))
                    c.violate("wrong-best-value", "best value %.12g announced, largest stop-band response %.12Lg", S, smax);
            }
            else
            {
                if (memcmp(&S, &Sb, 8))
                    c.violate("best-moved", "the best value went from %.17g to %.17g without an improvement", Sb, S);
                if (viol.empty() && near.empty())
                    c.violate("improvement-missed", "every constraint holds at the point and it was not announced");
                if (!(f[0] > (near.empty() ? 0. : -1e-9)))
                    c.violate("cut-not-violated", "the cut keeps the query point inside (offset %.9g)", f[0]);
            }
            if (f[0] < -1e-9 || (f.size() > 1 && f[1] < f[0] - 1e-12))
                c.violate("cut-offsets", "offsets %.9g, %.9g", f[0], f.size() > 1 ? f[1] : 0.);
            // better designs must satisfy the cut
            const R Sn = S;
            auto worst = [&](const Row& y) { // <= 0: feasible and no worse than the best value
                R w = -R(y[0]);
                for (auto& a : tp)
                {
                    const R v = dotr(a, y);
                    w = std::max(w, std::max(v - R(Up), R(Lp) - v));
                }
                for (auto& a : ts)
                {
                    const R v = dotr(a, y);
                    w = std::max(w, std::max(v - Sn, -v));
                }
                for (auto& a : tr)
                    w = std::max(w, -dotr(a, y));
                return w;
            };
            auto check = [&](const Row& y) {
                R l0 = f[0], l1 = f.size() > 1 ? f[1] : 0, mag = std::fabs(l0) + std::fabs(l1);
                R gg = 0;
                for (size_t j = 0; j < n; ++j)
                {
                    gg += R(g[j]) * (R(y[j]) - R(x[j]));
                    mag += std::fabs(R(g[j]) * (R(y[j]) - R(x[j])));
                }
                l0 += gg;
                l1 += gg;
                if ((l0 > 1e-9L * (1 + mag) || (f.size() > 1 && l1 < -1e-9L * (1 + mag))) && worst(y) <= 0)
                    c.violate("better-design-removed", "the cut removes a design that satisfies everything (by %.6Lg, %.6Lg)", l0, f.size() > 1 ? -l1 : 0.L);
            };
            if (worst(hid) <= 0)
            {
                c.probe("better-designs-exist");
                check(hid);
                for (int q = 0; q < 6; ++q)
                {
                    Row dir(n), y(n);
                    R nn = 0;
                    for (size_t j = 0; j < n; ++j)
                    {
                        dir[j] = q == 0 ? g[j] : q == 1 ? -g[j] : q == 2 ? x[j] - hid[j] : ray.normal();
                        nn += R(dir[j]) * R(dir[j]);
                    }
                    if (nn < 1e-18L)
                        continue;
                    R lo = 0, hi = 100 / std::sqrt(nn);
                    auto at = [&](R s) {
                        for (size_t j = 0; j < n; ++j)
                            y[j] = double(R(hid[j]) + s * R(dir[j]));
                    };
                    for (int it = 0; it < 60; ++it)
                    {
                        const R m = (lo + hi) / 2;
                        at(m);
                        (worst(y) <= 0 ? lo : hi) = m;
                    }
                    at(lo);
                    check(y);
                }
            }
            // which constraint was cut?  a series at one point must visit all violated ones of its first violated group
            if (k.run && k.x == x && k.S == Sb && !shrunk)
                ++k.asked;
            else
            {
                k.run = !shrunk;
                k.x = x;
                k.S = Sb;
                k.asked = 1;
                k.seen.clear();
            }
            if (k.run && near.empty() && !viol.empty())
            {
                const size_t gr = viol[0].group;
                const auto* t = gr == 1 ? &tp : gr == 2 ? &ts : gr == 3 ? &tr : nullptr;
                size_t total = 0;
                for (auto& v : viol)
                    total += v.group == gr;
                if (t)
                {
                    R gn = 0;
                    for (double v : g)
                        gn += R(v) * R(v);
                    for (auto& v : viol)
                    {
                        if (v.group != gr)
                            continue;
                        R ab = 0, an = 0;
                        for (size_t j = 0; j < n; ++j)
                        {
                            ab += R(g[j]) * R((*t)[v.id][j]);
                            an += R((*t)[v.id][j]) * R((*t)[v.id][j]);
                        }
                        if (ab * ab > (1 - 1e-14L) * an * gn)
                        {
                            k.seen.insert(v.id);
                        }
                    }
                }
                if (t && k.asked >= long(total) && k.seen.size() < total)
                    c.violate("constraint-starved", "%ld queries at one point visited %zu of the %zu violated constraints of group %zu", k.asked, k.seen.size(), total,
                        gr);
                if (t && total > 1 && k.asked >= long(total))
                    c.probe("full-round");
            }
            else
                k.run = false;
        };
        for (auto& st : sc.steps)
        {
            const auto& op = st.op();
            if (op == "new" && cl.size() < 5)
            {
                cl.emplace_back();
                cl.back().o = std::make_unique<lowpass_oracle>(Ap, As, Anr, Lp, Up);
                c.fault("another-oracle-on-the-same-data");
            }
            else if (op == "cp" && cl.size() < 5)
            {
                auto o = std::make_unique<lowpass_oracle>(*cl[size_t(st.i(1)) % cl.size()].o);
                cl.emplace_back();
                cl.back().o = std::move(o);
                c.fault("oracle-copied");
            }
            else if (op == "S")
            {
                S = st.d(1) >= 10. ? S0 * st.d(1) : double(hs) * st.d(1) + 1e-9;
                c.fault("best-value-set-by-another");
            }
            else if (op == "q")
            {
                Rng pr(st.u(2));
                const double sp = st.d(3);
                for (size_t j = 0; j < n; ++j)
                    last[j] = hid[j] + sp * pr.normal();
                query(cl[size_t(st.i(1)) % cl.size()], last, st.i(4));
            }
            else if (op == "rep")
            {
                auto& k = cl[size_t(st.i(1)) % cl.size()];
                const long m = std::min<long>(st.i(2), 40);
                for (long i = 0; i < m; ++i)
                {
                    c.fault("query-duplicated");
                    query(k, last, i == m / 2 ? st.i(3) : 0);
                }
            }
        }
    }
};

int main(int argc, char** argv)
{
    LowWorld w;
    return sim_main(argc, argv, w);
}
